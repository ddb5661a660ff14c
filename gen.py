#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
SER, EXT, ADJ, INT, DE, CON, PRIV, TRAIT, IMPL, STR, LIB, MLIB, PARSE = ("src/ser.rs", "src/externally.rs", "src/adjacently.rs", "src/internally.rs", "src/de.rs", "src/content.rs", "src/private.rs",
    "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs", "src/is_serialize_str.rs", "src/lib.rs", "impl/src/lib.rs", "impl/src/parse.rs")
P = []
def p(id, title, statement, over, text, why, files, mech, note, na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, state=list(state)))

p("C01", "Externally tagged values serialize as one map entry {name: value}",
  "Serializing any trait object of an externally tagged trait makes exactly the serializer calls of a one-entry map whose key is the name of the concrete type and whose value is what the concrete value would have produced by itself. Nothing is added, lost, reordered or converted, for every call of the serde data model, every payload and every nesting, and the value sees the format's own is_human_readable.",
  ["inputs"], "every value: any of the 29 serde serializer call shapes, any primitive payload, strings and bytes up to 3, trees of compounds (depth 2, width 2), any type name and index",
  "tests serialize two struct types with two fixed payloads through serde_json and bincode; most serializer methods are never called and JSON hides the difference between, for example, a tuple and a sequence.",
  [EXT, SER, TRAIT, IMPL], [("serialize: one-entry map", EXT), ("generated Serialize for dyn Trait", TRAIT), ("erased passthrough", SER)],
  "every value within the stated shape bounds, symbolic payloads")
p("C02", "Adjacently tagged values serialize as a struct {tag, content}",
  "Serializing any trait object of an adjacently tagged trait makes exactly the serializer calls of a two-field struct named after the trait, with the type's name under the tag field first and then what the concrete value would have produced by itself under the content field. This holds for every call of the serde data model, every payload and every nesting.",
  ["inputs"], "as for C01", "one struct type with fixed payloads in serde_json is all the tests serialize; field order, struct name and unusual value shapes are not observed.",
  [ADJ, SER, TRAIT, IMPL], [("serialize: two-field struct", ADJ), ("generated Serialize for dyn Trait", TRAIT)],
  "every value within the stated shape bounds, symbolic payloads")
p("C03", "Internally tagged values: tag first, then the value, for every value shape",
  "Serializing any trait object of an internally tagged trait writes one map that starts with the tag and the type's name, followed by: the fields of a struct or the entries of a map next to the tag; nothing for unit-like values; the inner variant name and payload for enum values; the value itself under the key \"value\" for primitives, strings, bytes, options holding a value, sequences and tuples. Newtype structs are transparent, payloads (including 128-bit integers, byte strings and nested values) arrive unchanged, and the announced lengths equal the number of entries written.",
  ["inputs"], "every value: all serializer call shapes, symbolic payloads, containers up to width 2, depth 2, known or unknown lengths, skipped fields",
  "the tests check about fifteen fixed values as JSON text, which cannot show announced lengths, 128-bit values, bytes, skipped fields or chars versus strings.",
  [SER, INT, TRAIT], [("serializer that adds the tag", SER), ("buffering under the key \"value\"", SER)],
  "every value within the stated shape bounds, symbolic payloads, against an independent reference model")
p("C04", "Values nested in an internally tagged value reach the format unchanged",
  "When a sequence, tuple, tuple struct, enum variant, map, struct or option is serialized under an internal tag, everything nested inside it produces the same serializer calls that it would have produced directly: same kinds, names, indexes, payloads, keys, order and nesting. Only an unannounced sequence or map length may become known and skipped fields may be left out.",
  ["inputs"], "every leaf kind and every compound kind (two deep, width 2; three deep, width 1) inside every container kind, symbolic payloads, maps with keys of any kind",
  "tests nest integers and one bool in a handful of JSON values; twenty-odd kinds of nested value pass through a buffer that no test looks at.",
  [SER], [("intermediate Content and its serializer", SER)], "every value within the stated shape bounds, symbolic payloads")
p("C05", "A struct field named like the tag is written once or rejected",
  "If an internally tagged struct has a field of its own with the tag's name, then the field is left out when it spells the type's name (as a string, a char, or one of these inside an option or newtype) so that the tag appears exactly once, and serialization fails for every other value of that field. Fields with other names are never affected.",
  ["inputs"], "names of 1, 2 (non-ASCII) and 4 bytes, every leaf kind and several compounds as the field's value, strings up to 4 bytes and all chars symbolic, before or after other fields",
  "one test has a matching field and one a mismatch; the comparison is over arbitrary strings and chars.",
  [SER, STR], [("tag field suppression", SER), ("string expectation serializer", STR)],
  "every value within the bounds; one known finding (announced length)")
p("C06", "A failing format or value fails the serialization, unchanged and at once",
  "If the format reports an error at any call while a trait object of any of the three representations is serialized, then that very error is returned, all earlier calls were those of the fault-free run, and the format is not called again. If a value nested anywhere reports an error of its own, serialization fails with that message and the enclosing container is not completed.",
  ["inputs", "fault_sequences"], "the fault at every single serializer call, for every leaf kind and every compound kind (width 2; thorough: depth 2), all three representations, payloads symbolic",
  "no test has a serializer that fails; swallowing an error or going on after it is invisible to them.",
  [SER, EXT, ADJ, INT], [("error propagation through erased_serde", SER), ("completion of buffered containers", SER)], "single faults at every call within the shape bounds")

p("C07", "Externally tagged values are read by their type directly from the format",
  "Reading {name: value} as an externally tagged trait object gives exactly the result of reading value as the concrete type: the format receives the same deserializer calls, the type's visitor receives the same values with the same ownership, partial reads and refusals are treated alike, and errors keep their message. An empty map or anything that is not a map is an error, and entries after the first are left to the format, which reports them.",
  ["inputs"], "four kinds of formats, every deserializer call on every kind of value, symbolic payloads, containers up to width 2 (thorough: depth 2)",
  "the tests read two struct types with one u8 field from JSON and postcard; twenty-odd deserializer calls are never made.",
  [EXT, DE, TRAIT, IMPL], [("TaggedVisitor::visit_map", EXT), ("FnApply", DE), ("MapLookupVisitor", DE)], "differential against the type by itself, within the stated shape bounds")
p("C08", "Adjacent tag and content are found in any order, with documented errors",
  "An adjacently tagged object reads as its concrete type would read the content by itself (same calls, values, messages) when the tag comes first. Fields other than tag and content are ignored or, with deny_unknown_fields, rejected by name; duplicated fields, a missing tag without default variant and unknown names are rejected naming the field; a tag alone reads as a unit, content alone uses the default variant; sequences [tag, content] are read, and other lengths are rejected.",
  ["inputs"], "documents of up to 3 (thorough: 4) entries with any keys, with both options on or off; all calls and values as for C07",
  "tests cover a dozen fixed documents; order, duplication and unknown keys combine freely.",
  [ADJ, DE, TRAIT], [("TaggedVisitor::visit_map and visit_seq", ADJ)], "against an independent model of key documents and differentially for the content, within the stated bounds")
p("C09", "Internal tag first: the value is read directly from what follows",
  "When the tag is the first key of an internally tagged object, the concrete type reads what follows as if the tag were not there: structs and maps get the remaining entries (keys always as strings), primitives, strings, bytes, sequences and tuples are read from the key \"value\", options are None without and Some with that key, enums take the next entry as variant (its name always a string) and payload, unit-like types need nothing, and newtype structs are transparent. Calls made to the format, values and error messages are those of the type by itself; a missing \"value\" or variant is reported.",
  ["inputs"], "four kinds of formats, every deserializer call on every kind of value, symbolic payloads and keys, width 2",
  "a hand-written deserializer with over sixty forwarding methods, of which the tests call about fifteen.",
  [INT, DE], [("MapWithStringKeys", INT), ("MapEntryAsEnum", INT), ("MapValueAsDeserializer", INT)], "differential against the type by itself, within the stated shape bounds")
p("C10", "An internal tag is found at any position; without one, the default or an error",
  "In self-describing formats an internally tagged object reads the same wherever its tag is among the entries: the type sees all the other entries in their order, for every kind of type (structs, maps, primitives under \"value\", sequences, enums, options, units, newtypes). Without a tag the default variant reads the entries, or, if there is none, the error is that the tag is missing; unknown names are rejected before any type is asked.",
  ["inputs"], "documents of up to 3 (thorough: 4) entries with any keys and the tag at any place; every kind of type",
  "the tests have a handful of documents with the tag in second place, all of them structs.",
  [INT, CON, DE], [("TaggedVisitor::visit_map", INT), ("buffered entries", INT)], "against an independent model and differentially against the tag-first document; found the defect repaired in 60bc880")
p("C11", "Buffering content that precedes the tag does not change it",
  "What is read before the tag is known (adjacent content, entries of an internally tagged object) reaches the concrete type as it would have directly: whenever the buffered read succeeds, the direct one does and the type's visitor saw the same values; and it succeeds whenever the direct read does and the type makes a call that fits the value (its own kind or deserialize_any, any integer width for integers, floats from floats and integers). Nothing is converted, lost or added, and leftovers are errors. 128-bit integers cannot be buffered.",
  ["inputs"], "all 31 deserializer calls on every kind of leaf and compound, symbolic payloads, width 2 (thorough: depth 2)",
  "the buffer has about sixty visitor and deserializer methods; tests buffer a few integers, strings and structs.",
  [CON, ADJ, INT], [("Content, ContentVisitor", CON), ("ContentDeserializer", CON)], "differential against the unbuffered read, within the stated shape bounds; found the defects repaired in 62ad5c7 and 398d448")
p("C12", "A name finds the type registered under it for that trait, and no other",
  "For every name in a document, the concrete type that is asked is the one registered under exactly that name for exactly that trait, whatever the order of registration, other traits of the same name, and other names of the same type. If there is none, the error is an unknown variant which carries the name and all names registered for the trait in sorted order. Default variants are looked up the same way.",
  ["inputs"], "any name of up to 3 (thorough: 4) bytes against nine names that are prefixes and variants of each other, registered in several orders; all representations",
  "tests look up two or three fixed names that differ in their first byte.",
  [DE, TRAIT, IMPL, PRIV], [("MapLookupVisitor::visit_str", DE), ("build_registry, static_registry", TRAIT), ("typetag_register", IMPL)], "every name within the length bound")
p("C13", "A name registered twice is ambiguous, and only that name",
  "If two or more types are registered for a trait under the same name, every document (or default variant) that uses this name is rejected with an error that names the trait and the name, and neither type is asked, however often and in whatever order they are registered. All other names of the trait work, and unknown names are still reported as unknown.",
  ["inputs"], "any name of up to 2 (thorough: 4) bytes, names registered 2 to 4 times at different positions, all representations",
  "one test has one pair of types.",
  [TRAIT, DE], [("registry with None for ambiguous names", TRAIT), ("MapLookupVisitor::visit_str", DE)], "every name within the length bound")
p("C14", "What is serialized is read back, in every format and representation",
  "Every value that a format can write and read back by itself can also be written as a trait object of an externally, internally or adjacently tagged trait and read back from what was written, also in compact formats which write structs as sequences and cannot describe themselves: the concrete type's visitor sees the same kinds, payloads and nesting that it would see by itself, and the whole input is used.",
  ["inputs"], "three representations x four kinds of formats x every leaf and compound kind, nested, symbolic payloads",
  "tests round-trip two structs with one u8 field; the writer and the reader of each representation are separate code that must agree for every shape of value and format.",
  [SER, INT, EXT, ADJ], [("writer of each representation", SER), ("readers", INT)], "every value within the stated shape bounds")
p("C15", "A failing or cut input fails the deserialization, unchanged and at once",
  "If the format reports an error at any point while a trait object of any of the three representations is read, or the input ends early, then the result is an error with the format's own message: it is never taken for the end of a container, a missing tag or a default variant, the format is not asked for anything after it, and up to there the concrete type has been given what it is given without the failure and nothing else.",
  ["inputs", "fault_sequences"], "the failure at every single operation of the format and the end of input at every token, for every leaf and compound kind, tags first and last, four kinds of formats",
  "tests read complete documents; code that loops over entries and code that has a fallback (default variant, missing content) can swallow an error unnoticed.",
  [INT, EXT, ADJ, CON, DE], [("loops over the entries", INT), ("content and tag in any order", ADJ), ("buffering", CON)], "single faults at every operation within the shape bounds")
p("C16", "Threads that use a trait at the same time get what one thread would get",
  "When several threads deserialize trait objects at the same time, also if all of them are the first to use the trait's registry, each gets what it would have got alone: registered names work and give their own type, ambiguous and unknown names are rejected with the same message, no thread blocks forever, panics or sees a partly built registry.",
  ["schedules", "inputs"], "every interleaving of two threads (thorough: three, bounded preemptions) at atomic operations and shared accesses, any names, all representations, one or two traits",
  "the tests are single-threaded for any one trait, and the window of the first use is a few instructions wide.",
  [TRAIT, PRIV, DE], [("static_registry: lazily built, published once", TRAIT), ("registry lookup", DE)], "two threads, sequentially consistent, every interleaving at shared accesses", state=[("REGISTRY (one per trait)", "the map from names to deserialize functions; empty until the first use", TRAIT)])
p("C17", "Trait objects with Send and Sync read and write like those without",
  "For a trait which is Send, Sync, both or neither, every trait object type with these markers added or left out (dyn T + Send, dyn T + Sync, dyn T + Send + Sync), by reference, in a Box, in a Vec or in an Option, is written with exactly the same calls, and read with the same results, calls to the format and errors, as the plain one.",
  ["inputs"], "all marker combinations that a trait allows x three representations x four kinds of formats x all kinds of values, known and unknown names",
  "the tests have one Send trait whose object is serialized, and none of the marker variants is deserialized.",
  [TRAIT, LIB], [("generated impls for marker variants", TRAIT), ("Strictest", LIB)], "differential against the plain trait object, within the stated shape bounds")
p("C18", "A value is told whether the format is human readable",
  "Serialize and Deserialize impls of concrete types, and of everything in them, are told by is_human_readable what the format itself says, so that types which choose their encoding by it behave behind a tag as they do by themselves.",
  ["inputs"], "either answer x trees of values of depth 2 in which everybody asks x external and adjacent tags, fields and entries under internal tags",
  "the tests use one human readable format and one that is not with a single u8, which does not ask.",
  [EXT, ADJ, INT, SER, CON], [("serializer and deserializer adapters", INT), ("content deserializer", CON)], "every tree within the bounds; known findings KF2-KF5: under an internal tag and behind a buffer the answer is always yes")
p("C19", "Documents of the wrong shape are rejected, and never panic",
  "Whatever document of a self-describing format is read as a trait object, it is accepted if it has the shape of its representation and names a registered type (as text, under the tag, once), and otherwise rejected with an error: values, sequences and maps in place of the object, keys and tags that are not text, missing or repeated fields, surplus elements and entries. No document makes it panic.",
  ["inputs"], "documents made of any leaf in any place, sequences up to 3, maps up to 2 (thorough: 3) entries, inside options, newtypes and variants; all representations with and without default variants",
  "the tests reject six documents, all of them objects with text keys.",
  [EXT, ADJ, INT, DE, CON], [("expected shapes", ADJ), ("tag and name visitors", DE), ("key visitors", INT)], "every document within the bounds, against an independent model")
p("C20", "The attributes mean what they say",
  "A type is written and read under exactly the name that its impl declares: the last segment of its path, or the given name whether it is a literal, a constant or another expression. Every form of the attribute on a trait or impl (serialize, deserialize or both; tag, content, default variant and deny_unknown_fields in any order, trailing commas; generic, unsafe, private traits; impls made by macros) gives the documented representation.",
  ["configurations", "inputs"], "twelve forms of traits with twelve forms of impls each, split and generic ones, any name of up to 4 bytes",
  "the tests use a handful of the forms, and never look up a name that is almost the declared one.",
  [MLIB, PARSE, TRAIT, IMPL], [("attribute parser", PARSE), ("generated trait code", TRAIT), ("default name, registration", IMPL)], "a fixed list of declarations; every name within the bounds")
p("C21", "How long, how many and how deep does not matter",
  "Long sequences, tuples, maps, strings and byte strings, structs with many fields, deeply nested values, traits with many types, long names and tags, and tags after many other entries are written and read back exactly like short ones, in all representations.",
  ["inputs"], "lengths around every power of two up to 257, 1025, 4097 (thorough: also up to 65537), 40 fields, 200 levels, 60 types, 60-byte names, 20 entries before the tag; contents symbolic",
  "the largest value in the tests has two fields, the largest registry three types.",
  [SER, CON, INT, ADJ, EXT, DE, TRAIT], [("buffers", CON), ("serializer buffers", SER), ("registry", TRAIT)], "the listed lengths, symbolic contents")
p("C22", "The attributes take what is documented and reject the rest, saying where",
  "The attribute macros accept the documented forms of arguments, traits and impls, in any order and with or without trailing commas, and then keep everything that the trait or impl says. They reject everything else with an error message which is at the tokens that are wrong: arguments that are unknown, misspelt, repeated, out of place or incomplete, generic traits and impls under deserialize, associated types (unless they are where Self: Sized) and constants, impls that are not of a trait, and types without a name of their own if none is given. The default name is the last segment of the type's path, letter for letter.",
  ["programs"], "every sequence of up to 3 (thorough: 4) argument tokens, and the valid ones with up to one (thorough: two) edits; any letters in place of every keyword and type name; the combinations of generics, visibility, supertraits, items, self types and names within the bounds",
  "the ui tests compile eight programs.",
  [PARSE, TRAIT, IMPL, MLIB], [("parser of the arguments and items", PARSE), ("what is allowed in a trait", TRAIT), ("default name", IMPL)], "every sequence of tokens and every item within the bounds, on proc-macro2's tokens instead of rustc's")
p("C23", "Trait objects nest in each other",
  "A trait object that is a field, element, entry, option, newtype or variant payload of a value which is itself a trait object, of the same or of another trait, in any combination of the three representations, is written with the calls that it makes by itself, and is read back from what was written, in every kind of format, whichever of the tags come first; also through the flattened fields, untagged and tagged enums of serde's derive.",
  ["inputs"], "3 x 3 representations x 9 places x 8 shapes of inner values x 4 formats x 4 orders of the tags; three levels of the same trait",
  "the tests have no trait object inside of another one.",
  [EXT, ADJ, INT, SER, CON], [("buffers that hold buffered objects", CON), ("maps in maps", INT), ("serializer adapters around serializer adapters", SER)], "every value within the bounds, up to three levels")
p("C24", "What was read or written before does not matter",
  "A use of a trait (reading a document, writing a value) gives what it gives by itself whatever uses of the same or other traits with the same types came before it in the process, accepted, rejected, cut off or failed at any point: the same type is asked, the same calls are made, the same errors are reported. A rejected first use does not spoil the later ones.",
  ["histories", "inputs"], "every sequence of 2 uses of three traits and of 3 uses of each one (thorough: 3, 3 with writes), any names, payloads and failures",
  "the tests use each trait a few times, with documents that are accepted; state that is kept between uses (the registry, a cache) is not looked at.",
  [TRAIT, DE, PRIV, EXT, INT, ADJ], [("static_registry: built on the first use", TRAIT), ("lookup of a name", DE)], "every sequence within the bounds", state=[("REGISTRY (one per trait)", "the map from names to deserialize functions; empty until the first use", TRAIT)])
p("C25", "The Rust type behind a trait object does not matter; it is dropped once",
  "Whatever type implements the trait (zero-sized, small, large, over-aligned, generic, with memory of its own, holding trait objects), a document gives a live object of exactly that type, with the payload that was read, whose methods can be called and which is written as it was read. Every value that is made while a document is read is dropped exactly once: by its owner if the document is accepted, before the error is returned if the document is rejected, cut off or the format fails at any point.",
  ["inputs", "fault_sequences"], "ten types x three representations x tag first or last x four formats x complete, cut, failing, refused and surplus documents, any payload",
  "the tests use two small structs with one integer and look at neither size, alignment nor destructors; behind typetag a value goes through type-erased boxes whose inline and heap storage differ by size.",
  [EXT, INT, ADJ, CON, DE, PRIV], [("deserialize functions and their application", DE), ("content and tag in any order, late rejections", ADJ)], "ten types, every payload, every point of failure", state=[("Box<dyn Trait> under construction", "made before the document is known to be good", ADJ)])
#END

BUILT = {f[:-3].upper() for c in ("harness", "macro") for f in os.listdir(os.path.join(V, c, "src/bin"))}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in q["state"]], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "observe_at": ["Serialize / Deserialize calls seen by a data format (public API)"], "hook_needed": None}}) + "\n")
TRUST = "Trusts rustc's lowering to LLVM IR, the symbolic executor in engine/ (paths are replayed natively on every run), z3. Complete only within the bounds in the evidence file; outside them it says nothing."
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": q["id"], "quick_cmd": f"python3 check.py {q['id']} quick", "thorough_cmd": f"python3 check.py {q['id']} thorough", "technique": "symbolic execution of the compiled code (LLVM IR) with SMT (z3, QF_BV)", "level": "model_checking", "level_note": q["note"][0].upper() + q["note"][1:] + ". " + TRUST} for q in P if not q["na"] and q["id"] in BUILT],
     "not_applicable": [{"property": q["id"], "reason": q["na"] or "no check built yet"} for q in P if q["na"] or q["id"] not in BUILT],
     "notes": "No hooks in /repo: the harnesses drive the public API. See DESIGN.md; known_findings.json lists findings and fixes."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
print(len(m["checks"]), "checks")
