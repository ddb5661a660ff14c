//! C22: what the macro accepts, and what it says about the rest.
//! @bounds: attribute arguments: every sequence of up to 3 (thorough: 4) of 11 tokens, and every sequence that is one (thorough: two) insertions, deletions, replacements, transpositions or a truncation away from a valid one; every identifier of the right length (letters) in place of each keyword; traits with every combination of visibility, unsafe, generics, supertraits, where clause and up to two items of 13 kinds, for the three attributes; impls with every combination of generics, trait path, self type of 13 kinds, up to two items, attributes and a name or none; 12 kinds of other items
//! @outside: longer arguments, other items; what rustc makes of the expansion (C20)
//! @assume: the macro runs on proc-macro2's own tokens instead of rustc's
//! @need: args: accepted|args: rejected|args: an error iff they are not of the documented form|args: the error is at the first token that does not fit
//! @shard q_traits|t_.* 8 4
use macro_harness::{entries, sym::*, *};

// ---- attribute arguments
#[derive(Clone, Copy, PartialEq)]
enum K { Tag, Content, Def, Deny, Name, Other, Eq, Comma, Str, Int, Paren, Colons }
use K::*;
const ALPHABET: [K; 11] = [Tag, Content, Def, Deny, Name, Other, Eq, Comma, Str, Int, Paren];
const IMPL_ALPHABET: [K; 9] = [Name, Other, Tag, Eq, Comma, Str, Int, Paren, Colons];
fn text(k: K, i: usize) -> &'static str {
    match k { Tag => "tag", Content => "content", Def => "default_variant", Deny => "deny_unknown_fields", Name => "name", Other => "xyz", Eq => "=", Comma => ",", Int => "5", Paren => "()", Colons => "::",
        Str => ["\"s0\"", "\"s1\"", "\"s2\"", "\"s3\"", "\"s4\"", "\"s5\"", "\"s6\"", "\"s7\"", "\"s8\"", "\"s9\""][i % 10] }
}
/// tokens with a space after each, and where each begins
fn render(v: &[K]) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut at = vec![];
    for (i, &k) in v.iter().enumerate() { at.push(s.len()); s.push_str(text(k, i)); s.push(' ') }
    (s, at)
}
/// the documented forms of the trait's arguments; else the first token that does not fit
fn trait_args(v: &[K]) -> Result<(), usize> {
    let n = v.len();
    let mut i = 0;
    macro_rules! want { ($($k:expr),*) => { $( if i < n && v[i] == $k { i += 1 } else { return Err(i) } )* } }
    if n == 0 { return Ok(()) }
    want!(Tag, Eq, Str);
    if i == n { return Ok(()) }
    want!(Comma);
    if i == n { return Ok(()) }
    if v[i] == Def { want!(Def, Eq, Str); if i < n { want!(Comma); } return if i == n { Ok(()) } else { Err(i) } }
    want!(Content, Eq, Str);
    let (mut default, mut deny) = (false, false);
    while i < n {
        want!(Comma);
        if i == n { break }
        if !default && v[i] == Def { default = true; want!(Def, Eq, Str); }
        else if !deny && v[i] == Deny { deny = true; want!(Deny); }
        else { return Err(i) }
    }
    Ok(())
}
/// name = expression, optional comma
fn impl_args(v: &[K]) -> Result<(), usize> {
    let n = v.len();
    let mut i = 0;
    macro_rules! want { ($($k:expr),*) => { $( if i < n && v[i] == $k { i += 1 } else { return Err(i) } )* } }
    if n == 0 { return Ok(()) }
    want!(Name, Eq);
    let ident = |k: K| matches!(k, Name | Other | Tag);
    loop {
        // an operand
        if i < n && (ident(v[i]) || v[i] == Colons) {
            if v[i] == Colons { i += 1 }
            loop {
                if i < n && ident(v[i]) { i += 1 } else { return Err(i) }
                if i < n && v[i] == Colons { i += 1 } else { break }
            }
        } else if i < n && matches!(v[i], Str | Int | Paren) { i += 1 } else { return Err(i) }
        while i < n && v[i] == Paren { i += 1 }
        if i < n && v[i] == Eq { i += 1 } else { break }
    }
    if i < n { want!(Comma); }
    if i < n { Err(i) } else { Ok(()) }
}
fn judge_args(v: &[K], on_trait: bool) {
    let (s, at) = render(v);
    let item = if on_trait { "\n\npub trait Trait { fn f(&self); }" } else { "\n\nimpl Trait for S { fn f(&self) {} }" };
    let item_toks = parse(item);
    let mut want = vec![];
    flat(item_toks.clone(), &mut want);
    let r = if on_trait { trait_args(v) } else { impl_args(v) };
    let o = call(if on_trait { 0 } else { choice(3) }, parse(&s), item_toks);
    check(o.errors.is_empty() == r.is_ok(), "args: an error iff they are not of the documented form");
    match r {
        Ok(()) => {
            reach("args: accepted");
            check(within(&want, &o.toks), "args: the item is kept");
            for (i, &k) in v.iter().enumerate() { if k == Str { check(o.toks.iter().any(|t| matches!(t, Flat::L(l) if l == text(k, i))), "args: every name given is used") } }
        }
        Err(i) => {
            reach("args: rejected");
            let (m, start, _) = &o.errors[0];
            check(m.len() > 2, "args: the error has a message");
            // (inside an expression it is syn's choice)
            let first = if on_trait || i < 2 { i } else { 2 };
            if i < v.len() { check(start.0 == 1 && start.1 >= at[first] && start.1 <= at[i], "args: the error is at the first token that does not fit") }
        }
    }
}
fn any_args(n: usize, alphabet: &[K], on_trait: bool) {
    let len = choice(n + 1);
    let v: Vec<K> = (0..len).map(|_| pick(alphabet)).collect();
    judge_args(&v, on_trait);
}
const FORMS: [&[K]; 4] = [
    &[Tag, Eq, Str, Comma, Content, Eq, Str, Comma, Def, Eq, Str, Comma, Deny, Comma],
    &[Tag, Eq, Str, Comma, Content, Eq, Str, Comma, Deny, Comma, Def, Eq, Str],
    &[Tag, Eq, Str, Comma, Def, Eq, Str, Comma],
    &[Tag, Eq, Str, Comma],
];
const IMPL_FORMS: [&[K]; 4] = [&[Name, Eq, Str, Comma], &[Name, Eq, Other, Colons, Other, Comma], &[Name, Eq, Other, Paren], &[Name, Eq, Colons, Name]];
fn mutate(v: &mut Vec<K>, alphabet: &[K]) {
    match choice(5) {
        0 => { let i = choice(v.len() + 1); v.insert(i, pick(alphabet)) }
        1 if !v.is_empty() => { let i = choice(v.len()); v[i] = pick(alphabet) }
        2 if !v.is_empty() => { let i = choice(v.len()); v.remove(i); }
        3 if v.len() > 1 => { let i = choice(v.len() - 1); v.swap(i, i + 1) }
        4 => { let i = choice(v.len() + 1); v.truncate(i) }
        _ => assume(false),
    }
}
fn q_trait_args() { any_args(3, &ALPHABET, true) }
fn q_impl_args() { any_args(3, &IMPL_ALPHABET, false) }
fn t_trait_args() { any_args(4, &ALPHABET, true) }
fn t_impl_args() { any_args(4, &IMPL_ALPHABET, false) }
fn q_trait_forms() { let mut v = pick(&FORMS).to_vec(); mutate(&mut v, &ALPHABET); judge_args(&v, true) }
fn q_impl_forms() { let mut v = pick(&IMPL_FORMS).to_vec(); mutate(&mut v, &IMPL_ALPHABET); judge_args(&v, false) }
fn t_trait_forms() { let mut v = FORMS[choice(3)].to_vec(); mutate(&mut v, &[Tag, Content, Def, Deny, Eq, Comma, Str]); mutate(&mut v, &[Def, Deny, Comma, Str]); judge_args(&v, true) }
fn t_impl_forms() { let mut v = pick(&IMPL_FORMS).to_vec(); mutate(&mut v, &IMPL_ALPHABET); mutate(&mut v, &IMPL_ALPHABET); judge_args(&v, false) }

// ---- any identifier in place of a keyword
fn ident(n: usize, shape: &str) -> String {
    let mut s = Vec::new();
    for i in 0..n {
        if shape.as_bytes()[i] == b'_' { s.push(b'_'); continue }
        let b = u8v();
        assume((b >= b'a') & (b <= b'z'));
        s.push(b);
    }
    unsafe { String::from_utf8_unchecked(s) }
}
fn id(s: &str) -> TokenTree { TokenTree::Ident(Ident::new(s, Span::call_site())) }
fn q_keywords() {
    let form = FORMS[choice(3)];
    let keys: Vec<usize> = (0..form.len()).filter(|&i| matches!(form[i], Tag | Content | Def | Deny)).collect();
    let at = pick(&keys);
    let key = text(form[at], 0);
    let n = pick(&[key.len() - 1, key.len(), key.len() + 1]);
    let word = ident(n, &format!("{key}a"));
    let toks: TokenStream = form.iter().enumerate().flat_map(|(i, &k)| if i == at { vec![id(&word)] } else { parse(text(k, i)).into_iter().collect() }).collect();
    let o = call(0, toks, parse("trait Trait {}"));
    let same = word.len() == key.len() && bytes_eq(word.as_bytes(), key.as_bytes());
    if o.errors.is_empty() { check(same, "keyword: no other word is accepted"); reach("keyword: accepted") } else { check(!same, "keyword: it is accepted"); reach("keyword: rejected") }
}
fn q_name_keyword() {
    let n = pick(&[3, 4, 5]);
    let word = ident(n, "aaaaa");
    let toks: TokenStream = [id(&word)].into_iter().chain(parse("= \"n\"")).collect();
    let o = call(choice(3), toks, parse("impl Trait for S {}"));
    let same = bytes_eq(word.as_bytes(), b"name");
    if o.errors.is_empty() { check(same, "keyword: no other word is accepted"); reach("keyword: accepted") } else { check(!same, "keyword: it is accepted"); reach("keyword: rejected") }
}
/// the name of a type is the last segment of its path, letter for letter
fn q_default_name() {
    let word = format!("x{}", ident(pick(&[1, 2, 3]), "aaa"));
    let mut ty: Vec<TokenTree> = vec![];
    if flag() { ty.extend(parse("m::")) }
    ty.push(id(&word));
    if flag() { ty.extend(parse("<u8>")) }
    if flag() { ty = vec![TokenTree::Group(Group::new(Delimiter::None, ty.into_iter().collect()))]; reach("name: through a macro") }
    let item: TokenStream = parse("impl Trait for").into_iter().chain(ty).chain(parse("{}")).collect();
    let mode = choice(3);
    let o = call(mode, TokenStream::new(), item);
    check(o.errors.is_empty(), "name: accepted");
    let lit = format!("\"{word}\"");
    let count = o.toks.iter().filter(|t| matches!(t, Flat::L(l) if l.len() == lit.len() && bytes_eq(l.as_bytes(), lit.as_bytes()))).count();
    check(count >= 1, "name: the type's own name");
    check(o.toks.iter().all(|t| match t { Flat::L(l) => l.len() == lit.len(), _ => true }), "name: no other literal");
    reach("name: done");
}

// ---- items
fn says(m: &str, what: &str) -> bool { (0..m.len()).any(|i| m.as_bytes()[i..].starts_with(what.as_bytes())) }
struct Src { s: String }
impl Src { fn put(&mut self, t: &str) -> (usize, usize) { let a = self.s.len(); self.s.push_str(t); self.s.push(' '); (a, a + t.len()) } }
enum Want { Fine, Error(&'static str, (usize, usize)) }
fn judge_item(src: Src, args: &str, mode: usize, want: Want) {
    let text = format!("\n\n{}", src.s);
    let item = parse(&text);
    let mut toks = vec![];
    flat(item.clone(), &mut toks);
    // (generics without parameters are no generics)
    while let Some(i) = (1..toks.len()).find(|&i| toks[i - 1] == Flat::P('<') && toks[i] == Flat::P('>')) { toks.drain(i - 1..=i); }
    let o = call(mode, parse(args), item);
    match want {
        Want::Fine => {
            check(o.errors.is_empty(), "item: accepted");
            check(within(&toks, &o.toks), "item: everything in it is kept");
            reach("item: accepted");
        }
        Want::Error(subject, (a, b)) => {
            check(!o.errors.is_empty(), "item: rejected");
            let (m, start, end) = &o.errors[0];
            check(says(m, subject), "item: the message says what is wrong");
            check(start.0 == 3 && start.1 >= a && start.1 < b && end.0 == 3 && end.1 <= b, "item: the error is at what is wrong");
            reach(subject);
        }
    }
}
const TRAIT_ITEMS: [&str; 13] = ["", "fn f(&self) -> u8;", "fn g(&self) -> u8 { 5 }", "const C: u8;", "const D: u8 = 5;", "type T;", "type U where Self: Sized;", "type V: Clone where V: Copy, Self: Sized + Clone;", "type W: Sized where Self: Copy;", "type X where u8: Sized;", "type Y where Self: Copy, for<'a> &'a u8: Sized;", "type Z where 'static: 'static, Self: Sized;", "type Q<'a> where Self: 'a + Sized;"];
fn trait_item(n: usize, mode: usize, vis: usize, generics: usize, supers: usize, clause: usize, first: usize, second: usize) {
    let _ = n;
    let mut s = Src { s: String::new() };
    let mut want = Want::Fine;
    s.put(["", "#[doc = \"x\"]", "/// doc\n"][if vis == 3 { 1 } else { 0 }]);
    s.put(["", "pub", "pub(crate)", "unsafe", "pub unsafe"][vis]);
    s.put("trait Trait");
    let g = s.put(["", "<T>", "<'a, T: Clone>", "<const N: usize>", "<>"][generics]);
    if (1..=3).contains(&generics) && mode != 1 { want = Want::Error("generic", g) }
    s.put(["", ": Send", ": Send + Sync + ?Sized", ": 'static"][supers]);
    s.put(["", "where Self: Clone"][clause]);
    s.put("{");
    if vis > 2 { s.put("#![allow(unused)]"); }
    let mut found = false;
    for i in [first, second] {
        let at = s.put(TRAIT_ITEMS[i]);
        // the items are looked at before the rest
        if found { continue }
        match i {
            3 | 4 => { want = Want::Error("const", at); found = true }
            5 | 8 | 9 | 10 => { want = Want::Error("type", at); found = true }
            _ => {}
        }
    }
    s.put("}");
    judge_item(s, pick(&["", "tag = \"t\""]), mode, want)
}
fn q_traits() { trait_item(0, choice(3), choice(5), choice(5), choice(4), choice(2), pick(&[0, 2]), 0) }
fn q_trait_items() { trait_item(0, choice(3), 1, choice(2), 0, 0, choice(13), choice(13)) }
const SELVES: [&str; 13] = ["S", "m::S", "::m::S<u8>", "S<'static>", "&'static S", "(u8, u8)", "[u8; 4]", "fn(u8) -> u8", "dyn Other", "(S)", "<S as Other>::Assoc", "*const u8", "()"];
const IMPL_ITEMS: [&str; 5] = ["", "fn f(&self) -> u8 { 5 }", "type T = u8;", "const C: u8 = 5;", "#[doc = \"x\"] const D: &'static str = \"\";"];
fn impl_item(mode: usize, generics: usize, head: usize, this: usize, first: usize, second: usize, attrs: usize, named: usize) {
    let mut s = Src { s: String::new() };
    let mut want = Want::Fine;
    s.put(["", "#[doc = \"y\"]"][attrs & 1]);
    let begin = s.put(["impl", "unsafe impl"][choice(2)]).0;
    let g = s.put(["", "<T>", "<'a>", "<>"][generics]);
    s.put(["", "Trait for", "m::Trait<u8> for", "::m::Trait for"][head]);
    let t = s.put(SELVES[this]);
    s.put("{");
    if attrs & 2 != 0 { s.put("#![allow(unused)]"); }
    let mut c = s.put(IMPL_ITEMS[first]);
    let second_at = s.put(IMPL_ITEMS[second]);
    if first < 3 { c = second_at }
    s.put("}");
    if named == 0 && this > 3 { want = Want::Error("name", t) }
    if (1..=2).contains(&generics) && mode != 1 { want = Want::Error("generic", g) }
    if first >= 3 || second >= 3 { want = Want::Error("const", c) }
    if head == 0 { want = Want::Error("impl", (begin, t.1)) }
    judge_item(s, ["", "name = \"n\""][named], mode, want)
}
fn q_impls() { impl_item(choice(3), choice(4), choice(4), choice(6), pick(&[0, 2, 3]), 0, 0, choice(2)) }
fn q_impl_items() { impl_item(choice(3), choice(2), 1, 0, choice(5), choice(5), choice(4), 0) }
fn q_selves() { impl_item(choice(3), 0, choice(4), choice(13), 1, 0, 0, choice(2)) }
fn q_others() {
    let (t, at) = pick(&[("struct S;", 0), ("fn f() {}", 0), ("const C: u8 = 5;", 0), ("static C: u8 = 5;", 0), ("enum E {}", 0), ("pub mod m {}", 4), ("use m::Trait;", 0), ("type T = u8;", 0), ("union U { a: u8 }", 0), ("extern \"C\" {}", 0), ("pub(crate) struct S;", 11), ("m!{}", 0), ("unsafe fn f() {}", 7), ("#[doc = \"x\"] struct S;", 13), ("pub", 3)]);
    let args = pick(&["", "tag = \"t\"", "name = \"n\"", "nonsense"]);
    let o = call(choice(3), parse(args), parse(&format!("\n\n{t}")));
    check(!o.errors.is_empty(), "other: rejected");
    let (m, start, _) = &o.errors[0];
    check(says(m, "trait") && says(m, "impl"), "other: the message says what is expected");
    if t.len() > at { check(start.0 == 3 && start.1 <= at, "other: the error is at the item"); reach("other: done") }
}
entries! { q_trait_args q_impl_args q_trait_forms q_impl_forms q_keywords q_name_keyword q_default_name q_traits q_trait_items q_impls q_impl_items q_selves q_others t_trait_args t_impl_args t_trait_forms t_impl_forms }
