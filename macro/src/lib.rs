//! Harnesses for the macro itself: /repo/impl/src is built as an ordinary
//! library on proc-macro2's own token streams, so that it can be executed
//! symbolically.
#[path = "../../harness/src/sym.rs"]
pub mod sym;
pub use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

/// what the macro gave back
pub struct Out {
    /// compile_error messages: text, and (line, column) where they begin and end
    pub errors: Vec<(String, (usize, usize), (usize, usize))>,
    pub toks: Vec<Flat>,
}
#[derive(Clone, PartialEq)]
pub enum Flat { Open(u8), Close(u8), Id(Ident), P(char), L(String) }
fn delim(d: Delimiter) -> u8 { match d { Delimiter::Parenthesis => b'(', Delimiter::Brace => b'{', Delimiter::Bracket => b'[', Delimiter::None => 0 } }
fn lc(s: Span) -> ((usize, usize), (usize, usize)) { let (a, b) = (s.start(), s.end()); ((a.line, a.column), (b.line, b.column)) }
pub fn flat(t: TokenStream, out: &mut Vec<Flat>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => out.push(Flat::Id(i)),
            TokenTree::Punct(p) => out.push(Flat::P(p.as_char())),
            TokenTree::Literal(l) => out.push(Flat::L(l.to_string())),
            TokenTree::Group(g) => {
                let d = delim(g.delimiter());
                if d != 0 { out.push(Flat::Open(d)) }
                flat(g.stream(), out);
                if d != 0 { out.push(Flat::Close(d)) }
            }
        }
    }
}
/// compile_error! { "message" }, wherever it is
fn errors(t: TokenStream, out: &mut Vec<(String, (usize, usize), (usize, usize))>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for (i, x) in v.iter().enumerate() {
        match x {
            TokenTree::Ident(id) if id == "compile_error" => if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                let m = g.stream().into_iter().next().map(|t| t.to_string()).unwrap_or_default();
                // the path's first token has the start, the group the end
                let start = lc(id.span()).0;
                out.push((m, start, lc(g.span()).1));
            },
            TokenTree::Group(g) => errors(g.stream(), out),
            _ => {}
        }
    }
}
pub fn out(t: TokenStream) -> Out {
    let mut o = Out { errors: vec![], toks: vec![] };
    errors(t.clone(), &mut o.errors);
    flat(t, &mut o.toks);
    o
}
/// every token of `a` is in `b`, in this order
pub fn within(a: &[Flat], b: &[Flat]) -> bool {
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] != *x { j += 1 }
        if j == b.len() { return false }
        j += 1;
    }
    true
}
pub fn parse(s: &str) -> TokenStream { match s.parse() { Ok(t) => t, Err(_) => panic!("harness: not tokens") } }
pub fn call(mode: usize, args: TokenStream, item: TokenStream) -> Out {
    out(match mode { 0 => typetag_impl::serde(args, item), 1 => typetag_impl::serialize(args, item), _ => typetag_impl::deserialize(args, item) })
}
