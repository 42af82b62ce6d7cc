//! L05: the token stream matchers accept exactly the inputs which the pattern describes.
use libchecks::*;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use token_stream_matchers::internal::{match_tokens, mismatch_tokens};

#[derive(Debug, Clone, PartialEq)]
enum T { Id(u8), Lit(u8), P(char), G(u8, Vec<T>), Nl, Sp, Any }

fn build(v: &[T]) -> TokenStream {
    let id = |s: &str| -> TokenTree { Ident::new(s, Span::call_site()).into() };
    let mut out: Vec<TokenTree> = vec![];
    for t in v {
        match t {
            T::Id(n) => out.push(id(["a", "b", "c", "ab"][*n as usize % 4])),
            T::Lit(n) => out.push(if n % 2 == 0 { Literal::u8_unsuffixed(*n / 2 % 3).into() } else { Literal::string(["x", "y"][*n as usize / 2 % 2]).into() }),
            T::P(c) => out.push(Punct::new(*c, Spacing::Alone).into()),
            T::G(d, v) => out.push(Group::new([Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket][*d as usize % 3], build(v)).into()),
            T::Nl => out.push(id("__NEWLINE__")),
            T::Sp => out.push(id("__SPACE__")),
            T::Any => for s in [Spacing::Joint, Spacing::Joint, Spacing::Alone] { out.push(Punct::new('.', s).into()) },
        }
    }
    out.into_iter().collect()
}
fn norm(t: &T) -> T {
    match t { T::Id(n) => T::Id(n % 4), T::Lit(n) => if n % 2 == 0 { T::Lit(n / 2 % 3 * 2) } else { T::Lit(n / 2 % 2 * 2 + 1) }, t => t.clone() }
}
fn plain(v: &[T]) -> Vec<T> {
    v.iter().filter(|t| !matches!(t, T::Nl | T::Sp)).map(|t| match t { T::G(d, v) => T::G(d % 3, plain(v)), t => norm(t) }).collect()
}
fn pat(v: &[T]) -> Vec<T> { v.iter().map(|t| match t { T::G(d, v) => T::G(d % 3, pat(v)), t => norm(t) }).collect() }
/// Does the whole input match the whole pattern?
fn whole(i: &[T], p: &[T]) -> bool {
    match p.first() {
        None => i.is_empty(),
        Some(T::Any) => (0..=i.len()).any(|k| whole(&i[k..], &p[1..])),
        Some(q) => i.first().is_some_and(|t| one(t, q)) && whole(&i[1..], &p[1..]),
    }
}
fn one(t: &T, q: &T) -> bool {
    match (t, q) { (T::G(a, x), T::G(b, y)) => a == b && whole(x, y), _ => t == q }
}
fn found(i: &[T], p: &[T]) -> bool {
    let mut q = vec![T::Any]; q.extend_from_slice(p); q.push(T::Any);
    whole(i, &q) || i.iter().any(|t| matches!(t, T::G(_, v) if found(v, p)))
}

fn input() -> impl Strategy<Value = Vec<T>> {
    let leaf = prop_oneof![5 => any::<u8>().prop_map(T::Id), 1 => any::<u8>().prop_map(T::Lit), 2 => prop::sample::select(vec![';', ':', '=']).prop_map(T::P), 1 => Just(T::Nl), 1 => Just(T::Sp)];
    prop::collection::vec(leaf.prop_recursive(3, 14, 4, |i| (any::<u8>(), prop::collection::vec(i, 0..4)).prop_map(|(d, v)| T::G(d, v))), 0..7)
}
/// A pattern made from a part of the input, some of it replaced by wildcards or damaged.
fn derive(v: &[T], ops: &[u8], k: &mut usize) -> Vec<T> {
    let mut out = vec![];
    for t in v {
        if matches!(t, T::Nl | T::Sp) { continue; }
        let op = ops[*k % ops.len()]; *k += 1;
        match op % 12 {
            0 | 1 => { if out.last() != Some(&T::Any) { out.push(T::Any) } }
            2 => { out.push(T::Any); out.push(t.clone()) }
            3 if op > 200 => {}
            4 if op > 150 => out.push(T::Id(op)),
            _ => out.push(match t { T::G(d, v) => T::G(*d, derive(v, ops, k)), t => t.clone() }),
        }
    }
    out
}
fn dots(v: &[T]) -> usize { v.iter().map(|t| match t { T::Any => 1, T::G(_, v) => dots(v), _ => 0 }).sum() }

fn main() {
    let mut s = Suite::new("a case is an input token tree and a pattern derived from a part of it (or unrelated), with `...` wildcards at any depth; non-trivial: the pattern has a wildcard and a concrete token");
    let case = (input(), 0usize..7, 1usize..7, prop::collection::vec(any::<u8>(), 1..24), prop::option::weighted(0.15, input()))
        .prop_map(|(i, from, n, ops, other)| { let v: Vec<T> = i.iter().skip(from % (i.len() + 1)).take(n).cloned().collect(); let p = derive(other.as_deref().unwrap_or(&v), &ops, &mut 0); (i, p) });
    s.run("matches", 20_000, 600_000, case, |c, (i, p)| {
        if p.is_empty() || dots(&p) > 5 { return Ok(()); }
        if dots(&p) > 0 && p.iter().any(|t| *t != T::Any) { c.note(format!("{i:?}{p:?}")); }
        let want = found(&plain(&i), &pat(&p));
        c.class(if want { "matches" } else { "does not match" });
        let (it, pt) = (build(&i), build(&p));
        let f: fn(TokenStream) -> anyhow::Result<String> = |t| Ok(t.to_string());
        let m = match_tokens(&it, &pt, f);
        ensure_eq!(m.is_ok(), want, "match_tokens of `{it}` and `{pt}`");
        if let Err(e) = m { ensure!(!format!("{e:#}").is_empty(), "an error without a message"); }
        ensure_eq!(mismatch_tokens(&it, &pt, f).is_ok(), !want, "mismatch_tokens of `{it}` and `{pt}`");
        Ok(())
    });
    s.finish()
}
