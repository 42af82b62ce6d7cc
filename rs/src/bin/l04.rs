//! L04: printing a token stream as C++ keeps tokens, comments, newlines and provenance.
use libchecks::*;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use token_stream_printer::*;

#[derive(Debug, Clone)]
enum It {
    Id(String), Int(u32), Str(String), Op(&'static str), Group(u8, Vec<It>),
    Nl, Sp, Hash, Comment(String), RawComment(String), Literally(String), Tag(String, u32), Cap(String),
}

/// What a C++ compiler sees of the output.
#[derive(Debug, Clone, PartialEq)]
enum Tok { Word(String), Str(String), P(String), Nl, Line(String), Raw(String) }

fn ident(s: &str) -> TokenTree { Ident::new(s, Span::call_site()).into() }
fn build(items: &[It]) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for i in items {
        match i {
            It::Id(s) => out.push(ident(s)),
            It::Int(n) => out.push(Literal::u32_unsuffixed(*n).into()),
            It::Str(s) => out.push(Literal::string(s).into()),
            It::Op(o) => { let n = o.len(); for (k, c) in o.chars().enumerate() { out.push(Punct::new(c, if k + 1 < n { Spacing::Joint } else { Spacing::Alone }).into()) } }
            It::Group(d, v) => out.push(Group::new([Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace][*d as usize % 3], build(v)).into()),
            It::Nl => out.push(ident("__NEWLINE__")),
            It::Sp => out.push(ident("__SPACE__")),
            It::Hash => out.push(ident("__HASH_TOKEN__")),
            It::Comment(s) => { out.push(ident("__COMMENT__")); out.push(Literal::string(s).into()); }
            It::RawComment(s) => { out.push(ident("__COMMENT__")); out.extend(format!("r##\"{s}\"##").parse::<TokenStream>().unwrap()); }
            It::Literally(s) => { out.push(ident("__NEWLINE__")); out.push(ident("__LITERALLY__")); out.push(Literal::string(&format!("@{s}")).into()); }
            It::Tag(s, n) => { out.push(ident("__CAPTURE_TAG__")); for l in [s.clone(), n.to_string(), (n + 7).to_string()] { out.push(Literal::string(&l).into()) }
                out.push(ident("__COMMENT__")); out.push(Literal::string("Generated by: x").into()); }
            It::Cap(s) => { out.push(ident("__CAPTURE_BEGIN__")); out.push(ident(s)); out.push(ident("__CAPTURE_END__")); }
        }
    }
    out.into_iter().collect()
}
fn lines(s: &str) -> Vec<String> { s.replace("\r\n", "\n").split(['\n', '\r']).map(String::from).collect() }
/// The tokens, with the index (in it) of each captured token.
fn want(items: &[It], out: &mut Vec<Tok>, caps: &mut Vec<(usize, usize, String, u32)>, tags: &mut (usize, String, u32)) {
    for i in items {
        match i {
            It::Id(s) => out.push(Tok::Word(s.clone())),
            It::Int(n) => out.push(Tok::Word(n.to_string())),
            It::Str(s) => out.push(Tok::Str(s.clone())),
            It::Op("::") => out.push(Tok::P("::".into())),
            It::Op(o) => out.extend(o.chars().map(|c| Tok::P(c.into()))),
            It::Group(d, v) => {
                let d = ["()", "[]", "{}"][*d as usize % 3];
                out.push(Tok::P(d[..1].into())); want(v, out, caps, tags); out.push(Tok::P(d[1..].into()));
            }
            It::Nl => out.push(Tok::Nl),
            It::Sp => {}
            It::Hash => out.push(Tok::P("#".into())),
            It::Comment(s) | It::RawComment(s) => out.extend(lines(s).into_iter().map(Tok::Line)),
            It::Literally(s) => { out.push(Tok::Nl); out.push(Tok::Raw(s.clone())); }
            It::Tag(s, n) => { out.push(Tok::Line("Generated by: x".into())); *tags = (tags.0 + 1, s.clone(), *n); }
            It::Cap(s) => { if tags.0 > 0 { caps.push((tags.0, out.len(), tags.1.clone(), tags.2)); } out.push(Tok::Word(s.clone())); }
        }
    }
}
fn lex(s: &str) -> Result<Vec<(Tok, usize)>, String> {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut i = 0;
    let mut out = vec![];
    let at = |k: usize| b.get(k).map(|x| x.1).unwrap_or('\0');
    while i < b.len() {
        let (o, c) = b[i];
        if c == '\n' { out.push((Tok::Nl, o)); i += 1; }
        else if c.is_whitespace() { i += 1; }
        else if c == '/' && at(i + 1) == '/' {
            i += 2;
            let mut t = String::new();
            while i < b.len() && b[i].1 != '\n' && b[i].1 != '\r' { t.push(b[i].1); i += 1; }
            if i >= b.len() { return Err("a comment without an end of line".into()); }
            i += 1;
            if t.trim_end().ends_with('\\') { return Err(format!("comment line {t:?} continues on the next line")); }
            out.push((Tok::Line(t.strip_prefix(' ').unwrap_or(&t).to_string()), o));
        }
        else if c == '@' {
            i += 1;
            let mut t = String::new();
            while i < b.len() && b[i].1 != '\n' { t.push(b[i].1); i += 1; }
            i += 1;
            out.push((Tok::Raw(t), o));
        }
        else if c == '"' {
            i += 1;
            let mut t = String::new();
            while i < b.len() && b[i].1 != '"' { if b[i].1 == '\\' { t.push('\\'); i += 1; } if i < b.len() { t.push(b[i].1); } i += 1; }
            i += 1;
            let v: syn::LitStr = syn::parse_str(&format!("\"{t}\"")).map_err(|e| format!("{t:?}: {e}"))?;
            out.push((Tok::Str(v.value()), o));
        }
        else if c == '_' || c.is_alphanumeric() {
            let mut t = String::new();
            while i < b.len() && (b[i].1 == '_' || b[i].1.is_alphanumeric()) { t.push(b[i].1); i += 1; }
            out.push((Tok::Word(t), o));
        }
        else if c == ':' && at(i + 1) == ':' { out.push((Tok::P("::".into()), o)); i += 2; }
        else { out.push((Tok::P(c.into()), o)); i += 1; }
    }
    Ok(out)
}
/// A comment line is as it was, save trailing blanks and something after a final backslash.
fn same(a: &Tok, b: &Tok) -> bool {
    match (a, b) {
        (Tok::Line(g), Tok::Line(w)) => { let (g, w) = (g.trim_end(), w.trim_end()); g == w || (w.ends_with('\\') && g.starts_with(w)) }
        _ => a == b,
    }
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 .,;:!?(){}<>#*/'`_-]{0,12}",
        3 => prop::collection::vec(prop::sample::select(vec!["\"", "\\", "\n", "\r", "\t", "\\n", "\\\"", "'", "\\\\", "*/", "/*", "//", "\u{301}", "é", "\u{200b}", "\0", "\x07", "r#", "#", "{", "??/", "word", " ", "__NEWLINE__", "u{41}", "\\u{41}", "x41"]), 0..7).prop_map(|v| v.concat()),
        1 => "\\PC{0,8}",
    ]
}
fn name() -> impl Strategy<Value = String> { prop_oneof!["[a-c]{1,2}", "[a-z_][a-z0-9_]{0,5}"].prop_filter("ident", |s| s != "_") }
const OPS: [&str; 22] = ["::", ":", ";", ",", "+", "-", "->", "=", "==", "&", "&&", "*", "<", ">", "<<", "|", "!", "?", "%", "<=>", "~", "^"];
fn leaf() -> impl Strategy<Value = It> {
    prop_oneof![
        5 => name().prop_map(It::Id),
        1 => any::<u32>().prop_map(It::Int),
        1 => text().prop_map(It::Str),
        5 => prop::sample::select(OPS.to_vec()).prop_map(It::Op),
        3 => prop::sample::select(vec!["::", ":"]).prop_map(It::Op),
        1 => Just(It::Nl), 1 => Just(It::Sp), 1 => Just(It::Hash),
        2 => text().prop_map(It::Comment),
        1 => "[a-z\"\\\\ #n]{0,6}".prop_filter("raw string", |s| !s.contains("\"#")).prop_map(It::RawComment),
        1 => text().prop_filter("one line", |s| !s.contains(['\n', '\r'])).prop_map(It::Literally),
    ]
}
fn items(extra: bool) -> impl Strategy<Value = Vec<It>> {
    let l = if extra { prop_oneof![3 => leaf(), 2 => (text(), 0u32..1000).prop_map(|(s, n)| It::Tag(s, n)), 2 => name().prop_map(It::Cap)].boxed() } else { leaf().boxed() };
    prop::collection::vec(l.prop_recursive(3, 24, 5, |i| (any::<u8>(), prop::collection::vec(i, 0..5)).prop_map(|(d, v)| It::Group(d, v))), 0..14)
}

fn compare(text: &str, w: &[Tok]) -> Result<Vec<(Tok, usize)>, String> {
    let g = lex(text).map_err(|e| format!("{e} in {text:?}"))?;
    for k in 0..g.len().max(w.len()) {
        match (g.get(k), w.get(k)) {
            (Some(a), Some(b)) if same(&a.0, b) => {}
            (a, b) => return Err(format!("token {k} is {a:?}, want {b:?} in {text:?}")),
        }
    }
    Ok(g)
}

fn main() {
    let mut s = Suite::new("a case is a token stream with groups, multi-character operators, string literals, comments, literal text and captures; non-trivial: at least 3 items, one of them a comment, literal or group");
    s.run("printed tokens", 20_000, 800_000, items(false), |c, v| {
        if v.len() >= 3 && v.iter().any(|i| matches!(i, It::Comment(_) | It::RawComment(_) | It::Literally(_) | It::Str(_) | It::Group(..))) { c.note(format!("{v:?}")); }
        let mut w = vec![];
        want(&v, &mut w, &mut vec![], &mut Default::default());
        let text = tokens_to_string(build(&v)).map_err(|e| e.to_string())?;
        compare(&text, &w)?;
        let mut t2 = String::new();
        write_unformatted_tokens(&mut t2, build(&v)).map_err(|e| e.to_string())?;
        ensure_eq!(t2, text, "write_unformatted_tokens");
        Ok(())
    });

    s.run("comments", 12_000, 400_000, (text(), text(), name()), |c, (a, b, n)| {
        c.note(format!("{a}|{b}"));
        let v = vec![It::Comment(a + &b), It::Id(n)];
        let mut w = vec![];
        want(&v, &mut w, &mut vec![], &mut Default::default());
        compare(&tokens_to_string(build(&v)).map_err(|e| e.to_string())?, &w).map(|_| ())
    });

    s.run("provenance", 12_000, 400_000, (items(true), prop::collection::vec(0u8..4, 1..20)), |c, (v, ws)| {
        let (mut w, mut caps) = (vec![], vec![]);
        want(&v, &mut w, &mut caps, &mut Default::default());
        // The pattern must mark the tags only, and the words next to a capture must not be glued to it by `#`.
        let (text, map) = tokens_to_string_with_provenance(build(&v)).map_err(|e| e.to_string())?;
        compare(&text, &w)?;
        // Another layout of the same tokens.
        let mut f = String::new();
        let toks = lex(&text)?;
        for (k, (t, o)) in toks.iter().enumerate() {
            let end = toks.get(k + 1).map(|x| x.1).unwrap_or(text.len());
            let src = text[*o..end].trim_end_matches([' ', '\t']);
            let newline_kept = matches!(t, Tok::Line(_) | Tok::Raw(_));
            f.push_str(if newline_kept { &text[*o..end] } else { src });
            match ws[k % ws.len()] { 0 if !newline_kept => f.push(' '), 1 => f.push_str("\n  "), 2 => f.push_str("   "), _ => f.push(' ') }
        }
        let fixed = fix_provenance_map_postformatting(&f, "// Generated by:", &map);
        let ftoks: Vec<(Tok, usize)> = lex(&f)?.into_iter().filter(|t| t.0 != Tok::Nl).collect();
        let nl_before = |k: usize| w[..k].iter().filter(|t| **t == Tok::Nl).count();
        let mut last = std::collections::BTreeMap::new();
        for cap in &caps { last.insert(cap.0, cap.clone()); }
        if !last.is_empty() { c.note(format!("{v:?}")); c.class("with captures"); }
        ensure_eq!(fixed.keys().copied().collect::<std::collections::BTreeSet<_>>(), last.keys().copied().collect(), "tags with a capture in {f:?}");
        for (tag, (_, idx, path, n)) in &last {
            let got = &fixed[tag];
            let Tok::Word(word) = &w[*idx] else { unreachable!() };
            let (ft, off) = &ftoks[idx - nl_before(*idx)];
            ensure!(matches!(ft, Tok::Word(x) if x == word), "harness: {ft:?} is not {word}");
            ensure_eq!((got.formatted_start, got.formatted_end), (*off, off + word.len()), "range of {word:?} of tag {tag} in {f:?}");
            ensure_eq!((&got.original_path, &got.original_start, &got.original_end), (path, &n.to_string(), &(n + 7).to_string()), "origin of tag {tag}");
        }
        Ok(())
    });
    s.finish()
}
