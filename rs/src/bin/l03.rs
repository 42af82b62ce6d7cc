//! L03: what code_gen_utils makes of names is a valid, faithful and unique identifier, or an error.
use code_gen_utils::*;
use crubit_feature::CrubitFeature;
use flagset::FlagSet;
use libchecks::*;
use std::collections::{BTreeSet, HashMap};

const CPP: &str = "alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq";
/// Reserved by technical specifications only: either answer is fine.
const CPP_MAYBE: &str = "atomic_cancel atomic_commit atomic_noexcept reflexpr synchronized import module final override";
const RUST: &str = "as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv try typeof unsized virtual yield gen";
const RUST_NEVER: &str = "self super crate Self _";
const MACROS: &str = include_str!("../std_macros.txt");

fn set(s: &str) -> BTreeSet<&str> { s.split_whitespace().collect() }
fn features(bits: u32) -> FlagSet<CrubitFeature> {
    let mut f = FlagSet::default();
    for (i, x) in FlagSet::<CrubitFeature>::full().into_iter().enumerate() { if bits >> (i % 32) & 1 == 1 { f |= x; } }
    f
}
fn valid(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c == '_' || unicode_ident::is_xid_start(c)) && c.all(unicode_ident::is_xid_continue)
}
fn squash(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn ident() -> impl Strategy<Value = String> {
    let words: Vec<String> = [CPP, RUST, MACROS, RUST_NEVER].iter().flat_map(|s| s.split_whitespace()).map(String::from).collect();
    let w2 = words.clone();
    prop_oneof![
        3 => "[A-Za-z_][A-Za-z0-9_]{0,12}",
        1 => "[a-zA-Zλжéß_ŁΩ東][a-zλжé0-9_東]{0,6}",
        2 => prop::sample::select(words),
        3 => (prop::sample::select(w2), 0u8..7, "[a-z_0-9]").prop_map(|(w, k, x)| match k {
            0 => format!("{w}_"), 1 => format!("_{w}"), 2 => w[1..].to_string(), 3 => w[..w.len() - 1].to_string(),
            4 => w.to_uppercase(), 5 => { let mut c = w; c.replace_range(0..1, &c[0..1].to_uppercase()); c } _ => format!("{w}{x}"),
        }),
    ].prop_filter("identifier", |s| valid(s))
}

fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '_' { out.push(c); continue; }
        match it.next()? {
            'u' => out.push('_'), 'd' => out.push('$'), 'p' => out.push('.'),
            'x' => { let h: String = it.by_ref().take(8).collect(); out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?); }
            _ => return None,
        }
    }
    Some(out)
}

fn main() {
    let (cpp, maybe, rust, never, macros) = (set(CPP), set(CPP_MAYBE), set(RUST), set(RUST_NEVER), set(MACROS));
    let mut s = Suite::new("a case is a name (identifier, keyword, near-keyword, arbitrary text), path, include set or pointer type; non-trivial: a name which is reserved or one edit away from it, has a character outside ASCII letters, or a structure of several parts");

    let reserved: Vec<(String, u32)> = cpp.iter().chain(&macros).flat_map(|w| (0..3).map(|b| (w.to_string(), [0, !0, 1 << 15][b]))).collect();
    s.all("every reserved word", reserved, |c, (w, bits)| {
        let f = features(*bits);
        let bad = cpp.contains(w.as_str()) || f.contains(CrubitFeature::ReserveStandardMacros);
        c.note(format!("{w} {bits}"));
        ensure_eq!(is_cpp_reserved_keyword(w), cpp.contains(w.as_str()), "is_cpp_reserved_keyword({w})");
        ensure_eq!(is_cpp_nonportable_word(w, f), bad, "is_cpp_nonportable_word({w}, {f:?})");
        Ok(())
    });

    s.run("identifiers", 12_000, 400_000, (ident(), any::<u32>()), |c, (w, bits)| {
        let f = features(bits);
        let std_macros = f.contains(CrubitFeature::ReserveStandardMacros);
        let (kw, mac) = (cpp.contains(&*w), macros.contains(&*w));
        if maybe.contains(&*w) { return Ok(()); }
        // Macros which the C++ standard has and this platform lacks may be treated either way.
        let unsure = std_macros && !kw && !mac && is_cpp_nonportable_word(&w, f) && (w.starts_with('_') || w.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()));
        if unsure { return Ok(()); }
        if kw || mac || !w.is_ascii() { c.note(&w); }
        c.class(if kw { "C++ keyword" } else if mac { "standard macro" } else if rust.contains(&*w) { "Rust keyword" } else { "other" });
        let bad = kw || (mac && std_macros);
        ensure_eq!(is_cpp_reserved_keyword(&w), kw, "keyword {w}");
        ensure_eq!(is_cpp_nonportable_word(&w, f), bad, "nonportable {w}");
        ensure_eq!(unkeyword_cpp_ident(&w, f).to_string(), if bad { format!("{w}_") } else { w.clone() }, "unkeyword {w}");
        ensure!(!is_cpp_nonportable_word(&unkeyword_cpp_ident(&w, f), f), "unkeyword {w} is still reserved");
        ensure_eq!(format_cc_ident(&w, f).ok().map(|i| i.to_string()), if bad { None } else { Some(w.clone()) }, "format_cc_ident {w}");
        ensure_eq!(format_nonportable_cc_ident(&w).ok().map(|i| i.to_string()), if kw { None } else { Some(w.clone()) }, "format_nonportable_cc_ident {w}");
        ensure_eq!(check_valid_cc_name(&w).is_ok(), !kw, "check_valid_cc_name {w}");
        ensure_eq!(check_portable_cc_name(&w, f).is_ok(), !bad, "check_portable_cc_name {w}");
        ensure_eq!(format_cc_type_name(&w, f).ok().map(|i| i.to_string()), if bad { None } else { Some(w.clone()) }, "format_cc_type_name {w}");
        ensure_eq!(catch(|| expect_format_cc_ident(&w)).ok().map(|i| i.to_string()), if kw || mac || is_cpp_nonportable_word(&w, FlagSet::full()) { None } else { Some(w.clone()) }, "expect_format_cc_ident {w}");
        Ok(())
    });

    s.run("Rust identifiers", 8000, 300_000, prop::collection::vec(ident(), 1..4), |c, parts| {
        let w = parts.join("-");
        let u = parts.join("_");
        let want = if never.contains(&*u) { None } else if rust.contains(&*u) { Some(format!("r#{u}")) } else { Some(u.clone()) };
        if rust.contains(&*u) || parts.len() > 1 { c.note(&w); }
        let got = try_make_rs_ident(&w).ok().map(|i| i.to_string());
        ensure_eq!(got, want, "try_make_rs_ident({w:?})");
        if let Some(g) = &got {
            ensure_eq!(make_rs_ident(&w).to_string(), *g, "make_rs_ident({w:?})");
            ensure!(syn::parse_str::<syn::ItemFn>(&format!("async fn {g}() {{}}")).is_ok(), "{g} does not name a function");
        } else {
            ensure!(catch(|| make_rs_ident(&w)).is_err(), "make_rs_ident({w:?}) must panic");
        }
        let lt = catch(|| make_rs_lifetime_ident(&w)).ok().map(|l| l.to_string());
        let want_lt = if w == "_" || w == "static" { Some(format!("'{w}")) } else { want.map(|x| format!("'{x}")) };
        ensure_eq!(lt, want_lt, "make_rs_lifetime_ident({w:?})");
        Ok(())
    });

    s.run("text which may not be an identifier", 12_000, 400_000, ("[A-Za-z_0-9:;.,'\"$%&*(){}\\[\\]=+<>?!|^~@λ東\u{301}\u{200d}-]{0,6}", any::<u32>()), |c, (w, bits)| {
        let f = features(bits);
        if !valid(&w) { c.note(&w); }
        let got = format_cc_ident(&w, f);
        if let Ok(i) = &got {
            ensure!(valid(&w), "{w:?} is not an identifier, and is formatted as {i}");
            ensure_eq!(i.to_string(), w, "format_cc_ident");
        } else {
            ensure!(!valid(&w) || is_cpp_nonportable_word(&w, f), "format_cc_ident({w:?}) fails: {:?}", got.err().map(|e| e.to_string()));
        }
        if let Ok(i) = try_make_rs_ident(&w) {
            let i = i.to_string();
            ensure!(valid(i.trim_start_matches("r#")), "try_make_rs_ident({w:?}) makes {i}");
            ensure_eq!(i.trim_start_matches("r#"), w.replace('-', "_"), "try_make_rs_ident");
        }
        let starts = w.chars().next().is_some_and(|c| c == '_' || c == ':' || unicode_ident::is_xid_start(c));
        if !cpp.contains(&*w) && !maybe.contains(&*w) { ensure_eq!(check_valid_cc_name(&w).is_ok(), starts, "check_valid_cc_name({w:?})"); }
        Ok(())
    });

    let symbol = prop_oneof![".{0,10}", "[_$.a-z0-9 <>x]{0,14}", prop::collection::vec(prop::sample::select(vec!["_", "$", ".", "_x", "_u", "u", "d", "p", "x", "0000005f", "_x0000005f", "a", "0", " ", "é", "\u{301}", "東"]), 0..8).prop_map(|v| v.concat())];
    s.run("escaped symbols", 12_000, 500_000, prop::collection::vec(symbol, 1..6), |c, v| {
        let mut seen = HashMap::new();
        for w in &v {
            let e = escape_non_identifier_chars(w);
            c.note(w);
            ensure!(w.is_empty() && e.is_empty() || valid(&e), "{w:?} escapes to {e:?}, which is no identifier");
            ensure_eq!(e, escape_non_identifier_chars(w), "escaping twice");
            if let Some(o) = seen.insert(e.clone(), w) { ensure_eq!(o, w, "both escape to {e:?}"); }
            // No two symbols share an escape if the escape tells the symbol.
            ensure_eq!(unescape(&e).as_deref(), Some(w.as_str()), "reading back {e:?}");
        }
        Ok(())
    });

    let q = (prop::collection::vec(ident(), 0..4), prop::collection::vec((ident(), prop_oneof![ident(), ident().prop_map(|i| format!("{i}<int, 3>")), ident().prop_map(|i| format!("{i}<'\\f'>"))]), 0..3), any::<bool>(), any::<u32>());
    s.run("qualifiers", 6000, 200_000, q, |c, (ns, recs, lead, bits)| {
        let f = features(bits);
        let snake = |s: &str| code_gen_snake(s);
        let mut q = NamespaceQualifier::new(ns.iter().map(|s| s.as_str()), lead);
        q.nested_records = recs.iter().map(|(a, b)| (a.as_str().into(), b.as_str().into())).collect();
        if ns.len() + recs.len() > 1 { c.note(format!("{ns:?}{recs:?}")); }
        ensure_eq!(q.is_empty(), ns.is_empty() && recs.is_empty(), "is_empty");
        let all: Vec<&str> = ns.iter().map(|s| s.as_str()).chain(recs.iter().map(|r| r.1.as_str())).collect();
        ensure_eq!(q.format_for_cc_debug(), all.iter().map(|s| format!("{s}::")).collect::<String>(), "format_for_cc_debug");
        let bad = all.iter().any(|s| is_cpp_nonportable_word(s, f));
        match q.format_for_cc(f) {
            Ok(t) => {
                ensure!(!bad, "{all:?} has a reserved word and is formatted as {t}");
                let text = token_stream_printer::tokens_to_string(t).map_err(|e| e.to_string())?;
                let want = format!("{}{}", if lead { "::" } else { "" }, all.iter().map(|s| format!("{s}::")).collect::<String>());
                ensure_eq!(squash(&text), squash(&want), "format_for_cc");
            }
            Err(e) => ensure!(bad, "{all:?}: {e}"),
        }
        let rs: Vec<String> = ns.iter().cloned().chain(recs.iter().map(|r| snake(&r.0))).collect();
        let want: Result<Vec<String>, ()> = rs.iter().map(|s| try_make_rs_ident(s).map(|i| i.to_string()).map_err(|_| ())).collect();
        match (catch(|| q.format_for_rs().to_string()), want) {
            (Ok(t), Ok(w)) => ensure_eq!(squash(&t), w.iter().map(|s| format!("{s}::")).collect::<String>(), "format_for_rs"),
            (Err(_), Err(_)) => {}
            (a, b) => return Err(format!("format_for_rs: got {a:?}, want {b:?}")),
        }
        Ok(())
    });

    let path = || ("[a-z][a-z0-9_]{0,5}", prop::collection::vec(("[/.+-]", "[a-z][a-z0-9_]{0,5}"), 0..4)).prop_map(|(a, v)| v.into_iter().fold(a, |a, (s, p)| a + &s + &p));
    let upath = prop_oneof![path(), "[a-zA-Z0-9_./+=@~ é東-]{1,12}"];
    s.run("include sets", 6000, 200_000, (prop::collection::vec((0u8..5, path(), upath), 1..7),), |c, (v,)| {
        let mut set = BTreeSet::new();
        let mut want = BTreeSet::new();
        for (k, p, u) in &v {
            let (i, line) = match k {
                0 => (CcInclude::SystemHeader(p.as_str().into()), format!("#include <{p}>")),
                1 => (CcInclude::user_header(u.as_str().into()), format!("#include \"{u}\"")),
                2 => (CcInclude::exported_user_header(u.as_str().into()), format!("#include \"{u}\"// IWYU pragma: export")),
                3 => (CcInclude::from_path(&format!("<{p}>")), format!("#include <{p}>")),
                _ => (CcInclude::from_path(u), format!("#include \"{u}\"")),
            };
            set.insert(i);
            want.insert(line.split_whitespace().collect::<String>());
        }
        if set.len() > 2 { c.note(format!("{v:?}")); }
        let text = token_stream_printer::tokens_to_string(format_cc_includes(&set)).map_err(|e| e.to_string())?;
        let lines: Vec<String> = text.lines().map(|l| l.split_whitespace().collect::<String>()).filter(|l| !l.is_empty()).collect();
        ensure_eq!(lines.len(), want.len(), "number of lines in {text:?}");
        ensure_eq!(lines.into_iter().collect::<BTreeSet<_>>(), want, "lines of {text:?}");
        Ok(())
    });

    let base = prop::sample::select(vec!["int", "Foo", "::ns::Bar", "unsigned char", "a::b<c>", "void"]);
    s.run("pointer types", 1500, 20_000, (base, 0u8..7), |c, (b, k)| {
        let (t, want) = match k {
            0 => (b.to_string(), None),
            1 => (format!("{b} *"), Some(false)),
            2 => (format!("const {b} *"), Some(true)),
            3 => (format!("{b} const *"), Some(true)),
            4 => (format!("const {b} &"), None),
            5 => (format!("const {b}"), None),
            _ => (format!("{b} * *"), Some(false)),
        };
        c.note(&t);
        let got = is_cpp_pointer_type(t.parse().unwrap()).map(|q| matches!(q, CcConstQualifier::Const));
        ensure_eq!(got, want, "is_cpp_pointer_type({t})");
        Ok(())
    });
    s.finish()
}

fn code_gen_snake(s: &str) -> String { use heck::ToSnakeCase; s.to_snake_case() }
