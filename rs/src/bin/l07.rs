//! L07: feature sets and format strings mean the same however they are written.
use crubit_feature::{named_features, CrubitFeature, SerializedCrubitFeatures};
use dyn_format::Format;
use flagset::FlagSet;
use libchecks::*;
use std::collections::BTreeSet;

/// Writes a JSON string, some characters as \u escapes.
fn json(s: &str, esc: &[bool]) -> String {
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        if esc[i % esc.len()] || c == '"' || c == '\\' || (c as u32) < 32 { for u in c.encode_utf16(&mut [0; 2]) { o += &format!("\\u{u:04x}"); } } else { o.push(c) }
    }
    o + "\""
}

/// The fragments of a format string, or None if it is malformed.
fn fragments(s: &str, names: &[&str]) -> Option<Vec<Result<char, usize>>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            b @ ('{' | '}') if c.get(i + 1) == Some(&b) => { out.push(Ok(b)); i += 2; }
            '}' => return None,
            '{' => {
                let end = (i + 1..c.len()).find(|&k| c[k] == '}')?;
                let name: String = c[i + 1..end].iter().collect();
                out.push(Err(names.iter().position(|n| *n == name.trim())?));
                i = end + 1;
            }
            x => { out.push(Ok(x)); i += 1; }
        }
    }
    Some(out)
}

fn main() {
    let mut s = Suite::new("a case is a sequence of feature names in JSON (with duplicates, unknown names, escapes) or a format string with variables, escapes and faults; non-trivial: at least 2 names, or at least one variable or escape");
    let all: Vec<CrubitFeature> = FlagSet::<CrubitFeature>::full().into_iter().collect();
    let names: Vec<String> = all.iter().map(|f| f.short_name().to_string()).chain(["all".to_string()]).collect();
    {
        let names: BTreeSet<_> = all.iter().map(|f| f.short_name()).collect();
        let hints: BTreeSet<_> = all.iter().map(|f| f.aspect_hint()).collect();
        s.all("names", [(names.len(), hints.len())], |_, n| { ensure_eq!(*n, (all.len(), all.len()), "numbers of different names and hints"); Ok(()) });
    }
    s.all("each feature", all.clone(), |c, f| {
        let got = named_features(f.short_name().as_bytes());
        let mut want: FlagSet<CrubitFeature> = (*f).into();
        if *f == CrubitFeature::Supported { want |= CrubitFeature::Types; }
        c.note(f.short_name());
        ensure_eq!(got, Some(want), "named_features({})", f.short_name());
        ensure!(f.aspect_hint().ends_with(&format!(":{}", f.short_name())), "hint of {} is {}", f.short_name(), f.aspect_hint());
        Ok(())
    });
    // Which features `all` leaves out is documented.
    let out = [CrubitFeature::NoAssumeLifetimes, CrubitFeature::LayoutCompatTuple, CrubitFeature::AlwaysSpecializeGenericsInCppApiFromRust, CrubitFeature::OoCasting];
    let every: FlagSet<CrubitFeature> = all.iter().filter(|f| !out.contains(f)).fold(FlagSet::default(), |a, f| a | *f);

    let name = prop_oneof![8 => prop::sample::select(names.clone()), 1 => (prop::sample::select(names.clone()), 0u8..4, "[a-z_]").prop_map(|(n, k, x)| match k { 0 => n.to_uppercase(), 1 => n + &x, 2 => n[1..].to_string(), _ => format!(" {n}") }), 1 => "\\PC{0,6}"];
    s.run("feature lists", 8000, 300_000, (prop::collection::vec(name, 0..6), prop::collection::vec(prop::bool::weighted(0.2), 1..20)), |c, (v, esc)| {
        if v.len() > 1 { c.note(format!("{v:?}")); }
        let text = format!("[{}]", v.iter().map(|n| json(n, &esc)).collect::<Vec<_>>().join(", "));
        let mut want = Some(FlagSet::<CrubitFeature>::default());
        for n in &v {
            let f = if n == "all" { Some(every) } else { all.iter().find(|f| f.short_name() == n).map(|f| if *f == CrubitFeature::Supported { *f | CrubitFeature::Types } else { (*f).into() }) };
            ensure_eq!(named_features(n.as_bytes()), f, "named_features({n:?})");
            want = match (want, f) { (Some(w), Some(f)) => Some(w | f), _ => None };
        }
        if let Some(w) = &mut want { if w.contains(CrubitFeature::NoAssumeLifetimes) { *w -= CrubitFeature::AssumeLifetimes; *w -= CrubitFeature::NoAssumeLifetimes; } }
        ensure_eq!(serde_json::from_str::<SerializedCrubitFeatures>(&text).ok().map(|f| f.0), want, "{text}");
        if let Some(w) = want { let SerializedCrubitFeatures(r) = SerializedCrubitFeatures::resolved(w); ensure_eq!(r, w, "resolving twice"); }
        Ok(())
    });
    s.run("resolving", 4000, 100_000, any::<u32>(), |c, bits| {
        let f: FlagSet<CrubitFeature> = all.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).fold(FlagSet::default(), |a, (_, f)| a | *f);
        c.note(bits);
        let mut want = f;
        if f.contains(CrubitFeature::NoAssumeLifetimes) { want -= CrubitFeature::AssumeLifetimes; }
        want -= CrubitFeature::NoAssumeLifetimes;
        ensure_eq!(SerializedCrubitFeatures::resolved(f).0, want, "resolved({f:?})");
        Ok(())
    });

    const VARS: [&str; 3] = ["header", "x", "long_name"];
    let piece = prop_oneof![4 => "[a-z<>\"/. é]{1,4}", 3 => (prop::sample::select(VARS.to_vec()), " {0,2}", " {0,1}").prop_map(|(v, a, b)| format!("{{{a}{v}{b}}}")),
        2 => prop::sample::select(vec!["{{", "}}", "{{{{", "{{}}"]).prop_map(String::from), 1 => prop::sample::select(vec!["{", "}", "{}", "{y}", "{{x}", "{x}}", "}}}", "{head er}"]).prop_map(String::from)];
    s.run("format strings", 12_000, 500_000, (prop::collection::vec(piece, 0..6), prop::array::uniform3("[{}a-z é]{0,5}")), |c, (p, args)| {
        let f = p.concat();
        if f.contains(['{', '}']) { c.note(&f); }
        let got = Format::<3>::parse_with_metavars(&f, &VARS);
        let want = fragments(&f, &VARS);
        c.class(if want.is_some() { "well-formed" } else { "malformed" });
        ensure_eq!(got.is_ok(), want.is_some(), "parsing {f:?}");
        if let (Ok(g), Some(w)) = (got, want) {
            let a = [args[0].as_str(), args[1].as_str(), args[2].as_str()];
            let w: String = w.into_iter().map(|x| match x { Ok(c) => c.to_string(), Err(i) => args[i].clone() }).collect();
            ensure_eq!(g.format(&a), w, "formatting {f:?}");
            ensure_eq!(g.clone().format(&a), w, "formatting a copy of {f:?}");
        }
        Ok(())
    });
    s.finish()
}
