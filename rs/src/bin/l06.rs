//! L06: the error report says, per item, exactly what was reported in its scope.
use arc_anyhow::Error;
use error_report::{anyhow, Category, ErrorList, ErrorReport, ErrorReportEntry, ErrorReporting, FatalErrors, ItemName, ItemScope, ReportFatalError, SourceLanguage};
use errors::Errors;
use libchecks::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Debug, Clone)]
enum Msg { Static, Args(String, u32), Named(String), Dynamic(String), Foreign(String), List(Vec<Msg>) }
#[derive(Debug, Clone)]
enum Op { Enter(u8, Vec<Op>), Report(Msg, Vec<String>), Category(u8), Check }

/// (format string, message) pairs that a report of `m` stands for.
fn pairs(m: &Msg, ctx: &[String], out: &mut Vec<(String, String)>) {
    match m {
        Msg::Static => out.push(("nothing to add {{}}".into(), "nothing to add {}".into())),
        Msg::Args(s, n) => out.push(("got {} and {:>3}".into(), format!("got {s} and {n:>3}"))),
        Msg::Named(s) => out.push(("name is `{s}`".into(), format!("name is `{s}`"))),
        Msg::Dynamic(s) => out.push((s.clone(), s.clone())),
        Msg::Foreign(s) => out.push(("{}".into(), ctx.last().unwrap_or(s).clone())),
        Msg::List(v) => for m in v { pairs(m, &[], out) },
    }
}
fn make(m: &Msg) -> Error {
    match m {
        Msg::Static => anyhow!("nothing to add {{}}"),
        Msg::Args(s, n) => anyhow!("got {} and {:>3}", s, n),
        Msg::Named(s) => anyhow!("name is `{s}`"),
        Msg::Dynamic(s) => anyhow!(s),
        Msg::Foreign(s) => ::anyhow::Error::msg(s.clone()).into(),
        Msg::List(v) => ::anyhow::Error::from(ErrorList::from(v.iter().map(make).collect::<Vec<_>>())).into(),
    }
}
fn text(m: &Msg) -> String {
    match m { Msg::List(v) => v.iter().map(text).collect::<Vec<_>>().join("\n"), m => { let mut o = vec![]; pairs(m, &[], &mut o); o.remove(0).1 } }
}

/// The message without compiler-internal numbers: the crate and index of a DefId, and hashes in brackets.
fn stable(s: &str) -> String {
    fn digits(s: &[char], mut i: usize) -> Option<usize> { let k = i; while i < s.len() && s[i].is_numeric() { i += 1; } (i > k).then_some(i) }
    let c: Vec<char> = s.chars().collect();
    let def: Vec<char> = "DefId(".chars().collect();
    let (mut out, mut i) = (vec![], 0);
    while i < c.len() {
        if c[i..].starts_with(&def) {
            let m = digits(&c, i + 6).filter(|&j| c.get(j) == Some(&':')).and_then(|j| digits(&c, j + 1)).filter(|&j| c[j..].starts_with(&[' ', '~', ' ']));
            if let Some(j) = m { out.extend(&def); i = j + 3; continue; }
        }
        out.push(c[i]); i += 1;
    }
    let (c, mut res, mut i) = (out, String::new(), 0);
    while i < c.len() {
        if c[i] == '[' && i + 5 < c.len() && c[i + 5] == ']' && c[i + 1..i + 5].iter().all(|c| c.is_ascii_hexdigit()) { i += 6; continue; }
        res.push(c[i]); i += 1;
    }
    res
}

#[derive(Debug, Default, PartialEq, Clone)]
struct Entry { name: String, unique: Option<String>, target: Option<String>, category: u64, errors: Vec<(String, String)> }

const CATS: [Category; 10] = [Category::Function, Category::Variable, Category::Type, Category::Alias, Category::Namespace, Category::GenericInstantiation, Category::NonMovable, Category::Bridge, Category::Unsafe, Category::Constant];
fn item(k: u8) -> ItemName {
    let k = k % 9;
    ItemName { name: format!("item::n{}", k / 2).into(), id: k as u64 * 1_000_003 + 1, unique_name: (k % 3 == 0).then(|| Rc::from(format!("u{k}"))), defining_target: (k % 4 == 1).then(|| Rc::from(format!("//t:{k}"))) }
}

fn play(ops: &[Op], rep: &dyn ErrorReporting, cur: Option<u8>, model: &mut BTreeMap<u64, Entry>) -> Res {
    let id = cur.map_or(0, |k| item(k).id);
    for op in ops {
        match op {
            Op::Enter(k, inner) => {
                let it = item(*k);
                let scope = ItemScope::new(rep, it.clone());
                model.entry(it.id).or_insert_with(|| Entry { name: it.name.to_string(), unique: it.unique_name.as_deref().map(String::from), target: it.defining_target.as_deref().map(String::from), ..Default::default() });
                play(inner, rep, Some(*k), model)?;
                drop(scope);
            }
            Op::Report(m, ctx) => {
                let mut e = make(m);
                for c in ctx { e = e.context(c.clone()); }
                rep.report(&e);
                let mut p = vec![];
                pairs(m, ctx, &mut p);
                if !p.is_empty() {
                    model.entry(id).or_default().errors.extend(p.into_iter().map(|(f, m)| { let m = if f == m { m } else { stable(&m) };
                        // An empty message stands for the format string itself.
                        let m = if m.is_empty() { f.clone() } else { m }; (f, m) }));
                }
            }
            Op::Category(k) => { rep.add_category(CATS[*k as usize % 10]); model.entry(id).or_default().category |= CATS[*k as usize % 10] as u32 as u64; }
            Op::Check => if let Some(k) = cur { rep.assert_in_item(item(k)); },
        }
    }
    Ok(())
}
fn read(j: &str, lang: &str) -> Result<Vec<Entry>, String> {
    let v: serde_json::Value = serde_json::from_str(j).map_err(|e| e.to_string())?;
    let s = |e: &serde_json::Value, k: &str| e.get(k).and_then(|x| x.as_str()).map(String::from);
    v.as_array().ok_or("not an array")?.iter().map(|e| {
        ensure_eq!(s(e, "source_language").as_deref(), Some(lang), "source_language");
        Ok(Entry { name: s(e, "name").ok_or("an entry without a name")?, unique: s(e, "unique_name"), target: s(e, "defining_target"), category: e.get("category").and_then(|x| x.as_u64()).unwrap_or(0),
            errors: e.get("errors").and_then(|x| x.as_array()).map(|v| v.iter().map(|x| { let f = s(x, "fmt").unwrap_or_default(); let m = s(x, "full_error").unwrap_or_else(|| f.clone()); (f, m) }).collect()).unwrap_or_default() })
    }).collect()
}

fn word() -> impl Strategy<Value = String> {
    prop_oneof![3 => "[a-z {}\"\\\\<>é]{1,8}", 3 => prop::collection::vec(prop::sample::select(vec!["DefId(", "0:12", "1:", " ~ ", "foo[ab12]", "[ABCD]", "[abcde]", "[xyz1]", "::Bar)", "DefId(3:4 ~ ", "[", "]", "DefId(0:1~ ", "12"]), 1..6).prop_map(|v| v.concat())]
}
fn msg() -> impl Strategy<Value = Msg> {
    let leaf = prop_oneof![Just(Msg::Static), (word(), 0u32..5000).prop_map(|(s, n)| Msg::Args(s, n)), word().prop_map(Msg::Named), word().prop_map(Msg::Dynamic), word().prop_map(Msg::Foreign)];
    leaf.prop_recursive(2, 8, 3, |i| prop::collection::vec(i, 0..4).prop_map(Msg::List))
}
fn ops() -> impl Strategy<Value = Vec<Op>> {
    let leaf = prop_oneof![4 => (msg(), prop::collection::vec(word(), 0..3)).prop_map(|(m, c)| Op::Report(m, c)), 2 => any::<u8>().prop_map(Op::Category), 1 => Just(Op::Check)];
    prop::collection::vec(leaf.prop_recursive(4, 30, 6, |i| (any::<u8>(), prop::collection::vec(i, 0..6)).prop_map(|(k, v)| Op::Enter(k, v))), 0..8)
}
fn count(ops: &[Op]) -> usize { ops.iter().map(|o| match o { Op::Enter(_, v) => 1 + count(v), _ => 1 }).sum() }

fn main() {
    let mut s = Suite::new("a case is a history of nested item scopes, reported errors (with arguments, contexts, foreign errors, lists) and categories, or a history of an error collection; non-trivial: at least 4 operations");
    s.run("report", 2500, 60_000, (ops(), any::<bool>()), |c, (ops, rust)| {
        if count(&ops) >= 4 { c.note(format!("{ops:?}")); }
        let (lang, name) = if rust { (SourceLanguage::Rust, "Rust") } else { (SourceLanguage::Cpp, "Cpp") };
        let (rep, dynamic) = ErrorReport::new_rc_or_ignore(true, lang);
        let rep = rep.ok_or("no report")?;
        let mut model = BTreeMap::new();
        play(&ops, &*dynamic, None, &mut model)?;
        let want: Vec<Entry> = model.into_values().collect();
        ensure_eq!(read(&rep.to_json_string(), name)?, want, "report");
        // What is written can be read back by the library itself.
        let back: Vec<ErrorReportEntry> = serde_json::from_str(&rep.to_json_string()).map_err(|e| e.to_string())?;
        ensure_eq!(back.len(), want.len(), "entries read back");
        for (b, w) in back.iter().zip(&want) {
            ensure_eq!((b.name.to_string(), b.category as u64), (w.name.clone(), w.category), "entry read back");
            ensure_eq!(b.errors.iter().map(|e| e.to_string()).collect::<Vec<_>>(), w.errors.iter().map(|e| e.1.clone()).collect::<Vec<_>>(), "errors read back");
        }
        // An ignored report changes nothing.
        let (none, ign) = ErrorReport::new_rc_or_ignore(false, lang);
        ensure!(none.is_none(), "a report although errors are ignored");
        play(&[Op::Category(1), Op::Report(Msg::Static, vec![])], &*ign, None, &mut BTreeMap::new())
    });

    s.run("wrong scopes are caught", 500, 5000, (0u8..9, 0u8..9), |c, (a, b)| {
        c.note(format!("{a}{b}"));
        let rep = ErrorReport::new(SourceLanguage::Rust);
        let old = rep.enter_item(item(a));
        ensure!(old.is_none(), "an outer item from nowhere");
        let r = catch(|| rep.assert_in_item(item(b)));
        ensure_eq!(r.is_ok(), a == b, "assert_in_item({b}) in {a}");
        let r = catch(|| rep.exit_item(item(b), None));
        ensure_eq!(r.is_ok(), a == b, "exit_item({b}) of {a}");
        Ok(())
    });

    let eop = prop_oneof![4 => (0u8..2, msg()), 2 => (2u8..4, msg()), 1 => (4u8..7, msg())];
    s.run("collections", 6000, 200_000, (prop::collection::vec(eop, 0..10), any::<bool>()), |c, (ops, end)| {
        if ops.len() >= 4 { c.note(format!("{ops:?}")); }
        let errs = Errors::new();
        let mut model: Vec<String> = vec![];
        for (k, m) in &ops {
            match k {
                0 => { errs.add(make(m)); model.push(text(m)); }
                1 => { ensure_eq!(errs.consume_error(Err::<u8, _>(make(m))), None, "consume_error of an error"); model.push(text(m)); }
                2 => ensure_eq!(errs.consume_error(Ok(7)), Some(7), "consume_error of a value"),
                3 => ensure_eq!(errs.consolidate_on_err(Ok(9)).ok(), Some(9), "consolidate_on_err of a value"),
                4 => { let r = errs.consolidate(); ensure_eq!(r.err().map(|e| e.to_string()), if model.is_empty() { None } else { Some(model.join("\n")) }, "consolidate"); model.clear(); }
                5 => { let r = errs.consolidate_on_err(Err::<u8, _>(make(m))); model.push(text(m)); ensure_eq!(r.err().map(|e| e.to_string()), Some(model.join("\n")), "consolidate_on_err of an error"); model.clear(); }
                _ => { errs.discard(); model.clear(); }
            }
            ensure_eq!(errs.is_empty(), model.is_empty(), "is_empty");
        }
        if end { errs.discard(); model.clear(); }
        let r = catch(move || drop(errs));
        ensure_eq!(r.is_ok(), model.is_empty(), "dropping a collection of {} errors", model.len());
        if let Err(e) = r { for m in &model { ensure!(e.contains(m.as_str()), "the panic does not show {m:?}"); } }
        Ok(())
    });

    s.run("fatal errors", 1000, 20_000, (prop::collection::vec(word(), 0..5), any::<bool>()), |c, (v, take)| {
        c.note(format!("{v:?}"));
        let f = FatalErrors::new();
        for m in &v { ReportFatalError::report(&f, m); }
        if take {
            let t = f.take_string();
            let mut at = 0;
            for m in &v { at += t[at..].find(m.as_str()).ok_or_else(|| format!("{m:?} is missing from {t:?}"))? + m.len(); }
            ensure_eq!(t.is_empty(), v.is_empty(), "empty");
        }
        ensure_eq!(catch(move || drop(f)).is_ok(), take || v.is_empty(), "dropping");
        Ok(())
    });
    s.finish()
}
