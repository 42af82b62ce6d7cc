//! L02: arc_anyhow::Error is anyhow's error, clonable, whose identity is that of its origin.
use arc_anyhow::{Context as _, Error, Result};
use libchecks::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Debug, Clone, PartialEq)]
struct Base(String);
impl std::fmt::Display for Base { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Base {}
#[derive(Debug, Clone, PartialEq)]
struct Outer(Base, String);
impl std::fmt::Display for Outer { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.1) } }
impl std::error::Error for Outer { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&self.0) } }

#[derive(Debug, Clone)]
enum Op { Msg(String), Typed(String), Nested(String, String), Macro(u32), Opt(String), OptWith(String), StdCtx(String, String), StdWith(String, String), FromAnyhow(String, String),
    Clone(usize), Ctx(usize, String), ResCtx(usize, String), ResWith(usize, String), RoundTrip(usize), Question(usize), AnyhowCtx(usize, String), OkCtx(String) }

fn text() -> BoxedStrategy<String> { prop_oneof![3 => "[a-c]{1,3}", 1 => any::<String>().prop_map(|s| format!("x{s}")), 1 => Just("a: b".to_string())].boxed() }
fn op() -> impl Strategy<Value = Op> {
    let i = any::<usize>();
    prop_oneof![
        text().prop_map(Op::Msg), text().prop_map(Op::Typed), (text(), text()).prop_map(|(a, b)| Op::Nested(a, b)), any::<u32>().prop_map(Op::Macro),
        text().prop_map(Op::Opt), text().prop_map(Op::OptWith), (text(), text()).prop_map(|(a, b)| Op::StdCtx(a, b)), (text(), text()).prop_map(|(a, b)| Op::StdWith(a, b)),
        (text(), text()).prop_map(|(a, b)| Op::FromAnyhow(a, b)), i.prop_map(Op::Clone),
        (i, text()).prop_map(|(a, b)| Op::Ctx(a, b)), (i, text()).prop_map(|(a, b)| Op::ResCtx(a, b)), (i, text()).prop_map(|(a, b)| Op::ResWith(a, b)),
        i.prop_map(Op::RoundTrip), i.prop_map(Op::Question), (i, text()).prop_map(|(a, b)| Op::AnyhowCtx(a, b)), text().prop_map(Op::OkCtx),
    ]
}

/// What an error must look like: its messages, outermost first, and its identity.
#[derive(Clone)]
struct Model { chain: Vec<String>, id: usize, base: bool }

fn question(e: Error) -> Result<()> { Err(e)?; Ok(()) }
fn question2(e: anyhow::Error) -> Result<()> { Err(e)?; Ok(()) }
fn hash(e: &Error) -> u64 { let mut h = DefaultHasher::new(); e.hash(&mut h); h.finish() }

fn main() {
    let mut s = Suite::new("a case is a sequence of operations making and wrapping errors; non-trivial: at least 4 operations, one of which wraps or clones an earlier error; told apart by the sequence");
    s.run("errors", 6000, 300_000, prop::collection::vec(op(), 1..14), |c, ops| {
        let mut es: Vec<(Error, Model)> = vec![];
        let mut next = 0;
        let mut derived = false;
        for o in &ops {
            next += 1;
            let new = |chain: Vec<String>, base| Model { chain, id: next, base };
            let pick = |i: &usize| es.get(i % es.len().max(1)).map(|(e, m)| (e.clone(), m.clone()));
            let wrap = |m: &Model, t: &String| { let mut c = vec![t.clone()]; c.extend(m.chain.clone()); Model { chain: c, id: next, base: m.base } };
            let made = match o {
                Op::Msg(t) => (Error::msg(t.clone()), new(vec![t.clone()], false)),
                Op::Typed(t) => (Error::from(Base(t.clone())), new(vec![t.clone()], true)),
                Op::Nested(a, b) => (Error::from(Outer(Base(a.clone()), b.clone())), new(vec![b.clone(), a.clone()], true)),
                Op::Macro(n) => (arc_anyhow::anyhow!("n={n} {}", n.wrapping_add(1)), new(vec![format!("n={n} {}", n.wrapping_add(1))], false)),
                Op::Opt(t) => (None::<u8>.context(t.clone()).unwrap_err(), new(vec![t.clone()], false)),
                Op::OptWith(t) => (None::<u8>.with_context(|| t.clone()).unwrap_err(), new(vec![t.clone()], false)),
                Op::StdCtx(a, b) => (Err::<u8, _>(Base(a.clone())).context(b.clone()).unwrap_err(), new(vec![b.clone(), a.clone()], true)),
                Op::StdWith(a, b) => (Err::<u8, _>(Base(a.clone())).with_context(|| b.clone()).unwrap_err(), new(vec![b.clone(), a.clone()], true)),
                Op::FromAnyhow(a, b) => (anyhow::Error::new(Base(a.clone())).context(b.clone()).into(), new(vec![b.clone(), a.clone()], true)),
                Op::OkCtx(t) => {
                    ensure_eq!(Ok::<_, Base>(5).context(t.clone()).ok(), Some(5), "context of Ok");
                    ensure_eq!(Some(6).with_context(|| -> String { panic!("evaluated") }).ok(), Some(6), "context of Some");
                    ensure_eq!(Ok::<_, Error>(7).with_context(|| -> String { panic!("evaluated") }).ok(), Some(7), "context of Ok");
                    continue;
                }
                Op::Clone(i) => { let Some(x) = pick(i) else { continue }; derived = true; x }
                Op::Ctx(i, t) => { let Some((e, m)) = pick(i) else { continue }; derived = true; (e.context(t.clone()), wrap(&m, t)) }
                Op::ResCtx(i, t) => { let Some((e, m)) = pick(i) else { continue }; derived = true; (Err::<(), _>(e).context(t.clone()).unwrap_err(), wrap(&m, t)) }
                Op::ResWith(i, t) => { let Some((e, m)) = pick(i) else { continue }; derived = true; (Err::<(), _>(e).with_context(|| t.clone()).unwrap_err(), wrap(&m, t)) }
                Op::RoundTrip(i) => { let Some((e, m)) = pick(i) else { continue }; derived = true; (Error::from(e.into_anyhow()), Model { id: next, ..m }) }
                Op::Question(i) => { let Some((e, m)) = pick(i) else { continue }; derived = true;
                    if i % 2 == 0 { (question(e).unwrap_err(), m) } else { (question2(e.into_anyhow()).unwrap_err(), Model { id: next, ..m }) } }
                Op::AnyhowCtx(i, t) => { let Some((e, m)) = pick(i) else { continue }; derived = true; (e.into_anyhow().context(t.clone()).into(), wrap(&m, t)) }
            };
            es.push(made);
        }
        if derived && ops.len() >= 4 { c.note(format!("{ops:?}")); }
        for (i, (e, m)) in es.iter().enumerate() {
            ensure_eq!(e.to_string(), m.chain[0], "Display of {i}");
            ensure_eq!(format!("{e:#}"), m.chain.join(": "), "alternate Display of {i}");
            ensure_eq!(e.root_cause().to_string(), *m.chain.last().unwrap(), "root cause of {i}");
            if m.base {
                ensure_eq!(e.root_cause().downcast_ref::<Base>().map(|b| b.0.clone()), m.chain.last().cloned(), "type of the root cause of {i} ({:?})", ops);
            }
            let d = format!("{e:?}");
            ensure!(d.starts_with(&m.chain[0]), "Debug of {i} starts with its message: {d}");
            for t in &m.chain { ensure!(t.lines().all(|l| d.contains(l)), "Debug of {i} has {t:?}: {d}"); }
            ensure_eq!(e.clone().into_anyhow().to_string(), m.chain[0], "into_anyhow of {i}");
            for (j, (f, n)) in es.iter().enumerate() {
                ensure_eq!(e == f, m.id == n.id, "equality of {i} and {j}");
                if e == f { ensure_eq!(hash(e), hash(f), "hash of {i} and {j}"); }
            }
        }
        Ok(())
    });
    s.finish();
}
