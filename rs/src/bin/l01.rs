//! L01: memoized queries return what the plain functions return, whatever was asked before.
use libchecks::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Set = BTreeSet<(u8, u8)>;

#[derive(Debug, Clone, PartialEq)]
struct Graph {
    /// Edges of (kind, node); kind says which of two queries depends on which.
    out: [Vec<Vec<(u8, u8)>>; 2],
}

impl Graph {
    fn kids(&self, k: u8, n: u8) -> &[(u8, u8)] { &self.out[k as usize][n as usize] }
    fn reach(&self, k: u8, n: u8) -> Set {
        let mut s = Set::new();
        let mut todo = vec![(k, n)];
        while let Some(x) = todo.pop() {
            if s.insert(x) { todo.extend(self.kids(x.0, x.1)); }
        }
        s
    }
    fn cyclic_from(&self, k: u8, n: u8) -> bool {
        self.reach(k, n).iter().any(|&(k, n)| self.kids(k, n).iter().any(|c| self.reach(c.0, c.1).contains(&(k, n))))
    }
    fn edges(&self) -> usize { self.out.iter().flatten().map(Vec::len).sum() }
}

type Count = Rc<RefCell<BTreeMap<(u8, u8), u32>>>;
fn bump(c: &Count, k: (u8, u8)) { *c.borrow_mut().entry(k).or_insert(0) += 1; }

memoized::query_group! {
    pub struct Reach {
        #[input]
        fn graph(&self) -> Rc<Graph>;
        #[input]
        fn evals(&self) -> Count;
        #[break_cycles_with = Set::new()]
        fn even(&self, n: u8) -> Set;
        #[break_cycles_with = Set::new()]
        fn odd(&self, tag: String, n: u8) -> Set;
        fn depth(&self, n: u8) -> u64;
        fn first(&self) -> Option<Set>;
        #[provided]
        fn both(&self, n: u8) -> (Set, Set) { (self.even(n), self.odd("x".into(), n)) }
    }
}

fn ask(db: &Reach, k: u8, n: u8) -> Set { if k == 0 { db.even(n) } else { db.odd("x".into(), n) } }
fn visit(db: &Reach, k: u8, n: u8) -> Set {
    bump(&db.evals(), (k, n));
    let g = db.graph();
    let mut s = Set::from([(k, n)]);
    for &(ck, cn) in g.kids(k, n) { s.extend(ask(db, ck, cn)); }
    s
}
fn even(db: &Reach, n: u8) -> Set { visit(db, 0, n) }
fn odd(db: &Reach, _tag: String, n: u8) -> Set { visit(db, 1, n) }
/// Follows the edges of the first kind only; its cycles are not broken.
fn depth(db: &Reach, n: u8) -> u64 {
    bump(&db.evals(), (2, n));
    let g = db.graph();
    g.kids(0, n).iter().fold(n as u64 + 1, |a, c| a.wrapping_mul(1_000_003).wrapping_add(db.depth(c.1)))
}
fn plain_depth(g: &Graph, n: u8) -> u64 {
    g.kids(0, n).iter().fold(n as u64 + 1, |a, c| a.wrapping_mul(1_000_003).wrapping_add(plain_depth(g, c.1)))
}
fn first(db: &Reach) -> Option<Set> { bump(&db.evals(), (3, 0)); Some(db.even(0)) }

fn db(g: &Graph) -> (Reach, Count) {
    let c = Count::default();
    (Reach::new(Rc::new(g.clone()), c.clone(), even, odd, depth, first), c)
}

fn graph(n: usize, density: usize, acyclic: bool) -> impl Strategy<Value = Graph> {
    let lists = move || (0..n).map(|i| {
        let lo = if acyclic { i + 1 } else { 0 };
        if lo >= n { Just(vec![]).boxed() } else { prop::collection::vec((0u8..2, lo as u8..n as u8), 0..=density).boxed() }
    }).collect::<Vec<_>>();
    (lists(), lists()).prop_map(|(a, b)| Graph { out: [a, b] })
}
fn any_graph() -> impl Strategy<Value = Graph> {
    prop_oneof![(1usize..7).prop_flat_map(|n| graph(n, 2, false)), (2usize..9).prop_flat_map(|n| graph(n, 3, false)), (2usize..12).prop_flat_map(|n| graph(n, 3, true))]
}

// The free-standing form, whose tables live beside the database.
fn cyc(_: &str) -> Set { Set::new() }
fn side_impl(db: &Reach, k: u8, n: u8) -> Set {
    bump(&db.evals(), (k + 4, n));
    let g = db.graph();
    let mut s = Set::from([(k, n)]);
    for &(ck, cn) in g.kids(k, n) { s.extend(side(db, ck, cn)); }
    s
}
mod side_mod {
    use super::*;
    memoized::memoized!(cyc, pub fn side(db: &Reach, k: u8, n: u8) -> crate::Set = side_impl);
}
use side_mod::side;

fn once(c: &Count, what: &str) -> Res {
    for (k, v) in c.borrow().iter() { ensure!(*v <= 1, "{what}: {k:?} was evaluated {v} times"); }
    Ok(())
}

fn main() {
    let mut s = Suite::new("a case is a dependency graph between two mutually recursive queries and a sequence of queries; non-trivial: the graph has at least 3 edges and 3 queries are asked, told apart by graph and queries");
    let queries = || prop::collection::vec((0u8..3, 0u8..12), 1..14);

    s.run("history does not change values", 4000, 120_000, (any_graph(), queries()), |c, (g, qs)| {
        let n = g.out[0].len() as u8;
        let (d, ev) = db(&g);
        if g.edges() >= 3 && qs.len() >= 3 { c.note(format!("{g:?}{qs:?}")); }
        let cyclic = (0..n).any(|x| g.cyclic_from(0, x) || g.cyclic_from(1, x));
        c.class(if cyclic { "cyclic" } else { "acyclic" });
        let mut asked = BTreeSet::new();
        for (i, &(k, x)) in qs.iter().enumerate() {
            let x = x % n;
            let before = ev.borrow().clone();
            if k == 2 {
                ensure_eq!(d.both(x), (g.reach(0, x), g.reach(1, x)), "query {i} both({x})");
                asked.extend([(0, x), (1, x)]);
                continue;
            }
            ensure_eq!(ask(&d, k, x), g.reach(k, x), "query {i} ({k},{x})");
            if !asked.insert((k, x)) {
                ensure_eq!(*ev.borrow(), before, "query {i} was asked before, and is evaluated again");
            }
            ensure_eq!(d.first(), Some(g.reach(0, 0)), "first() after query {i}");
        }
        ensure_eq!(ev.borrow().get(&(3, 0)).copied().unwrap_or(0) <= 1, true, "first() is evaluated once");
        if !cyclic { once(&ev, "acyclic graph")?; }
        Ok(())
    });

    s.run("tables beside the database", 3000, 80_000, (any_graph(), any_graph(), queries()), |c, (g, h, qs)| {
        let (d, ev) = db(&g);
        let (e, ew) = db(&h);
        if g.edges() >= 3 && h.edges() >= 3 && g != h { c.note(format!("{g:?}{h:?}{qs:?}")); }
        for (i, &(k, x)) in qs.iter().enumerate() {
            let k = k % 2;
            let (x1, x2) = (x % g.out[0].len() as u8, x % h.out[0].len() as u8);
            ensure_eq!(side(&d, k, x1), g.reach(k, x1), "query {i} of the first database");
            ensure_eq!(side(&e, k, x2), h.reach(k, x2), "query {i} of the second database");
            let before = (ev.borrow().clone(), ew.borrow().clone());
            side(&d, k, x1); side(&e, k, x2);
            ensure!(before == (ev.borrow().clone(), ew.borrow().clone()), "query {i} is evaluated again");
        }
        Ok(())
    });

    s.run("cycles which are not broken are reported", 2500, 60_000, (any_graph(), prop::collection::vec(0u8..12, 1..6)), |c, (g, qs)| {
        let only0 = Graph { out: [g.out[0].iter().map(|l| l.iter().map(|e| (0, e.1)).collect()).collect(), g.out[1].iter().map(|_| vec![]).collect()] };
        let n = g.out[0].len() as u8;
        let (d, ev) = db(&only0);
        for &x in &qs {
            let x = x % n;
            let r = catch(|| d.depth(x));
            if only0.cyclic_from(0, x) {
                c.class("cycle");
                let Err(m) = r else { return Err(format!("depth({x}) returned although it depends on itself")) };
                ensure!(m.contains("depth") && m.to_lowercase().contains("cycle"), "message of the panic: {m}");
                return Ok(());
            }
            if only0.edges() >= 3 { c.note(format!("{only0:?}{qs:?}")); }
            ensure_eq!(r, Ok(plain_depth(&only0, x)), "depth({x})");
        }
        once(&ev, "depth")
    });

    s.run("arguments are told apart", 500, 20_000, prop::collection::vec((prop_oneof![Just("".to_string()), "[ab]{0,2}"], 0u8..3), 1..20), |c, qs| {
        memoized::query_group! { pub struct Id { #[input] fn n(&self) -> Rc<Cell<u32>>; fn id(&self, a: String, b: u8) -> (String, u8); fn rev(&self, a: String, b: u8) -> (u8, String); } }
        fn id(d: &Id, a: String, b: u8) -> (String, u8) { d.n().set(d.n().get() + 1); (a, b) }
        fn rev(d: &Id, a: String, b: u8) -> (u8, String) { let (x, y) = d.id(a, b); (y, x) }
        let n = Rc::new(Cell::new(0));
        let d = Id::new(n.clone(), id, rev);
        let mut seen = BTreeSet::new();
        for (a, b) in qs {
            ensure_eq!(d.rev(a.clone(), b), (b, a.clone()), "rev");
            ensure_eq!(d.id(a.clone(), b), (a.clone(), b), "id");
            seen.insert((a, b));
        }
        ensure_eq!(n.get() as usize, seen.len(), "evaluations of id");
        if seen.len() > 3 { c.note(format!("{seen:?}")); }
        Ok(())
    });

    // More databases in one process than a byte can number.
    let many = if s.thorough() { 70_000 } else { 700 };
    s.all("databases never share results", 0..many, |_, i| {
        let n = (i % 5 + 1) as u8;
        let g = Graph { out: [(0..n).map(|x| vec![(0, (x + (*i as u8 % n)) % n)]).collect(), vec![vec![]; n as usize]] };
        let (d, _) = db(&g);
        for x in 0..n { ensure_eq!(side(&d, 0, x), g.reach(0, x), "database {i}"); }
        Ok(())
    });
    s.finish();
}
