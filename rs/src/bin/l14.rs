//! L14: interned values are equal exactly if the values are; boxed byte slices survive the C ABI.
use bumpalo::Bump;
use ffi_types::*;
use interner::{Interned, Interner};
use libchecks::*;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasher, Hash};

fn same_rules<T: ?Sized + PartialEq + std::fmt::Debug>(v: &[(Vec<u8>, Interned<'_, T>)], what: &str) -> Res {
    let h = std::hash::RandomState::new();
    for (i, (a, x)) in v.iter().enumerate() {
        for (b, y) in &v[..i] {
            ensure_eq!(x == y, a == b, "{what}: equality of the interned {a:?} and {b:?}");
            ensure_eq!(x.cmp(y) == std::cmp::Ordering::Equal, a == b, "{what}: order of the interned {a:?} and {b:?}");
            ensure_eq!(x.cmp(y), y.cmp(x).reverse(), "{what}: antisymmetry");
            ensure_eq!(x.partial_cmp(y), Some(x.cmp(y)), "{what}: partial_cmp");
            if a == b { ensure_eq!(h.hash_one(x), h.hash_one(y), "{what}: hashes of equals"); ensure!(std::ptr::eq(x.inner(), y.inner()), "{what}: stored twice"); }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Odd(u8, u16, bool);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(align(32))]
struct Big(u8);

fn main() {
    let mut s = Suite::new("a case is a history of values interned as strings, slices (of sized and zero-sized elements) and plain values in one arena, or of byte slices boxed and freed; non-trivial: at least 3 values, one of them twice or empty");
    let val = prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(97u8..100, 1..3), 2 => prop::collection::vec(97u8..123, 0..40), 1 => prop::collection::vec(97u8..123, 100..400)];
    s.run("interning", 3000, 100_000, prop::collection::vec((0u8..6, val.clone()), 1..40), |c, ops| {
        let arena = Bump::new();
        let strs = Interner::<str>::new(&arena);
        let bytes = Interner::<[u8]>::new(&arena);
        let words = Interner::<[u64]>::new(&arena);
        let units = Interner::<[()]>::new(&arena);
        let odds = Interner::<Odd>::new(&arena);
        let bigs = Interner::<Big>::new(&arena);
        let (mut a, mut b, mut w, mut u, mut o, mut g) = (vec![], vec![], vec![], vec![], vec![], vec![]);
        if ops.len() >= 3 { c.note(format!("{ops:?}")); }
        for (k, v) in &ops {
            let first = v.first().copied().unwrap_or(0);
            match k {
                0 => a.push((v.clone(), strs.intern_str(std::str::from_utf8(v).unwrap()))),
                1 => b.push((v.clone(), bytes.intern_slice(v))),
                2 => w.push((v.clone(), words.intern_slice(&v.iter().map(|b| *b as u64).collect::<Vec<_>>()))),
                3 => u.push((vec![0; v.len() % 5], units.intern_slice(&vec![(); v.len() % 5]))),
                4 => o.push((vec![first], odds.intern(Odd(first, first as u16 * 3, true)))),
                _ => g.push((vec![first], bigs.intern(Big(first)))),
            }
        }
        for (v, x) in &a { ensure_eq!(x.as_bytes(), v.as_slice(), "interned string"); ensure_eq!(format!("{x:?}"), format!("{:?}", std::str::from_utf8(v).unwrap()), "Debug"); }
        for (v, x) in &b { ensure_eq!(***x, **v, "interned bytes"); }
        for (v, x) in &w { ensure_eq!(x.iter().map(|w| *w as u8).collect::<Vec<_>>(), *v, "interned words"); ensure!(x.as_ptr() as usize % 8 == 0, "alignment"); }
        for (v, x) in &u { ensure_eq!(x.len(), v.len(), "interned units"); }
        for (v, x) in &o { ensure_eq!(*x.inner(), Odd(v[0], v[0] as u16 * 3, true), "interned value"); }
        for (v, x) in &g { ensure_eq!(x.inner().0, v[0], "interned aligned value"); ensure!(x.inner() as *const Big as usize % 32 == 0, "alignment"); }
        same_rules(&a, "str")?; same_rules(&b, "[u8]")?; same_rules(&w, "[u64]")?; same_rules(&u, "[()]")?; same_rules(&o, "Odd")?; same_rules(&g, "Big")?;
        let h: HashSet<_> = a.iter().map(|x| x.1).collect();
        let d: HashSet<_> = a.iter().map(|x| &x.0).collect();
        ensure_eq!(h.len(), d.len(), "a set of interned strings");
        Ok(())
    });

    s.run("boxed slices", 3000, 100_000, prop::collection::vec((any::<u8>(), prop_oneof![Just(vec![]), prop::collection::vec(any::<u8>(), 0..50)]), 1..30), |c, ops| {
        c.note(format!("{ops:?}"));
        let mut live: BTreeMap<usize, (Vec<u8>, FfiU8SliceBox)> = BTreeMap::new();
        for (i, (k, v)) in ops.iter().enumerate() {
            match k % 4 {
                0 | 1 => {
                    let mut src = v.clone();
                    let b = unsafe { AllocFfiU8SliceBox(FfiU8Slice::from_slice(&src)) };
                    src.iter_mut().for_each(|b| *b = !*b);
                    live.insert(i, (v.clone(), b));
                }
                2 => { live.insert(i, (v.clone(), FfiU8SliceBox::from_boxed_slice(v.clone().into()))); }
                _ => if let Some((_, (want, b))) = live.pop_first() {
                    if k % 8 == 3 { ensure_eq!(*b.into_boxed_slice(), *want, "boxed slice"); } else { unsafe { FreeFfiU8SliceBox(b) } }
                },
            }
            ensure_eq!(FfiU8Slice::from_slice(v).as_slice(), v.as_slice(), "borrowed slice");
        }
        for (_, (want, b)) in live { ensure_eq!(*b.into_boxed_slice(), *want, "boxed slice at the end"); }
        Ok(())
    });
    s.finish()
}
