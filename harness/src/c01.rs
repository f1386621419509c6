//! C01: the element storage against a map from handles to contents
use crate::rep::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
struct El<I> {
    id: I,
    val: u64,
}
impl<I: IndexType> Deletable<I> for El<I> {
    fn is_deleted(&self) -> bool {
        self.id == <I as IndexType>::max()
    }
    fn delete(&mut self) {
        assert!(self.id != <I as IndexType>::max());
        self.id = <I as IndexType>::max();
    }
    fn set_id(&mut self, id: I) {
        assert!(self.id == <I as IndexType>::max());
        self.id = id;
    }
    fn allocate() -> Self {
        El { id: <I as IndexType>::max(), val: 0 }
    }
}

fn one<I: IndexType>(r: &mut Rep, rng: &mut Rng, name: &'static str, limit: usize) {
    let mut d: DeletableVector<El<I>, I> = DeletableVector::new();
    let mut live: BTreeMap<usize, u64> = BTreeMap::new();
    let mut res: BTreeSet<usize> = BTreeSet::new();
    let mut ever: BTreeSet<usize> = BTreeSet::new();
    let mut freed: BTreeSet<usize> = BTreeSet::new();
    let mut hist = String::new();
    let mut val = 1u64;
    let len = rng.range(5, 400);
    let grow = rng.range(30, 75);
    for _ in 0..len {
        val += 1;
        let k = rng.below(100);
        let room = !freed.is_empty() || live.len() + res.len() + freed.len() < limit;
        let step: Result<(), String> = if k < grow {
            if !room { continue; }
            if k % 3 != 0 {
                hist.push_str(&format!("push({val}) "));
                guard(|| d.push(El { id: <I as IndexType>::max(), val })).map(|h| h.index()).and_then(|h| {
                    if live.contains_key(&h) { return Err(format!("push returned the handle {h} of a live element")); }
                    if res.contains(&h) { return Err(format!("push returned the reserved handle {h}")); }
                    if ever.contains(&h) && !freed.contains(&h) { return Err(format!("push reused the handle {h} which was not freed")); }
                    live.insert(h, val);
                    freed.remove(&h);
                    ever.insert(h);
                    Ok(())
                })
            } else {
                hist.push_str("allocate ");
                guard(|| d.allocate()).map(|h| h.index()).and_then(|h| {
                    if live.contains_key(&h) || res.contains(&h) { return Err(format!("allocate returned the handle {h} which is in use")); }
                    if ever.contains(&h) && !freed.contains(&h) { return Err(format!("allocate reused the handle {h} which was not freed")); }
                    res.insert(h);
                    freed.remove(&h);
                    ever.insert(h);
                    Ok(())
                })
            }
        } else if k < 80 {
            let c: Vec<usize> = res.iter().copied().collect();
            let Some(h) = rng.pick(&c).copied() else { continue };
            hist.push_str(&format!("set({h},{val}) "));
            guard(|| d.set(I::new(h), El { id: <I as IndexType>::max(), val })).map(|_| {
                res.remove(&h);
                live.insert(h, val);
            })
        } else if k < 94 {
            let c: Vec<usize> = live.keys().copied().collect();
            let Some(h) = rng.pick(&c).copied() else { continue };
            hist.push_str(&format!("delete({h}) "));
            guard(|| d.delete_internal(I::new(h))).map(|_| {
                live.remove(&h);
                freed.insert(h);
            })
        } else if k < 99 {
            let c: Vec<usize> = live.keys().copied().collect();
            let Some(h) = rng.pick(&c).copied() else { continue };
            hist.push_str(&format!("write({h},{val}) "));
            guard(|| d.get_mut(I::new(h)).val = val).map(|_| { live.insert(h, val); })
        } else {
            hist.push_str("clear ");
            guard(|| d.clear()).map(|_| {
                live.clear();
                res.clear();
                freed.clear();
                ever.clear();
            })
        };
        r.eval(name, if freed.is_empty() { None } else { Some(hash(&hist)) });
        if let Err(x) = step { r.fail(&format!("storage-{name}"), x, hist.clone()); return; }
        let chk = guard(|| -> Result<(), String> {
            if d.len() != live.len() + res.len() { return Err(format!("len() is {} but {} handles are in use", d.len(), live.len() + res.len())); }
            let mx = live.keys().chain(res.iter()).max();
            if let Some(m) = mx { if *m >= d.capacity() { return Err(format!("capacity() {} does not bound handle {m}", d.capacity())); } }
            let it: Vec<(usize, u64)> = d.iter().map(|e| (e.id.index(), e.val)).collect();
            let want: Vec<(usize, u64)> = live.iter().map(|(a, b)| (*a, *b)).collect();
            if it != want { return Err(format!("iter() yields {it:?}, live are {want:?}")); }
            for h in 0..d.capacity() + 2 {
                if h > limit { break; }
                if d.has(I::new(h)) != live.contains_key(&h) { return Err(format!("has({h}) is {}", d.has(I::new(h)))); }
            }
            for (h, v) in &live {
                let e = d.get(I::new(*h));
                if e.val != *v || e.id.index() != *h { return Err(format!("get({h}) is {e:?}, last written {v}")); }
            }
            Ok(())
        });
        match chk { Err(x) | Ok(Err(x)) => { r.fail(&format!("storage-{name}"), x, hist.clone()); return; } _ => {} }
        let it: Vec<(usize, u64)> = d.iter_mut().map(|e| (e.id.index(), e.val)).collect();
        if it != live.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>() { r.fail("storage-iter_mut", format!("iter_mut() yields {it:?}, live are {live:?}"), hist.clone()); return; }
    }
    // absent handles are refused, never aliased
    for h in 0..d.capacity() {
        if !live.contains_key(&h) {
            if guard(|| d.get(I::new(h)).val).is_ok() { r.fail(&format!("storage-{name}-absent"), format!("get({h}) succeeds on an absent handle"), hist.clone()); return; }
            if guard(|| d.get_mut(I::new(h)).val).is_ok() { r.fail(&format!("storage-{name}-absent"), format!("get_mut({h}) succeeds on an absent handle"), hist.clone()); return; }
        }
    }
    r.sample(|| hist.chars().take(300).collect());
}

pub fn run(r: &mut Rep) {
    r.rule = "after every call of a random push/allocate/set/delete/write/clear history the whole storage is compared with a map; non-trivial when a freed slot exists".into();
    let mut rng = r.rng(1);
    for _ in 0..r.scale(600) {
        if !r.time_left() { break; }
        one::<usize>(r, &mut rng, "usize", 1 << 20);
        one::<u32>(r, &mut rng, "u32", 1 << 20);
        one::<u16>(r, &mut rng, "u16", 65535);
        one::<u8>(r, &mut rng, "u8", 255);
    }
    conversions(r);
    // the handles the mesh itself gives out
    crate::c02::handles(r);
}

fn conv<I: IndexType>(r: &mut Rep, name: &str, max: usize) {
    for x in (0..300).chain([max - 1, max, max / 2, max / 3]) {
        if x > max { continue; }
        r.eval("index", Some(hash(&(name, x))));
        match guard(|| I::new(x).index()) {
            Ok(y) if y == x => {}
            o => r.fail("index", format!("{name}: new({x}).index() is {o:?}"), format!("{x}")),
        }
    }
    if <I as IndexType>::max().index() != max { r.fail("index", format!("{name}: max() is {}", <I as IndexType>::max().index()), ""); }
}
fn conversions(r: &mut Rep) {
    conv::<usize>(r, "usize", usize::MAX);
    conv::<u32>(r, "u32", u32::MAX as usize);
    conv::<u16>(r, "u16", u16::MAX as usize);
    conv::<u8>(r, "u8", u8::MAX as usize);
}
