//! Independent picture of a mesh, taken only through plain getters.
use crate::tm::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

pub const NONE: usize = usize::MAX;

#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub next: usize,
    pub prev: usize,
    pub twin: usize,
    pub org: usize,
    pub face: usize,
    pub pay: EPay,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Vx {
    pub edge: usize,
    pub pay: VPay,
}
#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub edge: usize,
    pub curved: bool,
    pub pay: FPay,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub e: BTreeMap<usize, E>,
    pub v: BTreeMap<usize, Vx>,
    pub f: BTreeMap<usize, F>,
    pub mp: MPay,
}

fn ix<I: IndexType>(i: I) -> usize {
    if i == <I as IndexType>::max() { NONE } else { i.index() }
}

impl Snap {
    pub fn of(m: &M) -> Snap {
        let mut s = Snap { e: BTreeMap::new(), v: BTreeMap::new(), f: BTreeMap::new(), mp: MeshBasics::payload(m).clone() };
        for e in m.edges() {
            s.e.insert(ix(e.id()), E { next: ix(e.next_id()), prev: ix(e.prev_id()), twin: ix(e.twin_id()),
                org: ix(e.origin_id()), face: ix(e.face_id()), pay: *EdgeBasics::payload(e) });
        }
        for v in m.vertices() {
            s.v.insert(ix(v.id()), Vx { edge: ix(VertexBasics::edge_id(v, m)), pay: *VertexBasics::payload(v) });
        }
        for f in m.faces() {
            s.f.insert(ix(f.id()), F { edge: ix(FaceBasics::edge_id(f)), curved: f.may_be_curved(), pay: *FaceBasics::payload(f) });
        }
        s
    }
    /// the whole mesh on one line
    pub fn picture(&self) -> String {
        let n = |x: usize| if x == NONE { "-".to_string() } else { x.to_string() };
        let e: Vec<_> = self.e.iter().map(|(i, e)| format!("{i}:{}~{}>{}f{}#{}", n(e.org), n(e.twin), n(e.next), n(e.face), e.pay.tag)).collect();
        let v: Vec<_> = self.v.iter().map(|(i, v)| format!("{i}@{}#{}", n(v.edge), v.pay.tag)).collect();
        let f: Vec<_> = self.f.iter().map(|(i, f)| format!("{i}@{}#{}", n(f.edge), f.pay.tag)).collect();
        format!("[edges (origin~twin>next f face # tag) {} | vertices {} | faces {}]", e.join(" "), v.join(" "), f.join(" "))
    }
    pub fn tgt(&self, e: usize) -> usize {
        self.e[&self.e[&e].next].org
    }
    /// orbit of e under next
    pub fn orbit(&self, e: usize) -> Vec<usize> {
        let mut r = vec![e];
        let mut c = self.e[&e].next;
        while c != e && r.len() <= self.e.len() {
            r.push(c);
            c = self.e[&c].next;
        }
        r
    }
    pub fn orbit_back(&self, e: usize) -> Vec<usize> {
        let mut r = vec![e];
        let mut c = self.e[&e].prev;
        while c != e && r.len() <= self.e.len() {
            r.push(c);
            c = self.e[&c].prev;
        }
        r
    }
    /// clockwise wheel of outgoing edges starting at e
    pub fn wheel(&self, e: usize) -> Vec<usize> {
        let mut r = vec![e];
        let mut c = self.e[&self.e[&e].twin].next;
        while c != e && r.len() <= self.e.len() {
            r.push(c);
            c = self.e[&self.e[&c].twin].next;
        }
        r
    }
    pub fn vwheel(&self, v: usize) -> Vec<usize> {
        let e = self.v[&v].edge;
        if e == NONE { vec![] } else { self.wheel(e) }
    }
    pub fn out_all(&self, v: usize) -> Vec<usize> {
        self.e.iter().filter(|(_, e)| e.org == v).map(|(i, _)| *i).collect()
    }
    /// edge from v to w inside the wheel of v
    pub fn edge_between(&self, v: usize, w: usize) -> Option<usize> {
        self.vwheel(v).into_iter().find(|e| self.tgt(*e) == w)
    }
    pub fn boundary_out(&self, v: usize) -> Vec<usize> {
        self.vwheel(v).into_iter().filter(|e| self.e[e].face == NONE).collect()
    }
    /// one edge per loop of free (face-less) half-edges
    pub fn holes(&self) -> Vec<usize> {
        let mut seen = BTreeSet::new();
        let mut r = vec![];
        for (i, e) in &self.e {
            if e.face == NONE && !seen.contains(i) {
                seen.extend(self.orbit(*i));
                r.push(*i);
            }
        }
        r
    }
    /// structural validity of the half-edge mesh (the statement of C02)
    pub fn wf(&self) -> Result<(), String> {
        for (i, e) in &self.e {
            for (n, x) in [("next", e.next), ("prev", e.prev), ("twin", e.twin)] {
                if !self.e.contains_key(&x) {
                    return Err(format!("half-edge {i}: {n} {x} is not a live half-edge"));
                }
            }
            if !self.v.contains_key(&e.org) {
                return Err(format!("half-edge {i}: origin {} is not a live vertex", e.org));
            }
            if e.face != NONE && !self.f.contains_key(&e.face) {
                return Err(format!("half-edge {i}: face {} is not a live face", e.face));
            }
            if e.twin == *i || self.e[&e.twin].twin != *i {
                return Err(format!("half-edge {i}: twin {} does not pair up", e.twin));
            }
            if self.e[&e.next].prev != *i {
                return Err(format!("half-edge {i}: prev(next) is {}", self.e[&e.next].prev));
            }
            if self.e[&e.prev].next != *i {
                return Err(format!("half-edge {i}: next(prev) is {}", self.e[&e.prev].next));
            }
            if self.e[&e.next].org != self.e[&e.twin].org {
                return Err(format!("half-edge {i}: ends at {} by next but at {} by twin", self.e[&e.next].org, self.e[&e.twin].org));
            }
            if self.e[&e.next].face != e.face {
                return Err(format!("half-edge {i}: face {} but next has face {}", e.face, self.e[&e.next].face));
            }
        }
        for (i, v) in &self.v {
            if v.edge != NONE {
                match self.e.get(&v.edge) {
                    None => return Err(format!("vertex {i}: representative {} is not a live half-edge", v.edge)),
                    Some(e) if e.org != *i => return Err(format!("vertex {i}: representative {} starts at {}", v.edge, e.org)),
                    _ => {}
                }
            } else if self.e.values().any(|e| e.org == *i) {
                return Err(format!("vertex {i} has edges but no representative"));
            }
        }
        for (i, f) in &self.f {
            match self.e.get(&f.edge) {
                None => return Err(format!("face {i}: representative {} is not a live half-edge", f.edge)),
                Some(e) if e.face != *i => return Err(format!("face {i}: representative {} has face {}", f.edge, e.face)),
                _ => {}
            }
        }
        // a face owns exactly one loop
        for (i, f) in &self.f {
            let n = self.e.values().filter(|e| e.face == *i).count();
            let o = self.orbit(f.edge).len();
            if n != o {
                return Err(format!("face {i}: its loop has {o} half-edges but {n} carry it"));
            }
        }
        Ok(())
    }
    /// comparison up to the choice of the representative edges (whose validity is part of wf)
    pub fn diff(&self, o: &Snap) -> Option<String> {
        fn keys<T>(a: &BTreeMap<usize, T>, b: &BTreeMap<usize, T>) -> Option<String> {
            for k in a.keys() { if !b.contains_key(k) { return Some(format!("{k} is missing")); } }
            for k in b.keys() { if !a.contains_key(k) { return Some(format!("{k} should not exist")); } }
            None
        }
        if let Some(x) = keys(&self.e, &o.e) { return Some("half-edge ".to_string() + &x); }
        if let Some(x) = keys(&self.v, &o.v) { return Some("vertex ".to_string() + &x); }
        if let Some(x) = keys(&self.f, &o.f) { return Some("face ".to_string() + &x); }
        for (k, a) in &self.e {
            if *a != o.e[k] { return Some(format!("half-edge {k}: expected {:?} got {:?}", a, o.e[k])); }
        }
        for (k, a) in &self.v {
            let b = &o.v[k];
            if a.pay != b.pay { return Some(format!("vertex {k}: expected payload {:?} got {:?}", a.pay, b.pay)); }
            if (a.edge == NONE) != (b.edge == NONE) { return Some(format!("vertex {k}: expected edge {} got {}", a.edge, b.edge)); }
        }
        for (k, a) in &self.f {
            let b = &o.f[k];
            if a.pay != b.pay || a.curved != b.curved { return Some(format!("face {k}: expected {:?} got {:?}", a, b)); }
        }
        if self.mp != o.mp { return Some("mesh payload changed".into()); }
        None
    }
    pub fn euler(&self) -> i64 {
        self.v.len() as i64 - (self.e.len() / 2) as i64 + self.f.len() as i64
    }
}
