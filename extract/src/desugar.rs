//! Rewrites iterator pipelines and `for` loops into explicit loops.
//! The produced code performs the same calls in the same order; only the lazy adaptors of the
//! standard library are replaced by their definitions.
use proc_macro2::Span;
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Ident, Pat, Stmt};

pub const ADAPT: &[&str] = &[
    "map",
    "filter",
    "filter_map",
    "enumerate",
    "skip",
    "take",
    "cloned",
    "copied",
    "rev",
    "iter",
    "into_iter",
    "iter_mut",
    "take_while",
];
pub const TERM: &[&str] = &[
    "collect",
    "collect_vec",
    "for_each",
    "any",
    "all",
    "find",
    "find_map",
    "count",
    "position",
];

/// methods that consume an iterator; the pipeline before them is materialised
pub const CONSUME: &[&str] = &[
    "stable_sum",
    "stable_mean",
    "collect_tuple",
    "min_by",
    "tuple_windows",
    "circular_tuple_windows",
    "zip",
    "chain",
    "unzip",
];

pub struct Desugar {
    pub n: usize,
    pub vecs: BTreeSet<String>,
    pub error: Option<String>,
}

type Chain = (Expr, Vec<(String, Vec<Expr>)>);

/// Peels the adaptor chain off an expression.
fn chain(e: &Expr) -> Chain {
    let mut links = Vec::new();
    let mut cur = e.clone();
    loop {
        match cur {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // a terminal operation further down the chain ends this pipeline
                let term = TERM.contains(&name.as_str()) && links.is_empty();
                if ADAPT.contains(&name.as_str()) || term {
                    links.push((name, m.args.iter().cloned().collect()));
                    cur = *m.receiver;
                } else {
                    links.reverse();
                    return (Expr::MethodCall(m), links);
                }
            }
            other => {
                links.reverse();
                return (other, links);
            }
        }
    }
}

fn unparen(e: Expr) -> Expr {
    match e {
        Expr::Paren(p) => unparen(*p.expr),
        e => e,
    }
}

fn closure(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        return Some((c.inputs.iter().cloned().collect(), (*c.body).clone()));
    }
    None
}

fn pat_strip(p: &Pat) -> Pat {
    if let Pat::Type(t) = p {
        return (*t.pat).clone();
    }
    p.clone()
}

impl Desugar {
    fn id(&self, s: &str, k: usize) -> Ident {
        Ident::new(&format!("{s}_{k}"), Span::call_site())
    }
    fn fail(&mut self, m: String) {
        self.error.get_or_insert(m);
    }

    /// `{ setup; loop { let x = ..; <adaptors> <sink(x)> } }` as a list of statements
    fn build(
        &mut self,
        base: Expr,
        links: &[(String, Vec<Expr>)],
        sink: &mut dyn FnMut(&mut Desugar, Expr) -> Vec<Stmt>,
    ) -> Vec<Stmt> {
        let k = self.n;
        self.n += 1;
        let mut links: Vec<(String, Vec<Expr>)> = links.to_vec();
        let base = unparen(base);
        let (x, it, i, v, end) = (
            self.id("x", k),
            self.id("it", k),
            self.id("i", k),
            self.id("v", k),
            self.id("end", k),
        );
        let mut setup: Vec<Stmt> = Vec::new();
        let mut pre_body: Vec<Stmt> = Vec::new();
        enum Kind {
            While(Expr),
            Iter,
        }
        let kind;
        let mut mesh_arg: Option<Expr> = None;
        while matches!(links.first(), Some((n, _)) if n == "into_iter") {
            links.remove(0);
        }
        let first = links.first().map(|l| l.0.clone()).unwrap_or_default();
        if let Expr::Range(r) = &base {
            let (Some(a), Some(b)) = (&r.start, &r.end) else {
                self.fail("open range".into());
                return vec![];
            };
            let b: Expr = match r.limits {
                syn::RangeLimits::HalfOpen(_) => parse_quote!(#b),
                syn::RangeLimits::Closed(_) => parse_quote!((#b) + 1),
            };
            if first == "rev" {
                links.remove(0);
                setup.push(parse_quote!(let #end = #a;));
                setup.push(parse_quote!(let mut #i = #b;));
                kind = Kind::While(parse_quote!(#end < #i));
                pre_body.push(parse_quote!(#i = #i - 1;));
                pre_body.push(parse_quote!(let #x = #i;));
            } else {
                setup.push(parse_quote!(let mut #i = #a;));
                setup.push(parse_quote!(let #end = #b;));
                kind = Kind::While(parse_quote!(#i < #end));
                pre_body.push(parse_quote!(let #x = #i;));
                pre_body.push(parse_quote!(#i = #i + 1;));
            }
        } else if first == "iter"
            || matches!(base, Expr::Reference(ref r) if r.mutability.is_none())
        {
            if first == "iter" {
                links.remove(0);
                setup.push(parse_quote!(let #v = &#base;));
            } else {
                setup.push(parse_quote!(let #v = #base;));
            }
            if matches!(links.first(), Some((n, _)) if n == "rev") {
                links.remove(0);
                setup.push(parse_quote!(let mut #i: usize = #v.len();));
                kind = Kind::While(parse_quote!(0 < #i));
                pre_body.push(parse_quote!(#i = #i - 1;));
                pre_body.push(parse_quote!(let #x = &#v[#i];));
            } else {
                setup.push(parse_quote!(let mut #i: usize = 0;));
                kind = Kind::While(parse_quote!(#i < #v.len()));
                pre_body.push(parse_quote!(let #x = &#v[#i];));
                pre_body.push(parse_quote!(#i = #i + 1;));
            }
        } else if first == "iter_mut" {
            links.remove(0);
            setup.push(parse_quote!(let mut #it = vec_iter_mut(&mut #base);));
            kind = Kind::Iter;
        } else {
            let is_vec = match &base {
                Expr::Path(p) => p
                    .path
                    .get_ident()
                    .map(|i| self.vecs.contains(&i.to_string()))
                    .unwrap_or(false),
                Expr::Macro(m) => m.mac.path.is_ident("vec"),
                _ => false,
            };
            let mut base = base;
            if let Expr::MethodCall(m) = &base {
                // repeating all elements of a vector
                if let (true, Expr::MethodCall(i)) = (m.method == "cycle", unparen((*m.receiver).clone())) {
                    if i.method == "iter" {
                        let y = &i.receiver;
                        base = parse_quote!(#y.vx_cycle());
                    }
                }
            }
            if let Expr::MethodCall(m) = &mut base {
                if m.method == "edges_face_mut" && m.args.len() == 1 {
                    mesh_arg = m.args.pop().map(|p| p.into_value());
                }
            }
            if let Expr::MethodCall(m) = &mut base {
                // borrowing from a collected temporary: name the temporary
                if let (true, Expr::MethodCall(i)) = (CONSUME.contains(&m.method.to_string().as_str()), (*m.receiver).clone()) {
                    if let (true, Expr::MethodCall(c)) = (i.method == "iter", (*i.receiver).clone()) {
                        if c.method == "collect" || c.method == "collect_vec" {
                            setup.push(parse_quote!(let #v = #c;));
                            let mut i = i.clone();
                            i.receiver = parse_quote!(#v);
                            m.receiver = Box::new(Expr::MethodCall(i));
                        }
                    }
                }
            }
            if is_vec {
                setup.push(parse_quote!(let mut #it = GIter::from_vec(#base);));
            } else {
                setup.push(parse_quote!(let mut #it = #base;));
            }
            kind = Kind::Iter;
        }
        // adaptors
        let mut cur: Expr = parse_quote!(#x);
        enum W {
            Let(Stmt),
            If(Expr),
            Match(Expr, Ident),
        }
        let mut ws: Vec<W> = Vec::new();
        for (j, (name, args)) in links.iter().enumerate() {
            let y = Ident::new(&format!("y_{k}_{j}"), Span::call_site());
            match name.as_str() {
                "map" | "filter_map" | "filter" | "take_while" => {
                    let f = &args[0];
                    let b: Expr = match closure(f) {
                        Some((ps, body)) if ps.len() == 1 => {
                            let p = pat_strip(&ps[0]);
                            if name == "filter" {
                                parse_quote!({ let #p = &#cur; #body })
                            } else {
                                parse_quote!({ let #p = #cur; #body })
                            }
                        }
                        _ => {
                            if name == "filter" {
                                parse_quote!(#f(&#cur))
                            } else {
                                parse_quote!(#f(#cur))
                            }
                        }
                    };
                    match name.as_str() {
                        "map" => {
                            ws.push(W::Let(parse_quote!(let #y = #b;)));
                            cur = parse_quote!(#y);
                        }
                        "filter" => ws.push(W::If(b)),
                        "filter_map" => {
                            ws.push(W::Match(b, y.clone()));
                            cur = parse_quote!(#y);
                        }
                        _ => {
                            self.fail("take_while".into());
                        }
                    }
                }
                "cloned" | "copied" => {
                    ws.push(W::Let(parse_quote!(let #y = (*#cur).clone();)));
                    cur = parse_quote!(#y);
                }
                "enumerate" => {
                    let c = self.id(&format!("n{j}"), k);
                    setup.push(parse_quote!(let mut #c: usize = 0;));
                    ws.push(W::Let(parse_quote!(let #y = (#c, #cur);)));
                    ws.push(W::Let(parse_quote!(#c = #c + 1;)));
                    cur = parse_quote!(#y);
                }
                "skip" => {
                    let c = self.id(&format!("n{j}"), k);
                    let a = &args[0];
                    setup.push(parse_quote!(let mut #c: usize = #a;));
                    ws.push(W::Let(parse_quote!(if #c > 0 { #c = #c - 1; continue; })));
                }
                "take" => {
                    let c = self.id(&format!("n{j}"), k);
                    let a = &args[0];
                    setup.push(parse_quote!(let mut #c: usize = #a;));
                    ws.push(W::Let(parse_quote!(if #c == 0 { break; })));
                    ws.push(W::Let(parse_quote!(#c = #c - 1;)));
                }
                "into_iter" | "by_ref" => {}
                o => {
                    self.fail(format!("unsupported adaptor {o}"));
                    return vec![];
                }
            }
        }
        let mut inner: Vec<Stmt> = sink(self, cur);
        for w in ws.into_iter().rev() {
            match w {
                W::Let(s) => inner.insert(0, s),
                W::If(c) => inner = vec![parse_quote!(if #c { #(#inner)* })],
                W::Match(e, y) => {
                    inner = vec![parse_quote!(match #e { Some(#y) => { #(#inner)* } None => {} })]
                }
            }
        }
        match kind {
            Kind::While(c) => setup.push(parse_quote!(while #c { #(#pre_body)* #(#inner)* })),
            Kind::Iter if mesh_arg.is_some() => {
                // the iterator yields handles; each is dereferenced when it is used
                let m = mesh_arg.unwrap();
                setup.push(parse_quote!(
                    loop { match #it.next(#m) { None => { break; } Some(#x) => { let #x = #m.edge_mut(#x); #(#inner)* } } }
                ))
            }
            Kind::Iter => setup.push(parse_quote!(
                loop { match #it.next() { None => { break; } Some(#x) => { #(#inner)* } } }
            )),
        }
        setup
    }

    /// Lazily returned pipeline: materialise as an in-memory iterator.
    pub fn materialise(&mut self, e: &Expr) -> Option<Expr> {
        let (base, links) = chain(e);
        if links.is_empty() {
            return None;
        }
        if links.len() == 1 && links[0].0 == "into_iter" {
            if let Expr::Path(p) = &base {
                if p.path
                    .get_ident()
                    .map(|i| self.vecs.contains(&i.to_string()))
                    .unwrap_or(false)
                {
                    return Some(parse_quote!(GIter::from_vec(#base)));
                }
            }
        }
        let k = self.n;
        let res = self.id("res", k);
        let body = self.build(base, &links, &mut |_, x| vec![parse_quote!(#res.push(#x);)]);
        Some(parse_quote!({ let mut #res = Vec::new(); #(#body)* GIter::from_vec(#res) }))
    }

    fn pipeline(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        if TERM.contains(&name.as_str()) {
            let (base, mut links) = chain(e);
            let (t, args) = links.pop().unwrap();
            // `find`-like methods of Option / std types with a plain receiver are left alone
            let k = self.n;
            let res = self.id("res", k);
            let apply = |args: &Vec<Expr>, x: &Expr, by_ref: bool| -> Expr {
                let f = &args[0];
                let a: Expr = if by_ref { parse_quote!(&#x) } else { x.clone() };
                match closure(f) {
                    Some((ps, body)) if ps.len() == 1 => {
                        let p = pat_strip(&ps[0]);
                        parse_quote!({ let #p = #a; #body })
                    }
                    _ => parse_quote!(#f(#a)),
                }
            };
            let (init, fin): (Option<Stmt>, Option<Expr>) = match t.as_str() {
                "collect" | "collect_vec" => (
                    Some(parse_quote!(let mut #res = Vec::new();)),
                    Some(parse_quote!(#res)),
                ),
                "any" => (
                    Some(parse_quote!(let mut #res = false;)),
                    Some(parse_quote!(#res)),
                ),
                "all" => (
                    Some(parse_quote!(let mut #res = true;)),
                    Some(parse_quote!(#res)),
                ),
                "find" | "find_map" | "position" => (
                    Some(parse_quote!(let mut #res = None;)),
                    Some(parse_quote!(#res)),
                ),
                "count" => (
                    Some(parse_quote!(let mut #res: usize = 0;)),
                    Some(parse_quote!(#res)),
                ),
                _ => (None, None),
            };
            let body = self.build(base, &links, &mut |_, x| match t.as_str() {
                "collect" | "collect_vec" => vec![parse_quote!(#res.push(#x);)],
                "for_each" => {
                    let b = apply(&args, &x, false);
                    vec![parse_quote!({ #b; })]
                }
                "any" => {
                    let b = apply(&args, &x, false);
                    vec![parse_quote!(if #b { #res = true; break; })]
                }
                "all" => {
                    let b = apply(&args, &x, false);
                    vec![parse_quote!(if !#b { #res = false; break; })]
                }
                "find" => {
                    let b = apply(&args, &x, true);
                    vec![parse_quote!(if #b { #res = Some(#x); break; })]
                }
                "find_map" => {
                    let b = apply(&args, &x, false);
                    vec![
                        parse_quote!(match #b { Some(r) => { #res = Some(r); break; } None => {} }),
                    ]
                }
                "count" => vec![parse_quote!(#res = #res + 1;)],
                _ => vec![],
            });
            return Some(match (init, fin) {
                (Some(i), Some(f)) => parse_quote!({ #i #(#body)* #f }),
                _ => parse_quote!({ #(#body)* }),
            });
        }
        if CONSUME.contains(&name.as_str()) {
            if let Some(r) = self.materialise(&m.receiver) {
                let mut m = m.clone();
                *m.receiver = r;
                return Some(Expr::MethodCall(m));
            }
        }
        // comparing a pipeline with all elements of a vector
        if name == "eq" && m.args.len() == 1 {
            if let Expr::MethodCall(o) = unparen(m.args[0].clone()) {
                if o.method == "iter" && o.args.is_empty() {
                    if let Some(r) = self.materialise(&m.receiver) {
                        let y = &o.receiver;
                        return Some(parse_quote!((#r).vx_eq(#y.vx_ref())));
                    }
                }
            }
        }
        // Option::cloned
        if name == "cloned" && m.args.is_empty() {
            let r = &m.receiver;
            return Some(parse_quote!(match #r { Some(vx_c) => Some(vx_c.clone()), None => None }));
        }
        // an iterator handed on lazily (as an argument)
        if ["map", "filter", "filter_map"].contains(&name.as_str()) {
            let (base, links) = chain(e);
            let is_iter = links.first().map(|l| l.0 == "iter" || l.0 == "into_iter").unwrap_or(false)
                || matches!(unparen(base.clone()), Expr::Range(_));
            if is_iter {
                if let Some(r) = self.materialise(e) {
                    return Some(r);
                }
            }
        }
        // Option::map / filter_map style on a non-iterator
        if name == "map" && m.args.len() == 1 {
            if let Some((ps, body)) = closure(&m.args[0]) {
                let r = &m.receiver;
                let p = pat_strip(&ps[0]);
                return Some(parse_quote!(match #r { Some(#p) => Some(#body), None => None }));
            }
        }
        None
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Vec<Stmt> {
        let (base, links) = chain(&f.expr);
        let pat = (*f.pat).clone();
        let body = f.body.stmts.clone();
        self.build(base, &links, &mut |_, x| {
            let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #x;)];
            v.extend(body.clone());
            v
        })
    }
}

/// name of a local variable that is visibly a Vec
pub fn vec_local(s: &Stmt) -> Option<String> {
    if let Stmt::Local(l) = s {
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
            p => (p.clone(), None),
        };
        if let Pat::Ident(i) = pat {
            let mut isv = ty.map(|t| is_vec_ty(&t)).unwrap_or(false);
            if let Some(init) = &l.init {
                if let Expr::MethodCall(m) = &*init.expr {
                    if m.method == "collect_vec" {
                        isv = true;
                    }
                    if m.method == "collect" {
                        if let Some(t) = &m.turbofish {
                            let s = quote::quote!(#t).to_string();
                            if s.contains("Vec") {
                                isv = true;
                            }
                        }
                    }
                }
                if let Expr::Call(c) = &*init.expr {
                    if let Expr::Path(p) = &*c.func {
                        let seg: Vec<String> = p
                            .path
                            .segments
                            .iter()
                            .map(|s| s.ident.to_string())
                            .collect();
                        if seg.len() >= 2 && seg[seg.len() - 2] == "Vec" {
                            isv = true;
                        }
                    }
                }
                if let Expr::Macro(m) = &*init.expr {
                    if m.mac.path.is_ident("vec") {
                        isv = true;
                    }
                }
            }
            if isv {
                return Some(i.ident.to_string());
            }
        }
    }
    None
}

fn is_vec_ty(t: &syn::Type) -> bool {
    matches!(t, syn::Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Vec").unwrap_or(false))
}

impl VisitMut for Desugar {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            if let Some(n) = vec_local(&s) {
                self.vecs.insert(n);
            }
            if let Stmt::Expr(Expr::ForLoop(f), _) = &s {
                let stmts = self.for_loop(f);
                // keep scoping of the loop's temporaries
                let mut blk: syn::Block = parse_quote!({ #(#stmts)* });
                self.visit_block_mut(&mut blk);
                b.stmts.push(parse_quote!(#blk));
                continue;
            }
            self.visit_stmt_mut(&mut s);
            b.stmts.push(s);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = self.pipeline(e) {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Desugar {
    pub fn run(&mut self, b: &mut syn::Block) {
        self.visit_block_mut(b);
    }
}
