//! Signature and body rewriting rules.
use crate::desugar::Desugar;
use crate::source::{Found, Source};
use crate::{nospace, printer, Config, FnOpts};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, FnArg, Ident, Pat, Stmt, Type};

pub struct Out {
    pub text: String,
    pub skeleton: String,
    pub notes: Vec<String>,
}

// ---------------------------------------------------------------- types

pub struct TypeSub<'a> {
    pub types: &'a BTreeMap<String, String>,
    pub traits: &'a BTreeMap<String, Option<String>>,
}

fn key<T: ToTokens>(t: &T) -> String {
    nospace(&t.to_token_stream().to_string())
}

impl TypeSub<'_> {
    fn strip_args(&self, p: &mut syn::Path) {
        for s in p.segments.iter_mut() {
            if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                let keep: Vec<_> = a
                    .args
                    .iter()
                    .filter(|x| {
                        let k = key(x);
                        self.types.get(&k).map(|v| v != "_").unwrap_or(true)
                    })
                    .cloned()
                    .collect();
                if keep.is_empty() {
                    s.arguments = syn::PathArguments::None;
                } else if keep.len() != a.args.len() {
                    a.args = keep.into_iter().collect();
                }
            }
        }
    }
    fn sub_path_prefix(&self, p: &syn::Path) -> Option<syn::Path> {
        // longest prefix of the path that has a mapping
        for n in (1..=p.segments.len()).rev() {
            let pre: Vec<String> = p.segments.iter().take(n).map(key).collect();
            let k = pre.join("::");
            if let Some(v) = self.types.get(&k) {
                if v == "_" {
                    continue;
                }
                if let Ok(mut np) = syn::parse_str::<syn::Path>(v) {
                    for s in p.segments.iter().skip(n) {
                        np.segments.push(s.clone());
                    }
                    return Some(np);
                }
            }
        }
        None
    }
}

impl VisitMut for TypeSub<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Some(v) = self.types.get(&key(t)) {
            if let Ok(n) = syn::parse_str::<Type>(v) {
                *t = n;
                return;
            }
        }
        if let Type::ImplTrait(i) = t {
            // impl Iterator<Item = X> [+ 'a]  ->  GIter<X>
            for b in &i.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" || s.ident == "IntoIterator" {
                        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                            for g in &a.args {
                                if let syn::GenericArgument::AssocType(at) = g {
                                    let mut ty = at.ty.clone();
                                    self.visit_type_mut(&mut ty);
                                    *t = parse_quote!(GIter<#ty>);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        self.strip_args(p);
        if let Some(n) = self.sub_path_prefix(p) {
            *p = n;
        }
        self.strip_args(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // an associated constant may be given by a function of the template
        if let Expr::Path(p) = e {
            if let Some(v) = self.types.get(&key(&p.path)) {
                if v.ends_with("()") {
                    *e = syn::parse_str::<Expr>(v).unwrap();
                    return;
                }
            }
        }
        // UFCS through a known trait becomes a method call / inherent call
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let (owner, n) = if let Some(q) = &p.qself {
                    // <Type as Trait>::f(..) with a declared trait: the inherent function
                    let k = p.path.segments.len();
                    if k >= 2 && q.position == k - 1 && self.traits.contains_key(&p.path.segments[k - 2].ident.to_string()) {
                        let f = p.path.segments[k - 1].ident.clone();
                        let ty = &q.ty;
                        let args = &c.args;
                        *e = parse_quote!(<#ty>::#f(#args));
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                    (None, k)
                } else if p.path.segments.len() == 2 {
                    (Some(p.path.segments[0].ident.to_string()), 2)
                } else {
                    (None, p.path.segments.len())
                };
                let _ = n;
                if let Some(o) = owner {
                    if let Some(m) = self.traits.get(&o) {
                        let f = p.path.segments[1].ident.clone();
                        match m {
                            Some(ty) => {
                                let ty: syn::Path = syn::parse_str(ty).unwrap();
                                let args = &c.args;
                                *e = parse_quote!(#ty::#f(#args));
                            }
                            None => {
                                let mut it = c.args.iter().cloned();
                                if let Some(recv) = it.next() {
                                    let rest: Vec<Expr> = it.collect();
                                    *e = parse_quote!((#recv).#f(#(#rest),*));
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // type arguments are inferred, sizes are not
            let sized = m.turbofish.as_ref().is_some_and(|t| {
                t.args.iter().any(|a| matches!(a, syn::GenericArgument::Const(_)))
            });
            if !sized {
                m.turbofish = None;
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                if let Some(l) = p.path.segments.last_mut() {
                    if l.ident.to_string().starts_with(|c: char| c.is_lowercase()) {
                        l.arguments = syn::PathArguments::None;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- macros

struct Macros {
    dropped: Vec<String>,
    /// panics are allowed: nothing is claimed about a call that does not return
    mayfail: bool,
}

fn mac_args(m: &syn::Macro) -> Vec<Expr> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
    p.parse2(m.tokens.clone())
        .map(|x| x.into_iter().collect())
        .unwrap_or_default()
}

impl Macros {
    fn expand(&mut self, m: &syn::Macro) -> Option<Option<Expr>> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln"
            | "dbg" => {
                self.dropped.push(format!("{n}!({})", m.tokens));
                Some(None)
            }
            "assert" => {
                let a = mac_args(m);
                let c = &a[0];
                Some(Some(parse_quote!(rt_assert(#c))))
            }
            "assert_eq" => {
                let a = mac_args(m);
                let (x, y) = (&a[0], &a[1]);
                Some(Some(parse_quote!(rt_assert(#x == #y))))
            }
            "assert_ne" => {
                let a = mac_args(m);
                let (x, y) = (&a[0], &a[1]);
                Some(Some(parse_quote!(rt_assert(#x != #y))))
            }
            "panic" | "todo" | "unimplemented" if self.mayfail => {
                Some(Some(parse_quote!(rt_abort())))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                Some(Some(parse_quote!(rt_panic())))
            }
            // message texts are not part of any property
            "format" => Some(Some(parse_quote!(vx_string()))),
            _ => None,
        }
    }
}

/// A closure that always returns the same boolean literal states so (closures carry no
/// postcondition of their own).
struct ConstClosures;
impl VisitMut for ConstClosures {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Closure(c) = &*e else { return };
        let mut b = (*c.body).clone();
        while let Expr::Block(x) = &b {
            match x.block.stmts.as_slice() {
                [Stmt::Expr(y, None)] => b = y.clone(),
                _ => return,
            }
        }
        let Expr::Lit(syn::ExprLit { lit: syn::Lit::Bool(v), .. }) = b else { return };
        let mut ps: Vec<TokenStream> = Vec::new();
        for (k, p) in c.inputs.iter().enumerate() {
            let w = Ident::new(&format!("vx_w{k}"), Span::call_site());
            match p {
                Pat::Wild(_) => ps.push(quote!(#w)),
                Pat::Ident(i) => ps.push(i.to_token_stream()),
                Pat::Type(t) => match &*t.pat {
                    Pat::Wild(_) => {
                        let y = &t.ty;
                        ps.push(quote!(#w: #y))
                    }
                    _ => ps.push(t.to_token_stream()),
                },
                _ => return,
            }
        }
        *e = Expr::Verbatim(quote!(|#(#ps),*| -> (vx_r: bool) ensures vx_r == #v { #v }));
    }
}

/// Arguments taken as `impl IntoIterator` (named by `//@known iterarg:<function>:<position>`) are
/// turned into the iterator here instead of in the callee.
struct IterArgs<'a> {
    known: &'a BTreeSet<String>,
}
impl VisitMut for IterArgs<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (name, args) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), &mut m.args),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => (p.path.segments.last().unwrap().ident.to_string(), &mut c.args),
                _ => return,
            },
            _ => return,
        };
        for (k, a) in args.iter_mut().enumerate() {
            if !self.known.contains(&format!("iterarg:{name}:{k}")) {
                continue;
            }
            if let Expr::Array(x) = a {
                let v = Ident::new("vx_vec", Span::call_site());
                let xs = &x.elems;
                let xs = xs.iter();
                *a = parse_quote!({ let mut #v = Vec::new(); #(#v.push(#xs);)* #v });
            }
            *a = parse_quote!(#a.vx_iter());
        }
    }
}

impl VisitMut for Macros {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            if let Stmt::Macro(m) = &s {
                match self.expand(&m.mac) {
                    Some(None) => continue,
                    Some(Some(e)) => {
                        if m.semi_token.is_some() {
                            b.stmts.push(parse_quote!(#e;));
                        } else {
                            b.stmts.push(Stmt::Expr(e, None));
                        }
                        continue;
                    }
                    None => {}
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            b.stmts.push(s);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            match self.expand(&m.mac) {
                Some(Some(n)) => *e = n,
                Some(None) => *e = parse_quote!({}),
                None => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n == "matches" {
                        use syn::parse::Parser;
                        let ts = m.mac.tokens.clone();
                        let parser = |i: syn::parse::ParseStream| {
                            let e: Expr = i.parse()?;
                            i.parse::<syn::Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let _: Option<syn::Token![,]> = i.parse()?;
                            Ok((e, p))
                        };
                        if let Ok((x, p)) = parser.parse2(ts) {
                            *e = parse_quote!(match #x { #p => true, _ => false });
                        }
                    } else if n == "vec" {
                        let a = mac_args(&m.mac);
                        let rep: Option<(Expr, Expr)> = {
                            use syn::parse::Parser;
                            let parser = |i: syn::parse::ParseStream| {
                                let x: Expr = i.parse()?;
                                i.parse::<syn::Token![;]>()?;
                                let n: Expr = i.parse()?;
                                Ok((x, n))
                            };
                            parser.parse2(m.mac.tokens.clone()).ok()
                        };
                        if let Some((x, n)) = rep {
                            *e = parse_quote!(rt_vec(#x, #n));
                        } else if !a.is_empty() || m.mac.tokens.is_empty() {
                            // vec![a, b] -> pushes
                            let k = Ident::new("vx_vec", Span::call_site());
                            *e = parse_quote!({ let mut #k = Vec::new(); #(#k.push(#a);)* #k });
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `m[&k]` is a map lookup; `v.extend([a, b])` is `v.push(a); v.push(b)` after evaluating a and b
struct StdCalls<'a> {
    maps: bool,
    pairs: bool,
    /// a literal converted to the scalar type by `.into()`
    lits: bool,
    /// names whose `[]` goes through the crate's own Index implementations
    indexed: &'a BTreeSet<String>,
}
impl StdCalls<'_> {
    fn own_index(&self, i: &syn::ExprIndex, mutable: bool) -> Option<Expr> {
        let base = match &*i.expr {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => match &f.member {
                syn::Member::Named(n) => Some(format!(".{n}")),
                _ => None,
            },
            _ => None,
        }?;
        if !self.indexed.contains(&base) {
            return None;
        }
        let f = Ident::new(
            match (matches!(&*i.index, Expr::Tuple(_)), mutable) {
                (true, false) => "at2",
                (true, true) => "at2_mut",
                (false, false) => "at1",
                (false, true) => "at1_mut",
            },
            Span::call_site(),
        );
        let (m, k) = (&i.expr, &i.index);
        Some(parse_quote!((*#m.#f(#k))))
    }
}
impl VisitMut for StdCalls<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // places that are written
        let place = match e {
            Expr::Assign(a) => Some(&mut a.left),
            Expr::Reference(r) if r.mutability.is_some() => Some(&mut r.expr),
            Expr::Binary(b)
                if matches!(
                    b.op,
                    syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_)
                ) =>
            {
                Some(&mut b.left)
            }
            _ => None,
        };
        if let Some(p) = place {
            if let Expr::Index(i) = &**p {
                if let Some(n) = self.own_index(i, true) {
                    **p = n;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // a map turned into a list; the order asked for is not modelled
        if let Expr::MethodCall(m) = e {
            if self.pairs && m.method.to_string().starts_with("sorted") {
                if let Expr::MethodCall(r) = &*m.receiver {
                    if r.method == "into_iter" {
                        let x = &r.receiver;
                        *e = parse_quote!(#x.vx_pairs());
                        return;
                    }
                }
            }
        }
        if let Expr::Index(i) = e {
            if let Some(n) = self.own_index(i, false) {
                *e = n;
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if self.lits && m.method == "into" && m.args.is_empty() {
                if let Expr::Lit(l) = &*m.receiver {
                    if let syn::Lit::Float(f) = &l.lit {
                        let v: f64 = f.base10_parse().unwrap_or(0.25);
                        if v == 0.5 {
                            *e = parse_quote!(S::half());
                        } else if v.fract() == 0.0 && v >= 0.0 {
                            let n = syn::LitInt::new(&format!("{}", v as u64), Span::call_site());
                            *e = parse_quote!(S::from_usize(#n));
                        }
                        return;
                    }
                }
            }
        }
        if let Expr::Index(i) = e {
            if self.maps && matches!(&*i.index, Expr::Reference(_)) {
                let (m, k) = (&i.expr, &i.index);
                *e = parse_quote!((*hm_at(&#m, #k)));
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "extend" && m.args.len() == 1 {
                if let Expr::Array(a) = &m.args[0] {
                    let r = &m.receiver;
                    let n: Vec<Ident> = (0..a.elems.len())
                        .map(|k| Ident::new(&format!("vx_e{k}"), Span::call_site()))
                        .collect();
                    let el = a.elems.iter();
                    *e = parse_quote!({ #(let #n = #el;)* #(#r.push(#n);)* });
                }
            }
        }
    }
}

// ---------------------------------------------------------------- inlining

struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_ident(&mut self, i: &'a Ident) {
        self.0.insert(i.to_string());
    }
}
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
        self.0.insert(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
}
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

struct SelfSub(Expr);
impl VisitMut for SelfSub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// A trailing `return x;` becomes a tail expression. Also inside tail if/match/else blocks.
fn tail_return(b: &mut syn::Block) {
    if let Some(last) = b.stmts.last_mut() {
        let mut repl = None;
        match last {
            Stmt::Expr(Expr::Return(r), _) => {
                repl = r.expr.as_ref().map(|e| Stmt::Expr((**e).clone(), None));
            }
            Stmt::Expr(e, None) => tail_return_expr(e),
            _ => {}
        }
        if let Some(r) = repl {
            *last = r;
        }
    }
}
fn tail_return_expr(e: &mut Expr) {
    match e {
        Expr::If(i) => {
            tail_return(&mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                tail_return_expr(e)
            }
        }
        Expr::Block(b) => tail_return(&mut b.block),
        Expr::Match(m) => {
            for a in &mut m.arms {
                tail_return_expr(&mut a.body)
            }
        }
        Expr::Return(r) => {
            if let Some(x) = &r.expr {
                *e = (**x).clone()
            }
        }
        _ => {}
    }
}

/// Lowering of a raw-pointer iterator: `self.mesh` becomes the explicit parameter `mesh`, a pointer
/// obtained by `mesh.edge_mut(id) as *mut _` is represented by `id` and dereferenced at its use.
struct Handles {
    ptrs: BTreeSet<String>,
    bad: bool,
}
impl VisitMut for Handles {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) {
                    if let Expr::Cast(c) = &*init.expr {
                        if matches!(&*c.ty, Type::Ptr(_)) {
                            if let Expr::MethodCall(m) = &*c.expr {
                                if m.method == "edge_mut" && m.args.len() == 1 {
                                    self.ptrs.insert(i.ident.to_string());
                                    let a = m.args[0].clone();
                                    *init.expr = a;
                                }
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let repl: Option<Expr> = match e {
            Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if n == "mesh") => {
                Some(parse_quote!(mesh))
            }
            Expr::Unsafe(u) => {
                let b = &u.block;
                Some(if b.stmts.len() == 1 {
                    parse_quote!(#b)
                } else {
                    parse_quote!(#b)
                })
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Unary(u) = &*r.expr {
                    if let (syn::UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                        if p.path
                            .get_ident()
                            .map(|i| self.ptrs.contains(&i.to_string()))
                            .unwrap_or(false)
                        {
                            Some((*u.expr).clone())
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Struct(s) => {
                s.fields = std::mem::take(&mut s.fields)
                    .into_iter()
                    .filter(|f| !matches!(&f.member, syn::Member::Named(n) if n == "mesh"))
                    .collect();
                None
            }
            Expr::Call(c) => {
                let is_new = matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[1].ident == "new");
                if is_new {
                    c.args = std::mem::take(&mut c.args)
                        .into_iter()
                        .filter(|a| !matches!(a, Expr::Path(p) if p.path.is_ident("mesh")))
                        .collect();
                }
                None
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if matches!(&*u.expr, Expr::Path(p) if p.path.get_ident().map(|i| self.ptrs.contains(&i.to_string())).unwrap_or(false))
                {
                    self.bad = true;
                }
                None
            }
            _ => None,
        };
        if let Some(r) = repl {
            *e = r;
        }
    }
}

struct Inline<'a> {
    cfg: &'a Config,
    src: &'a Source,
    file: String,
    no_inline: &'a BTreeSet<String>,
    closures: HashMap<String, syn::ExprClosure>,
    depth: usize,
    notes: Vec<String>,
}

const STD: &[&str] = &[
    "clone",
    "unwrap",
    "expect",
    "is_some",
    "is_none",
    "push",
    "pop",
    "len",
    "new",
    "default",
    "max",
    "min",
    "get",
    "insert",
    "contains",
    "contains_key",
    "next",
    "into_iter",
    "rev",
    "zip",
    "extend",
    "swap",
    "eq",
    "ne",
    "cmp",
    "from",
    "into",
    "as_ref",
    "is_empty",
    "last",
    "first",
    "clear",
    "sqrt",
    "abs",
    "sin",
    "cos",
    "tan",
    "pow",
    "map",
    "filter",
    "find",
    "any",
    "all",
    "count",
    "collect",
    "index",
    "id",
    "fmt",
    "call",
    "add",
    "sub",
    "mul",
    "div",
    "neg",
    "set",
    "sort",
    "reverse",
    "remove",
    "retain",
    "allocate",
    "view",
];

impl Inline<'_> {
    fn inline_found(&mut self, f: &Found, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 6 {
            return None;
        }
        let mut block = f.block.clone();
        tail_return(&mut block);
        let mut hr = HasReturn(false);
        hr.visit_block(&block);
        if hr.0 {
            return None;
        }
        let mut pats: Vec<Pat> = Vec::new();
        let mut tys: Vec<Type> = Vec::new();
        let mut self_kind: Option<syn::Receiver> = None;
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => self_kind = Some(r.clone()),
                FnArg::Typed(t) => {
                    pats.push((*t.pat).clone());
                    tys.push((*t.ty).clone());
                }
            }
        }
        let mut args = args;
        let mut recv = recv;
        if self_kind.is_some() && recv.is_none() {
            if args.is_empty() {
                return None;
            }
            recv = Some(args.remove(0));
        }
        if pats.len() != args.len() {
            return None;
        }
        let mut pre: Vec<Stmt> = Vec::new();
        if let (Some(k), Some(r)) = (&self_kind, recv) {
            let simple = matches!(&r, Expr::Path(_))
                || matches!(&r, Expr::Field(fe) if matches!(&*fe.base, Expr::Path(_)));
            let target: Expr = if simple {
                let mut b = Bound(BTreeSet::new());
                b.visit_block(&block);
                for p in &pats {
                    b.visit_pat(p);
                }
                let mut ids = Idents(BTreeSet::new());
                ids.visit_expr(&r);
                if ids.0.iter().any(|i| i != "self" && b.0.contains(i)) {
                    return None;
                }
                r
            } else {
                let n = Ident::new(&format!("vx_self_{}", self.depth), Span::call_site());
                if k.reference.is_some() {
                    if k.mutability.is_some() {
                        return None;
                    }
                    pre.push(parse_quote!(let #n = &#r;));
                } else {
                    pre.push(parse_quote!(let #n = #r;));
                }
                parse_quote!(#n)
            };
            SelfSub(target).visit_block_mut(&mut block);
        }
        if !pats.is_empty() {
            let gen = f.sig.generics.type_params().next().is_some()
                || tys.iter().any(|t| matches!(t, Type::ImplTrait(_)));
            if pats.len() == 1 {
                let (p, a, t) = (&pats[0], &args[0], &tys[0]);
                if gen {
                    pre.push(parse_quote!(let #p = #a;));
                } else {
                    pre.push(parse_quote!(let #p: #t = #a;));
                }
            } else if gen {
                pre.push(parse_quote!(let (#(#pats),*) = (#(#args),*);));
            } else {
                pre.push(parse_quote!(let (#(#pats),*): (#(#tys),*) = (#(#args),*);));
            }
        }
        self.notes
            .push(format!("inlined {} ({}:{})", f.sig.ident, f.file, f.line));
        self.depth += 1;
        let file = std::mem::replace(&mut self.file, f.file.clone());
        self.visit_block_mut(&mut block);
        self.file = file;
        self.depth -= 1;
        if pre.is_empty() && block.stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &block.stmts[0] {
                let e = e.clone();
                return Some(
                    if matches!(
                        e,
                        Expr::Path(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Call(_)
                    ) {
                        e
                    } else {
                        parse_quote!((#e))
                    },
                );
            }
        }
        let stmts = &block.stmts;
        Some(parse_quote!({ #(#pre)* #(#stmts)* }))
    }

    fn candidate(&self, name: &str) -> Option<Found> {
        if self.cfg.known_fns.contains(name) || self.no_inline.contains(name) || STD.contains(&name)
        {
            return None;
        }
        let mut v = self.src.find_any(name, &self.file);
        if v.len() == 1 {
            v.pop()
        } else {
            None
        }
    }
}

impl VisitMut for Inline<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        let mut hr = HasReturn(false);
                        hr.visit_expr(&c.body);
                        if !hr.0 && i.mutability.is_none() {
                            let mut c = c.clone();
                            self.visit_expr_mut(&mut c.body);
                            self.closures.insert(i.ident.to_string(), c);
                            continue;
                        }
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            b.stmts.push(s);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let repl: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let dv = matches!(&*m.receiver, Expr::Field(f)
                    if matches!(&f.member, syn::Member::Named(n) if n == "vertices" || n == "halfedges" || n == "faces"));
                if (name == "iter" || name == "iter_mut")
                    && dv
                    && self.cfg.known_fns.contains(&format!("live_{name}"))
                    && !self.no_inline.contains(&name)
                {
                    let r = &m.receiver;
                    let f = syn::Ident::new(&format!("live_{name}"), proc_macro2::Span::call_site());
                    Some(parse_quote!(#r.#f()))
                } else if (name == "iter" || name == "iter_mut")
                    && dv
                    && !self.no_inline.contains(&name)
                {
                    let f = self.src.find_fn(&format!(
                        "src/util/deletable.rs impl DeletableVector :: {name}"
                    ));
                    f.ok().and_then(|f| {
                        self.inline_found(
                            &f,
                            Some((*m.receiver).clone()),
                            m.args.iter().cloned().collect(),
                        )
                    })
                } else if crate::desugar::ADAPT.contains(&name.as_str())
                    || crate::desugar::TERM.contains(&name.as_str())
                {
                    None
                } else {
                    self.candidate(&name).and_then(|f| {
                        self.inline_found(
                            &f,
                            Some((*m.receiver).clone()),
                            m.args.iter().cloned().collect(),
                        )
                    })
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(id) = p.path.get_ident() {
                        if let Some(cl) = self.closures.get(&id.to_string()).cloned() {
                            let pats: Vec<Pat> = cl.inputs.iter().cloned().collect();
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            let body = &cl.body;
                            let mut pre: Vec<Stmt> = Vec::new();
                            if pats.len() == 1 {
                                let (p, a) = (&pats[0], &args[0]);
                                pre.push(parse_quote!(let #p = #a;));
                            } else if pats.len() > 1 {
                                let (mut ps, mut ts) = (Vec::new(), Vec::<Type>::new());
                                for p in &pats {
                                    match p {
                                        Pat::Type(t) => {
                                            ps.push((*t.pat).clone());
                                            ts.push((*t.ty).clone());
                                        }
                                        p => {
                                            ps.push(p.clone());
                                            ts.push(parse_quote!(_));
                                        }
                                    }
                                }
                                pre.push(parse_quote!(let (#(#ps),*): (#(#ts),*) = (#(#args),*);));
                            }
                            Some(parse_quote!({ #(#pre)* #body }))
                        } else {
                            self.candidate(&id.to_string()).and_then(|f| {
                                self.inline_found(&f, None, c.args.iter().cloned().collect())
                            })
                        }
                    } else if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                        let n = p.path.segments[1].ident.to_string();
                        self.candidate(&n).and_then(|f| {
                            self.inline_found(&f, None, c.args.iter().cloned().collect())
                        })
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(r) = repl {
            *e = r;
        }
    }
}

// ---------------------------------------------------------------- loops and call markers

struct Mark<'a> {
    n: usize,
    opts: &'a FnOpts,
    skeleton: Vec<String>,
    calls: HashMap<String, usize>,
    used_calls: BTreeSet<(String, usize)>,
}

struct CallNames(Vec<String>);
impl<'a> Visit<'a> for CallNames {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
        visit::visit_expr_call(self, m);
        if let Expr::Path(p) = &*m.func {
            self.0
                .push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
    fn visit_block(&mut self, _: &'a syn::Block) {}
}

/// `let &p = e;` becomes `let p = *e;`, also inside tuple patterns
struct DerefPats;
impl DerefPats {
    fn strip(p: &mut Pat, post: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                if let Pat::Ident(i) = &*r.pat {
                    let n = i.ident.clone();
                    post.push(parse_quote!(let #i = *#n;));
                    *p = parse_quote!(#n);
                }
            }
            Pat::Tuple(t) => {
                for q in t.elems.iter_mut() {
                    Self::strip(q, post);
                }
            }
            _ => {}
        }
    }
}
/// `use path::Name` / `use path::Trait as _` inside a body: the names are already in scope in the unit.
fn droppable_use(t: &syn::UseTree) -> bool {
    match t {
        syn::UseTree::Path(p) => droppable_use(&p.tree),
        syn::UseTree::Name(n) => n.ident.to_string().starts_with(|c: char| c.is_uppercase()),
        syn::UseTree::Rename(r) => r.rename == "_",
        syn::UseTree::Group(g) => g.items.iter().all(droppable_use),
        syn::UseTree::Glob(_) => false,
    }
}
impl VisitMut for DerefPats {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Use(u)) if droppable_use(&u.tree)));
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            visit_mut::visit_stmt_mut(self, &mut s);
            let mut post = Vec::new();
            if let Stmt::Local(l) = &mut s {
                Self::strip(&mut l.pat, &mut post);
            }
            b.stmts.push(s);
            b.stmts.extend(post);
        }
    }
}

fn marker(kind: &str, k: usize) -> Stmt {
    let m = Ident::new(&format!("vx_mark_{kind}_{k}_"), Span::call_site());
    parse_quote!(#m!();)
}

impl VisitMut for Mark<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            // number the calls evaluated directly by this statement (not in nested blocks)
            let mut befores = Vec::new();
            let mut afters = Vec::new();
            let mut cn = CallNames(vec![]);
            cn.visit_stmt(&s);
            for n in cn.0 {
                let k = self.calls.entry(n.clone()).or_insert(0);
                let id = (n, *k);
                *k += 1;
                if let Some(_) = self.opts.befores.get(&id) {
                    befores.push(id.clone());
                }
                if let Some(_) = self.opts.calls.get(&id) {
                    afters.push(id.clone());
                }
            }
            for (n, k) in befores {
                self.used_calls.insert((n.clone(), k));
                b.stmts.push(marker(&format!("before_{n}"), k));
            }
            let loopid = self.n;
            let is_loop = matches!(
                &s,
                Stmt::Expr(Expr::Loop(_), _)
                    | Stmt::Expr(Expr::While(_), _)
                    | Stmt::Expr(Expr::ForLoop(_), _)
            );
            visit_mut::visit_stmt_mut(self, &mut s);
            b.stmts.push(s);
            for (n, k) in afters {
                self.used_calls.insert((n.clone(), k));
                b.stmts.push(marker(&format!("after_{n}"), k));
            }
            if is_loop && self.opts.after.contains_key(&loopid) {
                b.stmts.push(marker("lafter", loopid));
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let k = self.n;
        let body = match e {
            Expr::Loop(l) => {
                self.skeleton.push("loop".into());
                Some(&mut l.body)
            }
            Expr::While(w) => {
                self.skeleton.push("while".into());
                Some(&mut w.body)
            }
            Expr::ForLoop(w) => {
                self.skeleton.push("for".into());
                Some(&mut w.body)
            }
            _ => None,
        };
        if let Some(b) = body {
            self.n += 1;
            b.stmts.insert(0, marker("loop", k));
            if self.opts.lend.contains_key(&k) {
                let m = marker("lend", k);
                // a last `()` expression becomes a statement
                if let Some(Stmt::Expr(Expr::Assign(_) | Expr::Binary(_) | Expr::MethodCall(_) | Expr::Call(_), semi)) = b.stmts.last_mut() {
                    *semi = semi.or(Some(Default::default()));
                }
                b.stmts.push(m);
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- emission

pub fn print_struct(s: &syn::ItemStruct, cfg: &Config) -> String {
    let mut s = s.clone();
    let mut ts = TypeSub {
        types: &cfg.types,
        traits: &cfg.traits,
    };
    for f in s.fields.iter_mut() {
        f.attrs.clear();
        f.vis = syn::Visibility::Inherited;
        ts.visit_type_mut(&mut f.ty);
    }
    let lts: Vec<_> = s.generics.lifetimes().map(|l| l.lifetime.clone()).collect();
    let tps: Vec<_> = s
        .generics
        .type_params()
        .filter(|t| !cfg.types.contains_key(&t.ident.to_string()))
        .map(|t| {
            let mut t = t.clone();
            t.attrs.clear();
            for b in t.bounds.iter_mut() {
                if let syn::TypeParamBound::Trait(tb) = b {
                    ts.visit_path_mut(&mut tb.path);
                }
            }
            t
        })
        .collect();
    let name = &s.ident;
    let fields: Vec<TokenStream> = s.fields.iter().map(|f| quote!(#f)).collect();
    let gen = if lts.is_empty() && tps.is_empty() {
        quote!()
    } else {
        quote!(<#(#lts,)* #(#tps),*>)
    };
    let t = quote!(struct #name #gen { #(#fields),* });
    printer::print(t)
}

pub fn print_enum(e: &syn::ItemEnum, cfg: &Config) -> String {
    let mut e = e.clone();
    let mut ts = TypeSub {
        types: &cfg.types,
        traits: &cfg.traits,
    };
    let mut vars: Vec<TokenStream> = Vec::new();
    for v in e.variants.iter_mut() {
        v.attrs.clear();
        for f in v.fields.iter_mut() {
            f.attrs.clear();
            f.vis = syn::Visibility::Inherited;
            ts.visit_type_mut(&mut f.ty);
        }
        vars.push(quote!(#v));
    }
    let name = &e.ident;
    printer::print(quote!(enum #name { #(#vars),* }))
}

pub fn emit_fn(
    f: &Found,
    cfg: &Config,
    opts: &FnOpts,
    src: &Source,
    external: bool,
) -> Result<Out, String> {
    let mut notes = Vec::new();
    let mut block = f.block.clone();
    let mut prologue: Vec<Stmt> = Vec::new();
    if opts.handles {
        let mut h = Handles {
            ptrs: BTreeSet::new(),
            bad: false,
        };
        h.visit_block_mut(&mut block);
    }
    // signature
    let mut params: Vec<TokenStream> = Vec::new();
    let mut pn = 0;
    let mut tsub = TypeSub {
        types: &opts.types,
        traits: &cfg.traits,
    };
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                if let Some(rv) = &opts.recv {
                    params.push(rv.parse().unwrap());
                } else if r.reference.is_none() && r.mutability.is_some() {
                    params.push(quote!(self));
                    prologue.push(parse_quote!(let mut vx_self = self;));
                } else {
                    params.push(quote!(#r));
                }
            }
            FnArg::Typed(t)
                if opts.handles && matches!(&*t.pat, Pat::Ident(i) if i.ident == "mesh") => {}
            FnArg::Typed(t) => {
                let mut ty = (*t.ty).clone();
                let name = match &*t.pat {
                    Pat::Ident(i) => {
                        if i.mutability.is_some() {
                            let id = &i.ident;
                            prologue.push(parse_quote!(let mut #id = #id;));
                        }
                        i.ident.clone()
                    }
                    p => {
                        let n = Ident::new(&format!("p{pn}"), Span::call_site());
                        match p {
                            // an array taken apart: element by element
                            Pat::Slice(sl) if !sl.elems.iter().any(|q| matches!(q, Pat::Rest(_))) => {
                                for (k, q) in sl.elems.iter().enumerate() {
                                    let k = syn::Index::from(k);
                                    prologue.push(parse_quote!(let #q = #n[#k];));
                                }
                            }
                            p => prologue.push(parse_quote!(let #p = #n;)),
                        }
                        n
                    }
                };
                pn += 1;
                if let Some((_, o)) = opts.params.iter().find(|(k, _)| name == k.as_str()) {
                    let o: TokenStream = o.parse().unwrap();
                    params.push(quote!(#name: #o));
                } else {
                    tsub.visit_type_mut(&mut ty);
                    params.push(quote!(#name: #ty));
                }
            }
        }
    }
    for (k, t) in &opts.params {
        // additional ghost parameters
        if let Some(k) = k.strip_prefix('+') {
            let k: TokenStream = k.parse().unwrap();
            let t: TokenStream = t.parse().unwrap();
            params.push(quote!(#k: #t));
        }
    }
    let name = Ident::new(
        opts.name.as_deref().unwrap_or(&f.sig.ident.to_string()),
        Span::call_site(),
    );
    let gen: TokenStream = match &opts.generics {
        Some(g) => g.parse().unwrap(),
        None => {
            let l: Vec<_> = f
                .sig
                .generics
                .lifetimes()
                .map(|l| l.lifetime.clone())
                .collect();
            if l.is_empty() {
                quote!()
            } else {
                quote!(<#(#l),*>)
            }
        }
    };
    let lazy =
        matches!(&f.sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, Type::ImplTrait(_)));
    let mut rt: Option<TokenStream> = match &f.sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            tsub.visit_type_mut(&mut t);
            Some(quote!(#t))
        }
    };
    if let Some(r) = &opts.retty {
        rt = Some(r.parse().unwrap());
    }
    let ret = match (&rt, &opts.ret) {
        (None, _) => String::new(),
        (Some(t), Some(n)) => format!(" -> ({n}: {})", printer::print(t.clone()).trim()),
        (Some(t), None) => format!(" -> {}", printer::print(t.clone()).trim()),
    };
    // body
    let mut inl = Inline {
        cfg,
        src,
        file: f.file.clone(),
        no_inline: &opts.no_inline,
        closures: HashMap::new(),
        depth: 0,
        notes: Vec::new(),
    };
    let mut mac = Macros {
        dropped: vec![],
        mayfail: opts.mayfail,
    };
    mac.visit_block_mut(&mut block);
    inl.visit_block_mut(&mut block);
    mac.visit_block_mut(&mut block);
    StdCalls {
        maps: cfg.known_fns.contains("hm_at"),
        pairs: cfg.known_fns.contains("vx_pairs"),
        lits: cfg.known_fns.contains("from_usize"),
        indexed: &opts.indexed,
    }
    .visit_block_mut(&mut block);
    let mut d = Desugar {
        n: 0,
        vecs: BTreeSet::new(),
        error: None,
    };
    if lazy || !opts.post.is_empty() {
        tail_return(&mut block);
    }
    if lazy {
        for s in &block.stmts {
            if let Some(n) = crate::desugar::vec_local(s) {
                d.vecs.insert(n);
            }
        }
        if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
            if let Some(n) = d.materialise(e) {
                *e = n;
            }
        }
    }
    d.run(&mut block);
    ConstClosures.visit_block_mut(&mut block);
    IterArgs { known: &cfg.known_fns }.visit_block_mut(&mut block);
    if !opts.indexed.is_empty() {
        // element accesses written out from iterator pipelines
        StdCalls { maps: false, pairs: false, lits: false, indexed: &opts.indexed }.visit_block_mut(&mut block);
    }
    if let Some(e) = d.error {
        if !external {
            return Err(e);
        }
    }
    let mut all = syn::Block {
        brace_token: Default::default(),
        stmts: prologue,
    };
    all.stmts.extend(block.stmts);
    let mut block = all;
    DerefPats.visit_block_mut(&mut block);
    tsub.visit_block_mut(&mut block);
    let mut mk = Mark {
        n: 0,
        opts,
        skeleton: vec![],
        calls: HashMap::new(),
        used_calls: BTreeSet::new(),
    };
    mk.visit_block_mut(&mut block);
    let nloops = mk.n;
    let skeleton = mk.skeleton.join(" ; ");
    if !external {
        for k in opts
            .loops
            .keys()
            .chain(opts.lstart.keys())
            .chain(opts.lend.keys())
            .chain(opts.after.keys())
        {
            if *k >= nloops {
                return Err(format!("lost anchor: loop {k}"));
            }
        }
        for k in opts.calls.keys().chain(opts.befores.keys()) {
            if !mk.used_calls.contains(k) {
                return Err(format!("lost anchor: call {} #{}", k.0, k.1));
            }
        }
    }
    notes.extend(inl.notes);
    if !mac.dropped.is_empty() {
        notes.push(format!(
            "dropped {} debug-only/print macro(s)",
            mac.dropped.len()
        ));
    }
    let mut body = printer::print(block.to_token_stream());
    // splice markers
    for k in 0..nloops {
        let inv = opts.loops.get(&k).cloned().unwrap_or_default();
        let start = opts.lstart.get(&k).cloned().unwrap_or_default();
        let m = format!("vx_mark_loop_{k}_");
        let p = body.find(&m).ok_or("marker lost")?;
        let e = body[p..].find(';').unwrap() + p + 1;
        let open = body[..p].rfind('{').unwrap();
        body = format!("{}\n{}{{\n{}{}", &body[..open], inv, start, &body[e..]);
    }
    let simple = |body: &mut String, m: String, txt: &str| {
        if let Some(p) = body.find(&m) {
            let e = body[p..].find(';').unwrap() + p + 1;
            *body = format!("{}\n{}\n{}", &body[..p], txt, &body[e..]);
        }
    };
    for (k, t) in &opts.lend {
        simple(&mut body, format!("vx_mark_lend_{k}_"), t);
    }
    for (k, t) in &opts.after {
        simple(&mut body, format!("vx_mark_lafter_{k}_"), t);
    }
    for ((n, k), t) in &opts.calls {
        simple(&mut body, format!("vx_mark_after_{n}_{k}_"), t);
    }
    for ((n, k), t) in &opts.befores {
        simple(&mut body, format!("vx_mark_before_{n}_{k}_"), t);
    }
    if cfg.probe && !external {
        let p = body.find('{').unwrap();
        body = format!(
            "{{\nproof {{ assert(false); }} // vacuity probe\n{}",
            &body[p + 1..]
        );
    }
    if !opts.post.is_empty() {
        body = format!("{{ let vx_ret = {body};\n{}\n vx_ret }}\n", opts.post);
    }
    if !opts.pre.is_empty() {
        let p = body.find('{').unwrap();
        body = format!("{{\n{}{}", opts.pre, &body[p + 1..]);
    }
    let mut text = format!("// from {}:{}\n", f.file, f.line);
    for a in &opts.attrs {
        text.push_str(a);
        text.push('\n');
    }
    if external {
        text.push_str("#[verifier::external_body]\n");
        body = "{ unimplemented!() }\n".into();
    }
    let sig = format!(
        "fn {name} {} ( {} ){ret}{}\n",
        printer::print(gen),
        params
            .iter()
            .map(|p| printer::print(p.clone()).replace('\n', " "))
            .collect::<Vec<_>>()
            .join(", "),
        opts.wher
            .as_ref()
            .map(|w| format!("\n    where {w}"))
            .unwrap_or_default()
    );
    text.push_str(&sig);
    text.push_str(&opts.contract);
    text.push_str(&body);
    Ok(Out {
        text,
        skeleton,
        notes,
    })
}
