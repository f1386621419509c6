//! Mechanical extraction of real functions of the crate under test into a Verus file.
//!
//! The template (a unit) is ordinary Verus text with `//@` directives; every `//@fn` directive is
//! replaced by the *current* source text of that function, rewritten by the rules in `rewrite.rs`,
//! with the contract of the template spliced between signature and body.
mod desugar;
mod printer;
mod rewrite;
mod source;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;

pub struct Config {
    pub types: BTreeMap<String, String>,
    pub traits: BTreeMap<String, Option<String>>,
    pub vars: BTreeMap<String, String>,
    pub known_fns: BTreeSet<String>,
    pub external: BTreeSet<String>,
    /// insert `assert(false)` at the start of every body: each must then fail
    pub probe: bool,
}

#[derive(Default, Clone)]
pub struct FnOpts {
    pub ret: Option<String>,
    pub name: Option<String>,
    pub retty: Option<String>,
    pub recv: Option<String>,
    pub generics: Option<String>,
    pub wher: Option<String>,
    pub types: BTreeMap<String, String>,
    pub params: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub contract: String,
    pub pre: String,
    pub post: String,
    pub loops: HashMap<usize, String>,
    pub lstart: HashMap<usize, String>,
    pub lend: HashMap<usize, String>,
    pub after: HashMap<usize, String>,
    pub calls: HashMap<(String, usize), String>,
    pub befores: HashMap<(String, usize), String>,
    pub no_inline: BTreeSet<String>,
    /// the struct's `mesh` field is passed explicitly and element pointers are represented by handles
    pub handles: bool,
    pub mayfail: bool,
    pub indexed: BTreeSet<String>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Emitted {
    id: String,
    file: String,
    line: usize,
    start: usize,
    end: usize,
    external: bool,
    error: Option<String>,
    skeleton: String,
    notes: Vec<String>,
}

fn main() {
    let mut repo = PathBuf::from("/repo");
    let mut unit = PathBuf::new();
    let mut out = PathBuf::new();
    let mut map = PathBuf::new();
    let mut cfg = Config {
        types: BTreeMap::new(),
        traits: BTreeMap::new(),
        vars: BTreeMap::new(),
        known_fns: BTreeSet::new(),
        external: BTreeSet::new(),
        probe: false,
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("argument value");
        match k.as_str() {
            "--repo" => repo = v().into(),
            "--unit" => unit = v().into(),
            "--out" => out = v().into(),
            "--map" => map = v().into(),
            "--probe" => cfg.probe = v() == "1",
            "--external" => {
                cfg.external.insert(v());
            }
            "--set" => {
                let s = v();
                let (x, y) = s.split_once('=').unwrap();
                cfg.vars.insert(x.into(), y.into());
            }
            _ => panic!("unknown argument {k}"),
        }
    }
    let src = source::Source::load(&repo);
    let text = load_template(&unit, &cfg, &mut BTreeSet::new());
    // names that have a contract or a definition in the template
    for l in text.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@fn ") {
            if let Some((_, n)) = r.rsplit_once("::") {
                cfg.known_fns.insert(n.trim().to_string());
            }
        } else if !t.starts_with("//") {
            let mut rest = t;
            while let Some(p) = rest.find("fn ") {
                let n: String = rest[p + 3..]
                    .chars()
                    .take_while(|c| c.is_alphanumeric() || *c == '_')
                    .collect();
                if !n.is_empty() {
                    cfg.known_fns.insert(n);
                }
                rest = &rest[p + 3..];
            }
        }
        if let Some(n) = t.strip_prefix("//@name ") {
            cfg.known_fns.insert(n.trim().to_string());
        }
        if let Some(n) = t.strip_prefix("//@known ") {
            for x in n.split_whitespace() {
                cfg.known_fns.insert(x.to_string());
            }
        }
    }
    let mut o = String::new();
    let mut emitted: Vec<Emitted> = Vec::new();
    let mut errors: Vec<String> = src.errors.clone();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        i += 1;
        if let Some(r) = t.strip_prefix("//@types ") {
            for kv in r.split(';') {
                if let Some((k, v)) = kv.split_once('=') {
                    cfg.types.insert(nospace(k), v.trim().into());
                }
            }
        } else if let Some(r) = t.strip_prefix("//@traits ") {
            for k in r.split_whitespace() {
                if let Some((k, v)) = k.split_once('=') {
                    cfg.traits.insert(k.into(), Some(v.into()));
                } else {
                    cfg.traits.insert(k.into(), None);
                }
            }
        } else if t.starts_with("//@known ") {
        } else if let Some(r) = t.strip_prefix("//@struct ") {
            let mut p = r.split_whitespace();
            let (f, n) = (p.next().unwrap(), p.next().unwrap());
            match src.find_struct(f, n) {
                Some(mut s) => {
                    for dropped in p {
                        if let syn::Fields::Named(n) = &mut s.fields {
                            n.named = std::mem::take(&mut n.named)
                                .into_iter()
                                .filter(|f| f.ident.as_ref().map(|i| i != dropped).unwrap_or(true))
                                .collect();
                        }
                        s.generics = Default::default();
                    }
                    o.push_str(&rewrite::print_struct(&s, &cfg))
                }
                None => errors.push(format!("struct {n} not found in {f}")),
            }
        } else if let Some(r) = t.strip_prefix("//@enum ") {
            let mut p = r.split_whitespace();
            let (f, n) = (p.next().unwrap(), p.next().unwrap());
            match src.find_enum(f, n) {
                Some(e) => o.push_str(&rewrite::print_enum(&e, &cfg)),
                None => errors.push(format!("enum {n} not found in {f}")),
            }
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let header = r.to_string();
            let mut opts = FnOpts::default();
            opts.types = cfg.types.clone();
            enum Sec {
                Contract,
                Pre,
                Post,
                Loop(usize),
                LStart(usize),
                LEnd(usize),
                After(usize),
                Call(String, usize),
                Before(String, usize),
            }
            let mut sec = Sec::Contract;
            while i < lines.len() {
                let l = lines[i];
                let t = l.trim();
                i += 1;
                if t == "//@endfn" {
                    break;
                }
                if let Some(d) = t.strip_prefix("//@") {
                    let (d, arg) = d.split_once(' ').unwrap_or((d, ""));
                    let arg = arg.trim();
                    match d {
                        "ret" => opts.ret = Some(arg.into()),
                        "name" => opts.name = Some(arg.into()),
                        "retty" => opts.retty = Some(arg.into()),
                        "recv" => opts.recv = Some(arg.into()),
                        "generics" => opts.generics = Some(arg.into()),
                        "where" => opts.wher = Some(arg.into()),
                        "attr" => opts.attrs.push(arg.into()),
                        "noinline" => {
                            opts.no_inline.insert(arg.into());
                        }
                        "type" => {
                            let (k, v) = arg.split_once('=').unwrap();
                            opts.types.insert(nospace(k), v.trim().into());
                        }
                        "param" => {
                            let (k, v) = arg.split_once(':').unwrap();
                            opts.params.push((k.trim().into(), v.trim().into()));
                        }
                        "handles" => opts.handles = true,
                        "mayfail" => opts.mayfail = true,
                        "indexed" => opts.indexed.extend(arg.split_whitespace().map(String::from)),
                        "pre" => sec = Sec::Pre,
                        "post" => sec = Sec::Post,
                        "loop" => sec = Sec::Loop(arg.parse().unwrap()),
                        "lstart" => sec = Sec::LStart(arg.parse().unwrap()),
                        "lend" => sec = Sec::LEnd(arg.parse().unwrap()),
                        "after" => sec = Sec::After(arg.parse().unwrap()),
                        "aftercall" | "beforecall" => {
                            let (n, k) = arg.split_once(' ').unwrap_or((arg, "0"));
                            sec = if d == "aftercall" {
                                Sec::Call(n.into(), k.trim().parse().unwrap())
                            } else {
                                Sec::Before(n.into(), k.trim().parse().unwrap())
                            };
                        }
                        _ => panic!("unknown fn directive {d}"),
                    }
                    continue;
                }
                let dst = match &sec {
                    Sec::Contract => &mut opts.contract,
                    Sec::Pre => &mut opts.pre,
                    Sec::Post => &mut opts.post,
                    Sec::Loop(k) => opts.loops.entry(*k).or_default(),
                    Sec::LStart(k) => opts.lstart.entry(*k).or_default(),
                    Sec::LEnd(k) => opts.lend.entry(*k).or_default(),
                    Sec::After(k) => opts.after.entry(*k).or_default(),
                    Sec::Call(n, k) => opts.calls.entry((n.clone(), *k)).or_default(),
                    Sec::Before(n, k) => opts.befores.entry((n.clone(), *k)).or_default(),
                };
                dst.push_str(l);
                dst.push('\n');
            }
            let id = header
                .split_whitespace()
                .skip(1)
                .collect::<Vec<_>>()
                .join(" ");
            let external = cfg.external.contains(&id);
            let start = o.lines().count() + 1;
            match src.find_fn(&header) {
                Ok(found) => {
                    let res = rewrite::emit_fn(&found, &cfg, &opts, &src, external);
                    match res {
                        Ok(e) => {
                            o.push_str(&e.text);
                            if !o.ends_with('\n') {
                                o.push('\n');
                            }
                            emitted.push(Emitted {
                                id,
                                file: found.file.clone(),
                                line: found.line,
                                start,
                                end: o.lines().count(),
                                external,
                                error: None,
                                skeleton: e.skeleton,
                                notes: e.notes,
                            });
                        }
                        Err(m) => {
                            // the contract is still needed by the callers: emit it without body
                            let e = rewrite::emit_fn(&found, &cfg, &opts, &src, true);
                            if let Ok(e) = e {
                                o.push_str(&e.text);
                            }
                            emitted.push(Emitted {
                                id,
                                file: found.file.clone(),
                                line: found.line,
                                start,
                                end: o.lines().count(),
                                external: true,
                                error: Some(m),
                                skeleton: String::new(),
                                notes: vec![],
                            });
                        }
                    }
                }
                Err(m) => errors.push(m),
            }
        } else {
            o.push_str(l);
            o.push('\n');
        }
    }
    std::fs::write(&out, &o).unwrap();
    let mut j = String::from("{\"functions\":[\n");
    for (k, e) in emitted.iter().enumerate() {
        j.push_str(&format!(
            "{}{{\"id\":{},\"file\":{},\"line\":{},\"start\":{},\"end\":{},\"external\":{},\"error\":{},\"skeleton\":{},\"notes\":[{}]}}",
            if k > 0 { ",\n" } else { "" },
            jstr(&e.id), jstr(&e.file), e.line, e.start, e.end, e.external,
            e.error.as_ref().map(|s| jstr(s)).unwrap_or("null".into()),
            jstr(&e.skeleton),
            e.notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
        ));
    }
    j.push_str("],\n\"errors\":[");
    j.push_str(&errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    std::fs::write(&map, j).unwrap();
}

pub fn nospace(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn load_template(p: &PathBuf, cfg: &Config, seen: &mut BTreeSet<PathBuf>) -> String {
    if !seen.insert(p.clone()) {
        return String::new();
    }
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
    let mut o = String::new();
    for l in s.lines() {
        if let Some(r) = l.trim().strip_prefix("//@include ") {
            o.push_str(&load_template(
                &p.parent().unwrap().join(r.trim()),
                cfg,
                seen,
            ));
        } else {
            let mut l = l.to_string();
            for (k, v) in &cfg.vars {
                l = l.replace(&format!("${k}$"), v);
            }
            o.push_str(&l);
            o.push('\n');
        }
    }
    o
}
