//! Loads the sources and locates functions and structs.
use std::path::Path;
use syn::spanned::Spanned;

pub struct Source {
    pub files: Vec<(String, syn::File)>,
    pub errors: Vec<String>,
}

#[derive(Clone)]
pub struct Found {
    pub file: String,
    pub line: usize,
    pub sig: syn::Signature,
    pub block: syn::Block,
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(p)
        .unwrap()
        .map(|e| e.unwrap().path())
        .collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            walk(&e, out)
        } else if e.extension().map(|x| x == "rs").unwrap_or(false) {
            out.push(e)
        }
    }
}

fn last_ident(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => last_ident(&r.elem),
        _ => None,
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]"
    })
}

impl Source {
    pub fn load(repo: &Path) -> Source {
        let mut paths = Vec::new();
        walk(&repo.join("src"), &mut paths);
        let mut files = Vec::new();
        let mut errors = Vec::new();
        for p in paths {
            let rel = p.strip_prefix(repo).unwrap().to_string_lossy().to_string();
            let text = std::fs::read_to_string(&p).unwrap();
            match syn::parse_file(&text) {
                Ok(f) => files.push((rel, f)),
                Err(e) => errors.push(format!("{rel}: {e}")),
            }
        }
        Source { files, errors }
    }

    pub fn find_struct(&self, file: &str, name: &str) -> Option<syn::ItemStruct> {
        let mut all = Vec::new();
        for (f, ast) in &self.files {
            for it in &ast.items {
                if let syn::Item::Struct(s) = it {
                    if s.ident == name {
                        if f == file {
                            return Some(s.clone());
                        }
                        all.push(s.clone());
                    }
                }
            }
        }
        if all.len() == 1 {
            all.pop()
        } else {
            None
        }
    }

    pub fn find_enum(&self, file: &str, name: &str) -> Option<syn::ItemEnum> {
        let mut all: Vec<(bool, syn::ItemEnum)> = Vec::new();
        for (f, ast) in &self.files {
            for it in &ast.items {
                if let syn::Item::Enum(s) = it {
                    if s.ident == name {
                        all.push((f == file, s.clone()));
                    }
                }
            }
        }
        let here = all.iter().position(|(h, _)| *h);
        match (here, all.len()) {
            (Some(k), _) => Some(all.swap_remove(k).1),
            (None, 1) => all.pop().map(|e| e.1),
            _ => None,
        }
    }

    /// header: `FILE SELECTOR :: NAME` with SELECTOR one of
    /// `impl Trait for Type`, `impl Type`, `trait Trait`, `free`.
    pub fn find_fn(&self, header: &str) -> Result<Found, String> {
        let (file, rest) = header.split_once(' ').ok_or("bad header")?;
        let (sel, name) = rest.rsplit_once("::").ok_or("bad header")?;
        let sel: Vec<&str> = sel.split_whitespace().collect();
        let name = name.trim();
        let mut hits: Vec<Found> = Vec::new();
        for (f, ast) in &self.files {
            let mut v = Vec::new();
            collect(f, &ast.items, &sel, name, &mut v);
            if f == file && v.len() == 1 {
                return Ok(v.pop().unwrap());
            }
            hits.extend(v);
        }
        if hits.len() == 1 {
            return Ok(hits.pop().unwrap());
        }
        Err(format!(
            "function not found or ambiguous ({}): {header}",
            hits.len()
        ))
    }

    /// Finds a function by bare name anywhere (for inlining). Must be unique.
    pub fn find_any(&self, name: &str, prefer_file: &str) -> Vec<Found> {
        let mut hits: Vec<Found> = Vec::new();
        let mut pref: Vec<Found> = Vec::new();
        for (f, ast) in &self.files {
            let mut v = Vec::new();
            collect(f, &ast.items, &["any"], name, &mut v);
            if f == prefer_file {
                pref.extend(v.clone());
            }
            hits.extend(v);
        }
        if pref.len() == 1 {
            return pref;
        }
        hits
    }
}

fn collect(f: &str, items: &[syn::Item], sel: &[&str], name: &str, out: &mut Vec<Found>) {
    let any = sel[0] == "any";
    for it in items {
        match it {
            syn::Item::Fn(x) if (any || sel[0] == "free") && x.sig.ident == name => {
                if is_test(&x.attrs) {
                    continue;
                }
                out.push(Found {
                    file: f.into(),
                    line: x.span().start().line,
                    sig: x.sig.clone(),
                    block: (*x.block).clone(),
                })
            }
            syn::Item::Impl(im) => {
                let ok = any
                    || sel[0] == "impl" && {
                        let ty = last_ident(&im.self_ty).unwrap_or_default();
                        if sel.len() == 4 {
                            sel[2] == "for"
                                && sel[3] == ty
                                && im
                                    .trait_
                                    .as_ref()
                                    .map(|t| {
                                    let seg = t.1.segments.last().unwrap();
                                    if sel[1].contains('<') {
                                        // trait with its arguments, written without blanks
                                        use quote::ToTokens;
                                        let full: String = seg.to_token_stream().to_string();
                                        full.split_whitespace().collect::<String>() == sel[1]
                                    } else {
                                        seg.ident == sel[1]
                                    }
                                })
                                    .unwrap_or(false)
                        } else {
                            sel[1] == ty && im.trait_.is_none()
                        }
                    };
                if !ok {
                    continue;
                }
                for i in &im.items {
                    if let syn::ImplItem::Fn(x) = i {
                        if x.sig.ident == name {
                            out.push(Found {
                                file: f.into(),
                                line: x.span().start().line,
                                sig: x.sig.clone(),
                                block: x.block.clone(),
                            })
                        }
                    }
                }
            }
            syn::Item::Trait(tr) if any || sel[0] == "trait" && tr.ident == sel[1] => {
                for i in &tr.items {
                    if let syn::TraitItem::Fn(x) = i {
                        if x.sig.ident == name {
                            if let Some(b) = &x.default {
                                out.push(Found {
                                    file: f.into(),
                                    line: x.span().start().line,
                                    sig: x.sig.clone(),
                                    block: b.clone(),
                                })
                            }
                        }
                    }
                }
            }
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    collect(f, its, sel, name, out)
                }
            }
            _ => {}
        }
    }
}
