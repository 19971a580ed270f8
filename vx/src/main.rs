//! vx: extracts functions and types from /repo/src on every run and splices contracts into them,
//! producing one Verus file. See /verif/DESIGN.md ("What the extraction changes").
mod rewrite;
mod serde_gen;
mod vc;

use proc_macro2::Span;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

pub struct SrcFile {
    pub rel: String,
    pub text: String,
    pub ast: syn::File,
}

pub fn range(s: Span) -> std::ops::Range<usize> {
    s.byte_range()
}

fn is_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::quote!(#a).to_string();
            (s.contains("test") && !s.contains("not")) || s == "# [cfg (feature = \"uniffi\")]"
        }
    })
}

#[derive(Clone, Copy)]
pub enum FnItem<'a> {
    Free(&'a syn::ItemFn),
    Method(&'a syn::ImplItemFn, &'a syn::ItemImpl),
    TraitDefault(&'a syn::TraitItemFn, &'a syn::ItemTrait),
}

impl<'a> FnItem<'a> {
    pub fn sig(&self) -> &'a syn::Signature {
        match self {
            FnItem::Free(f) => &f.sig,
            FnItem::Method(f, _) => &f.sig,
            FnItem::TraitDefault(f, _) => &f.sig,
        }
    }
    pub fn block(&self) -> Option<&'a syn::Block> {
        match self {
            FnItem::Free(f) => Some(&f.block),
            FnItem::Method(f, _) => Some(&f.block),
            FnItem::TraitDefault(f, _) => f.default.as_ref(),
        }
    }
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => quote::quote!(#t).to_string(),
    }
}

/// container key of an impl: "Type" or "Trait for Type" (generic arguments dropped)
pub fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = type_name(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            let args = match &last.arguments {
                syn::PathArguments::AngleBracketed(a) if last.ident == "From" => {
                    format!("<{}>", quote::quote!(#a).to_string().replace([' ', '<', '>'], ""))
                }
                _ => String::new(),
            };
            format!("{}{} for {}", last.ident, args, full_self(&i.self_ty, &ty))
        }
        None => ty,
    }
}
fn full_self(t: &syn::Type, short: &str) -> String {
    // `std::result::Result<T, E>` and `serde_json::Result<T>` share the last segment: keep the path
    if let syn::Type::Path(p) = t {
        if p.path.segments.len() > 1 {
            return p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        }
    }
    short.to_string()
}

pub fn items_in<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        let attrs: &[syn::Attribute] = match i {
            syn::Item::Fn(x) => &x.attrs,
            syn::Item::Impl(x) => &x.attrs,
            syn::Item::Struct(x) => &x.attrs,
            syn::Item::Enum(x) => &x.attrs,
            syn::Item::Trait(x) => &x.attrs,
            syn::Item::Mod(x) => &x.attrs,
            syn::Item::Const(x) => &x.attrs,
            syn::Item::Type(x) => &x.attrs,
            _ => &[],
        };
        if is_test_cfg(attrs) {
            continue;
        }
        out.push(i);
        if let syn::Item::Mod(m) = i {
            if let Some((_, it)) = &m.content {
                items_in(it, out)
            }
        }
    }
}

pub fn find_fns<'a>(f: &'a SrcFile) -> Vec<(String, String, FnItem<'a>)> {
    let mut items = vec![];
    items_in(&f.ast.items, &mut items);
    let mut out = vec![];
    for i in items {
        match i {
            syn::Item::Fn(x) => out.push((String::new(), x.sig.ident.to_string(), FnItem::Free(x))),
            syn::Item::Impl(x) => {
                for m in &x.items {
                    if let syn::ImplItem::Fn(m) = m {
                        if !is_test_cfg(&m.attrs) {
                            out.push((impl_key(x), m.sig.ident.to_string(), FnItem::Method(m, x)))
                        }
                    }
                }
            }
            syn::Item::Trait(x) => {
                for m in &x.items {
                    if let syn::TraitItem::Fn(m) = m {
                        out.push((format!("trait {}", x.ident), m.sig.ident.to_string(), FnItem::TraitDefault(m, x)))
                    }
                }
            }
            _ => {}
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let repo = PathBuf::from(get("--repo").unwrap_or("/repo".into()));
    let out = get("--out").expect("--out");
    let vcs: Vec<PathBuf> = get("--vc").expect("--vc").split(',').map(PathBuf::from).collect();
    let only: Option<BTreeSet<String>> = get("--only").map(|s| s.split(',').map(|x| x.to_string()).collect());

    let mut files: BTreeMap<String, SrcFile> = BTreeMap::new();
    let mut errors: Vec<Value> = vec![];
    let mut stack = vec![repo.join("src")];
    while let Some(d) = stack.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                if p.file_name().unwrap() != "test_vectors" {
                    stack.push(p)
                }
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                let rel = p.strip_prefix(&repo).unwrap().to_string_lossy().to_string();
                let text = std::fs::read_to_string(&p).unwrap();
                // spans count from the file text itself
                match syn::parse_file(&text) {
                    Ok(ast) => {
                        files.insert(rel.clone(), SrcFile { rel, text, ast });
                    }
                    Err(e) => errors.push(json!({"kind": "parse", "file": rel, "msg": e.to_string()})),
                }
            }
        }
    }

    let mut gen = rewrite::Gen::new(&files, only, args.iter().any(|a| a == "--vacuity"));
    if let Some(p) = get("--params") {
        let j: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        for (k, v) in j.as_object().unwrap() { gen.params.insert(k.clone(), v["params"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()); }
    }
    // a function that a later file names again gets both contracts
    let mut specs: Vec<Vec<vc::Dir>> = vcs.iter().map(|v| vc::parse(Path::new(v))).collect();
    for i in 1..specs.len() {
        let (a, b) = specs.split_at_mut(i);
        b[0].retain(|d| match d { vc::Dir::Fn(g) => match a.iter_mut().flatten().find_map(|d| match d { vc::Dir::Fn(f) if f.file == g.file && f.container == g.container && f.name == g.name => Some(f), _ => None }) { Some(f) => { f.merge(g); false } None => true }, _ => true });
    }
    for s in &specs { gen.apply(s); }
    let (text, mut map) = gen.finish();
    errors.extend(map["errors"].as_array().unwrap().iter().cloned());
    map["errors"] = json!(errors);
    std::fs::write(&out, text).unwrap();
    std::fs::write(format!("{}.map.json", out), serde_json::to_string_pretty(&map).unwrap()).unwrap();
    let _ = Span::call_site().span();
}
