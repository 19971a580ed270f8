//! Text edits on the source of a function, so that Verus accepts it, plus contract splicing.
use crate::vc::{Dir, FnSpec};
use crate::{find_fns, impl_key, range, type_name, FnItem, SrcFile};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

/// std methods that this Verus does not support; each is renamed to a prelude wrapper whose
/// (trusted) contract is stated there and whose body calls the std method.
const METHOD_ALIAS: &[&str] = &[
    "sort", "join", "as_deref", "transpose", "split", "split_once", "starts_with", "ends_with",
    "into_owned", "cloned", "position", "retain", "extend", "into", "trim_end_matches", "as_bytes",
    "contains", "rev", "filter", "all", "any", "find", "extend_from_slice", "splitn", "nth", "zip",
    "contains_key", "entry", "or_insert", "is_empty", "unwrap_or_default", "concat", "dedup", "copied",
    "next", "enumerate", "last", "into_iter", "filter_map", "flat_map", "take", "skip", "chain", "as_slice",
    "iter", "map", "collect", "to_string", "clone", "to_owned", "to_vec", "as_str", "and_then", "or", "or_else",
    "split_at", "find_map", "to_ascii_lowercase", "to_lowercase", "eq_ignore_ascii_case", "trim", "reverse", "first",
    "strip_prefix", "into_vec", "copy_from_slice", "iter_mut", "get", "into_inner",
];
const PATH_ALIAS: &[(&str, &str)] = &[
    ("std :: str :: from_utf8", "crate::vx::from_utf8"),
    ("String :: from_utf8", "crate::vx::string_from_utf8"),
    ("String :: from", "crate::vx::string_from"),
    ("Cow :: Borrowed", "crate::vx::Cow::Borrowed"),
    ("Cow :: Owned", "crate::vx::Cow::Owned"),
    ("std :: fmt :: Display", "crate::vx::Display"),
    ("std :: fmt :: Debug", "crate::vx::Debug"),
    ("std :: cmp :: Ordering", "crate::vx::Ordering"),
];
const DROP_BOUNDS: &[&str] = &["Error", "Display", "Debug", "Send", "Sync", "Serialize", "DeserializeOwned", "Deserialize"];

#[derive(Clone)]
enum Piece { T(String), S(Range<usize>) }
#[derive(Clone)]
struct Edit { r: Range<usize>, pieces: Vec<Piece>, ord: i32 }

struct Ed<'a> { text: &'a str, edits: Vec<Edit> }
impl<'a> Ed<'a> {
    fn rep(&mut self, r: Range<usize>, s: &str) { self.edits.push(Edit { r, pieces: vec![Piece::T(s.into())], ord: 0 }) }
    fn ins(&mut self, at: usize, s: &str, ord: i32) { self.edits.push(Edit { r: at..at, pieces: vec![Piece::T(s.into())], ord }) }
    fn pieces(&mut self, r: Range<usize>, p: Vec<Piece>) { self.edits.push(Edit { r, pieces: p, ord: 0 }) }
    fn emit(&self, r: Range<usize>, own: Option<usize>) -> String {
        // edits inside r, outermost first
        let mut idx: Vec<usize> = (0..self.edits.len())
            .filter(|i| Some(*i) != own && self.edits[*i].r.start >= r.start && self.edits[*i].r.end <= r.end)
            .filter(|i| match own { Some(o) => !(self.edits[*i].r == self.edits[o].r && *i < o && self.edits[*i].r.len() > 0) , None => true })
            .collect();
        idx.sort_by_key(|i| { let e = &self.edits[*i]; (e.r.start, if e.r.len() == 0 { 0 } else { 1 }, e.ord, usize::MAX - e.r.end, *i) });
        let mut out = String::new();
        let mut pos = r.start;
        for i in idx {
            let e = &self.edits[i];
            if e.r.start < pos { continue }
            if own.is_some() && e.r.len() == 0 && (e.r.start == r.start || e.r.start == r.end) && {
                // an insertion at the very border of a nested piece belongs to the outer level when the outer edit has the same border
                let o = &self.edits[own.unwrap()];
                o.r == r
            } { continue }
            out.push_str(&self.text[pos..e.r.start]);
            for p in &e.pieces { match p { Piece::T(s) => out.push_str(s), Piece::S(rr) => out.push_str(&self.emit(rr.clone(), Some(i))) } }
            pos = e.r.end;
        }
        out.push_str(&self.text[pos..r.end]);
        out
    }
}

#[derive(Default)]
struct Vocab { calls: BTreeSet<String>, closures: usize, loops: usize, macros: BTreeSet<String> }

struct Body<'a, 'b> {
    ed: &'b mut Ed<'a>,
    spec: &'b FnSpec,
    rename_self: bool,
    closures: usize,
    loops: usize,
    voc: Vocab,
    problems: Vec<String>,
    placed: Vec<String>,
    vacuity: bool,
    src: &'a str,
}

fn span_s(t: &impl Spanned) -> usize { range(t.span()).start }
fn span_e(t: &impl Spanned) -> usize { range(t.span()).end }
fn toks(t: &impl quote::ToTokens) -> String { quote::quote!(#t).to_string() }

/// Translate an executable expression to a specification expression, when it is a plain
/// projection / construction. None when it is anything else.
fn spec_of(e: &syn::Expr) -> Option<String> {
    use syn::Expr::*;
    Some(match e {
        Path(p) => toks(p),
        Lit(l) => match &l.lit { syn::Lit::Str(s) => format!("{:?}", s.value()), x => toks(x) },
        Field(f) => format!("{}.{}", spec_of(&f.base)?, toks(&f.member)),
        Paren(p) => format!("({})", spec_of(&p.expr)?),
        Tuple(t) => { let v: Option<Vec<_>> = t.elems.iter().map(spec_of).collect(); let v = v?; format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" }) }
        Struct(s) if s.rest.is_none() => {
            let mut v = vec![];
            for f in &s.fields { v.push(format!("{}: {}", toks(&f.member), spec_of(&f.expr)?)) }
            format!("{} {{ {} }}", toks(&s.path), v.join(", "))
        }
        Call(c) => {
            let f = match &*c.func { Path(p) => p, _ => return None };
            let last = f.path.segments.last()?.ident.to_string();
            if !last.chars().next()?.is_uppercase() { return None }
            let v: Option<Vec<_>> = c.args.iter().map(spec_of).collect();
            format!("{}({})", toks(f), v?.join(", "))
        }
        Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { syn::Stmt::Expr(e, None) => spec_of(e)?, _ => return None },
        Unary(u) => match u.op { syn::UnOp::Not(_) => format!("!({})", spec_of(&u.expr)?), syn::UnOp::Deref(_) => format!("(*{})", spec_of(&u.expr)?), _ => return None },
        Reference(r) if r.mutability.is_none() => format!("&({})", spec_of(&r.expr)?),
        Binary(b) => {
            let int = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Byte(_) | syn::Lit::Char(_) | syn::Lit::Bool(_)));
            let (l, r) = (spec_of(&b.left)?, spec_of(&b.right)?);
            match b.op {
                syn::BinOp::Eq(_) if int(&b.left) || int(&b.right) => format!("({} == {})", l, r),
                syn::BinOp::Ne(_) if int(&b.left) || int(&b.right) => format!("({} != {})", l, r),
                syn::BinOp::Eq(_) => format!("crate::vx::VxEq::veq(&({}), &({}))", l, r),
                syn::BinOp::Ne(_) => format!("!crate::vx::VxEq::veq(&({}), &({}))", l, r),
                syn::BinOp::And(_) => format!("({} && {})", l, r),
                syn::BinOp::Or(_) => format!("({} || {})", l, r),
                syn::BinOp::Ge(_) if int(&b.left) || int(&b.right) => format!("({} >= {})", l, r),
                syn::BinOp::Gt(_) if int(&b.left) || int(&b.right) => format!("({} > {})", l, r),
                syn::BinOp::Le(_) if int(&b.left) || int(&b.right) => format!("({} <= {})", l, r),
                syn::BinOp::Lt(_) if int(&b.left) || int(&b.right) => format!("({} < {})", l, r),
                _ => return None,
            }
        }
        Cast(c) if toks(&c.ty).replace(' ', "") == "&str" => format!("({}).sp_as_str()", spec_of(&c.expr)?),
        MethodCall(m) if m.args.is_empty() => {
            let b = spec_of(&m.receiver)?;
            match m.method.to_string().as_str() {
                n @ ("is_some" | "is_none") => format!("({}).{}()", b, n),
                "clone" => format!("({}).vx_val()", b),
                "as_str" | "to_owned" | "to_string" | "as_ref" => format!("({}).sp_{}()", b, m.method),
                _ => return None,
            }
        }
        _ => return None,
    })
}
/// `F(args)` with F a plain function: the closure ensures exactly what F ensures
fn call_spec(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Call(c) => {
            let f = match &*c.func { syn::Expr::Path(p) => p, _ => return None };
            if f.path.segments.last()?.ident.to_string().chars().next()?.is_uppercase() { return None }
            let v: Option<Vec<_>> = c.args.iter().map(spec_of).collect();
            let v = v?;
            Some(format!("call_ensures({}, ({}{}), q)", toks(f), v.join(", "), if v.len() == 1 { "," } else { "" }))
        }
        syn::Expr::MethodCall(m) if m.args.is_empty() && m.method == "as_bytes" => Some(format!("crate::vx::vx_is_utf8(q, ({})@)", spec_of(&m.receiver)?)),
        syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { syn::Stmt::Expr(e, None) => call_spec(e), _ => None },
        _ => None,
    }
}

impl<'a, 'b> Body<'a, 'b> {
    fn fmt_args(&self, mac: &syn::Macro) -> Option<(String, Vec<syn::Expr>)> {
        let args = mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
        let mut it = args.into_iter();
        let f = match it.next()? { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(), _ => return None };
        Some((f, it.collect()))
    }
    fn do_macro(&mut self, mac: &syn::Macro, r: Range<usize>) {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        self.voc.macros.insert(name.clone());
        match name.as_str() {
            "format" => {
                let (f, args) = match self.fmt_args(mac) { Some(x) => x, None => { self.problems.push("format! with unusual arguments".into()); return } };
                let parts: Vec<&str> = f.split("{}").collect();
                let simple = !parts.iter().any(|p| p.contains('{') || p.contains('}')) && parts.len() == args.len() + 1;
                if simple {
                    // the pieces, from left to right; empty ones left out
                    let mut p = vec![]; let mut n = 0;
                    for (i, s) in parts.iter().enumerate() {
                        if !s.is_empty() { p.push(Piece::T(format!("{}fmt_text({:?})", if n == 0 { "crate::vx::" } else { "." }, s.replace("\u{1}", "{").replace("\u{2}", "}")))); n += 1 }
                        if i < args.len() { p.push(Piece::T(format!("{}fmt_arg(&(", if n == 0 { "crate::vx::" } else { "." }))); p.push(Piece::S(range(args[i].span()))); p.push(Piece::T("))".into())); n += 1 }
                    }
                    if n == 0 { p.push(Piece::T("crate::vx::fmt_text(\"\")".into())) }
                    p.push(Piece::T(".s".into()));
                    for a in &args { self.visit_expr(a) }
                    self.ed.pieces(r, p);
                } else {
                    let mut p = vec![Piece::T("crate::vx::fmt_any(".into())];
                    p.push(Piece::T(format!("{:?}", f)));
                    p.push(Piece::T(")".into()));
                    self.ed.pieces(r, p);
                }
            }
            "json" => {
                let v = self.json_pieces(mac.tokens.clone());
                match v { Some(p) => self.ed.pieces(r, p), None => self.problems.push("json! form not supported".into()) }
            }
            "vec" => {
                if let Ok(args) = mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    for a in &args { self.visit_expr(a) }
                    // vec![] with elements is supported by vstd
                }
            }
            "println" | "print" | "eprintln" | "debug" | "trace" | "info" | "warn" => { self.ed.rep(r, "crate::vx::log()"); }
            "assert" | "assert_eq" | "debug_assert" | "panic" | "unreachable" | "todo" | "unimplemented" => {}
            x => self.problems.push(format!("macro {}!", x)),
        }
    }
    fn json_pieces(&mut self, ts: proc_macro2::TokenStream) -> Option<Vec<Piece>> {
        let v: Vec<proc_macro2::TokenTree> = ts.clone().into_iter().collect();
        if v.len() == 1 {
            if let proc_macro2::TokenTree::Group(g) = &v[0] {
                if g.delimiter() == proc_macro2::Delimiter::Brace {
                    let mut p = vec![Piece::T("crate::vx::json_obj()".into())];
                    let toks: Vec<_> = g.stream().into_iter().collect();
                    for part in toks.split(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')) {
                        if part.is_empty() { continue }
                        let c = part.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ':'))?;
                        let k: proc_macro2::TokenStream = part[..c].iter().cloned().collect();
                        let val: proc_macro2::TokenStream = part[c + 1..].iter().cloned().collect();
                        let inner = self.json_pieces(val)?;
                        p.push(Piece::T(format!(".vx_with({}, ", k)));
                        p.extend(inner);
                        p.push(Piece::T(")".into()));
                    }
                    return Some(p);
                }
                if g.delimiter() == proc_macro2::Delimiter::Bracket {
                    let mut p = vec![Piece::T("crate::vx::json_arr()".into())];
                    let toks: Vec<_> = g.stream().into_iter().collect();
                    for part in toks.split(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')) {
                        if part.is_empty() { continue }
                        let val: proc_macro2::TokenStream = part.iter().cloned().collect();
                        let inner = self.json_pieces(val)?;
                        p.push(Piece::T(".vx_push(".into()));
                        p.extend(inner);
                        p.push(Piece::T(")".into()));
                    }
                    return Some(p);
                }
            }
        }
        if ts.to_string() == "null" { return Some(vec![Piece::T("crate::vx::json_null()".into())]) }
        let e: syn::Expr = syn::parse2(ts).ok()?;
        self.visit_expr(&e);
        Some(vec![Piece::T("crate::vx::to_json(&(".into()), Piece::S(range(e.span())), Piece::T("))".into())])
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for Body<'a, 'b> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) { self.ed.rep(range(a.span()), ""); }
    fn visit_item_fn(&mut self, _: &'ast syn::ItemFn) { self.problems.push("nested fn".into()) }
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        if self.rename_self && i == "self" { self.ed.rep(range(i.span()), "self_") }
    }
    fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
        self.ed.rep(span_e(&*a.base)..range(a.span()).end, "");
        self.visit_expr(&a.base);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        let s = toks(&p.path);
        if let Some((_, n)) = PATH_ALIAS.iter().find(|(k, _)| *k == s) { self.ed.rep(range(p.span()), n) }
        else { syn::visit::visit_expr_path(self, p) }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func { self.voc.calls.insert(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")); }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        self.voc.calls.insert(format!(".{}", n));
        // `k.with_public_bytes(|p| body)`: the closure is called exactly once, at once
        if let ("with_public_bytes" | "with_secret_bytes", 1, Some(syn::Expr::Closure(c))) = (n.as_str(), m.args.len(), m.args.first()) {
            if c.inputs.len() == 1 && !has_return(&c.body) {
                if let syn::Pat::Ident(_) = &c.inputs[0] {
                    self.visit_expr(&m.receiver); self.visit_expr(&c.body);
                    self.ed.pieces(range(m.span()), vec![Piece::T(format!("{{ let {} = ", toks(&c.inputs[0]))), Piece::S(range(m.receiver.span())), Piece::T(format!(".vx_{}(); ", n)), Piece::S(range(c.body.span())), Piece::T(" }".into())]);
                    return;
                }
            }
        }
        // a constructor given as a function
        if matches!(n.as_str(), "map" | "map_err" | "and_then" | "flat_map" | "filter_map") {
            for a in &m.args { if let syn::Expr::Path(p) = a { if p.path.segments.last().map(|s| { let i = s.ident.to_string(); i.chars().next().unwrap().is_uppercase() }).unwrap_or(false) {
                let t = toks(p); self.ed.rep(range(a.span()), &format!("|vx_c| -> (q: _) ensures crate::vx::vx_is(q, {t}(vx_c)) {{ {t}(vx_c) }}"));
            } } }
        }
        if METHOD_ALIAS.contains(&n.as_str()) && self.spec.flags.iter().all(|f| f != &format!("native:{}", n)) {
            if ALIASED.with(|a| a.borrow().contains(&n)) {
                self.ed.rep(range(m.method.span()), &format!("vx_{}", n));
                if let Some(t) = &m.turbofish { if n == "collect" || n == "into" { let _ = t; } }
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) { self.do_macro(&m.mac, range(m.mac.span())) }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) { self.do_macro(&m.mac, range(m.mac.span())) }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        let neg = match b.op { syn::BinOp::Eq(_) => false, syn::BinOp::Ne(_) => true, _ => { return syn::visit::visit_expr_binary(self, b) } };
        let int = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Byte(_) | syn::Lit::Char(_)));
        if int(&b.left) || int(&b.right) { return syn::visit::visit_expr_binary(self, b) }
        self.visit_expr(&b.left);
        self.visit_expr(&b.right);
        let r = range(b.span());
        self.ed.pieces(r, vec![
            Piece::T(format!("{}crate::vx::vx_eq(&(", if neg { "!" } else { "" })), Piece::S(range(b.left.span())),
            Piece::T("), &(".into()), Piece::S(range(b.right.span())), Piece::T("))".into())]);
    }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if let (None, syn::Expr::Array(a)) = (&r.mutability, &*r.expr) { if a.elems.is_empty() { self.ed.rep(range(r.span()), "crate::vx::nil()"); return } }
        syn::visit::visit_expr_reference(self, r)
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        // a string coerced to its text
        let t = toks(&c.ty).replace(' ', "");
        if t == "&str" { self.visit_expr(&c.expr); self.ed.pieces(range(c.span()), vec![Piece::T("(".into()), Piece::S(range(c.expr.span())), Piece::T(").as_str()".into())]); }
        else { syn::visit::visit_expr_cast(self, c) }
    }
    fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
        if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }) = &*i.index {
            self.visit_expr(&i.expr);
            self.ed.pieces(range(i.span()), vec![Piece::T("crate::vx::json_get(&(".into()), Piece::S(range(i.expr.span())), Piece::T("), ".into()), Piece::S(range(i.index.span())), Piece::T(")".into())]);
        } else if let syn::Expr::Range(r) = &*i.index {
            // e[a..b]
            let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
            if incl { self.problems.push("inclusive range index".into()); return }
            self.visit_expr(&i.expr);
            let mut p = vec![Piece::T("(*(".into()), Piece::S(range(i.expr.span())), Piece::T(").".into())];
            let f = match (&r.start, &r.end) { (Some(_), Some(_)) => "vx_slice(", (Some(_), None) => "vx_slice_from(", (None, Some(_)) => "vx_slice_to(", _ => "vx_slice_all(" };
            p.push(Piece::T(f.into()));
            if let Some(a) = &r.start { self.visit_expr(a); p.push(Piece::S(range(a.span()))); p.push(Piece::T(", ".into())) }
            if let Some(a) = &r.end { self.visit_expr(a); p.push(Piece::S(range(a.span()))) }
            p.push(Piece::T("))".into()));
            self.ed.pieces(range(i.span()), p);
        } else { syn::visit::visit_expr_index(self, i) }
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        if let syn::Expr::Index(i) = &*a.left {
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }) = &*i.index {
                self.visit_expr(&a.right);
                self.ed.pieces(range(a.span()), vec![Piece::T("crate::vx::json_set(&mut ".into()), Piece::S(range(i.expr.span())), Piece::T(", ".into()), Piece::S(range(i.index.span())), Piece::T(", ".into()), Piece::S(range(a.right.span())), Piece::T(")".into())]);
                return;
            }
        }
        syn::visit::visit_expr_assign(self, a)
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        let s = toks(t);
        if let Some((_, n)) = PATH_ALIAS.iter().find(|(k, _)| *k == s) { self.ed.rep(range(t.span()), n) }
        else { syn::visit::visit_type(self, t) }
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let k = self.loops; self.loops += 1; self.voc.loops += 1;
        if matches!(&*l.expr, syn::Expr::Range(_)) {
            // a counting loop stays as it is
            let mut pre = String::new();
            if let Some(s) = self.spec.loops.iter().find(|s| s.idx == k) {
                if let Some(it) = &s.iter { self.ed.ins(span_s(&*l.expr), &format!("{}: ", it), 0) }
                self.ed.ins(span_s(&l.body), &format!("\n{}", s.spec), 0);
                pre.push_str(&s.proof);
            }
            if self.vacuity { pre.push_str("assert(false); "); }
            self.ed.ins(span_s(&l.body) + 1, &pre, 0);
            self.visit_expr(&l.expr);
            self.visit_block(&l.body);
            return;
        }
        // for P in E { B }  =>  the items of E are taken out of a list one by one
        let (it, sq) = (format!("vx_it{}", k), format!("vx_s{}", k));
        let (mut inv, mut pre, mut before, mut end, mut after) = (String::new(), String::new(), String::new(), String::new(), String::new());
        if let Some(s) = self.spec.loops.iter().find(|s| s.idx == k) { inv = s.spec.trim().trim_start_matches("invariant").trim().to_string(); pre.push_str(&s.proof); before = s.before.clone(); end = s.end.clone(); after = s.after.clone(); }
        // what holds only while the loop goes on is written last
        let eb = match inv.clone().split_once("invariant_except_break") { Some((a, b)) => { inv = a.trim().to_string(); let b = b.trim(); format!("invariant_except_break {}{}", b, if b.ends_with(',') { "" } else { "," }) } None => String::new() };
        if self.vacuity { pre.push_str("assert(false); "); }
        let lab = l.label.as_ref().map(|x| format!("{} ", toks(x))).unwrap_or_default();
        let head = format!("; let ghost {sq} = {it}@; {before} #[verifier::loop_isolation(false)] {cx}{lab}while {it}.len() > 0 {eb} invariant {it}@.len() <= {sq}.len(), {it}@ == {sq}.skip({sq}.len() - {it}@.len()), {inv} decreases {it}@.len() {{ let ghost vx_k{k} = {sq}.len() - {it}@.len(); assert({it}@[0] == {sq}[vx_k{k}]); let {} = {it}.remove(0); assert({it}@ =~= {sq}.skip(vx_k{k} + 1)); {pre}", toks(&l.pat), cx = if eb.is_empty() { "" } else { "#[verifier::allow_complex_invariants] " }, inv = if inv.is_empty() { String::new() } else if inv.ends_with(',') { inv } else { format!("{},", inv) });
        self.visit_expr(&l.expr);
        self.visit_block(&l.body);
        let b = range(l.body.span());
        self.ed.pieces(range(l.span()), vec![Piece::T(format!("{{ let mut {} = crate::vx::VxForItems::for_items(", it)), Piece::S(range(l.expr.span())), Piece::T(format!("); proof {{ assert({it}@ =~= {it}@.skip(0)); }} {}", head.trim_start_matches(';'))), Piece::S(b.start + 1..b.end - 1), Piece::T(format!("{} }} {} }}", end, after))]);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let k = self.loops; self.loops += 1; self.voc.loops += 1;
        let mut pre = String::new();
        if let Some(s) = self.spec.loops.iter().find(|s| s.idx == k) { self.ed.ins(span_s(&l.body), &format!("\n{}", s.spec), 0); pre.push_str(&s.proof); if !s.after.is_empty() { self.ed.ins(range(l.span()).end, &format!("\n{}", s.after), 2); } }
        if self.vacuity { pre.push_str("assert(false); "); }
        self.ed.ins(span_s(&l.body) + 1, &pre, 0);
        self.ed.ins(span_s(l), "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ", 0);
        syn::visit::visit_expr_while(self, l)
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let k = self.loops; self.loops += 1; self.voc.loops += 1;
        let mut pre = String::new();
        if let Some(s) = self.spec.loops.iter().find(|s| s.idx == k) { self.ed.ins(span_s(&l.body), &format!("\n{}", s.spec), 0); pre.push_str(&s.proof); if !s.after.is_empty() { self.ed.ins(range(l.span()).end, &format!("\n{}", s.after), 2); } }
        if self.vacuity { pre.push_str("assert(false); "); }
        self.ed.ins(span_s(&l.body) + 1, &pre, 0);
        self.ed.ins(span_s(l), "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ", 0);
        syn::visit::visit_expr_loop(self, l)
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.closures; self.closures += 1; self.voc.closures += 1;
        let man = self.spec.closures.iter().find(|s| s.idx == k).cloned();
        let mut lets = String::new();
        for (i, p) in c.inputs.iter().enumerate() {
            let inner = match p { syn::Pat::Type(t) => &*t.pat, x => x };
            if !matches!(inner, syn::Pat::Ident(_)) || man.as_ref().map(|m| m.params.is_none()).unwrap_or(false) {
                let nm = format!("vx_p{}", i);
                // `|&x|` is `let x = *p`
                match inner {
                    syn::Pat::Reference(_) => { let mut pt = inner; let mut st = String::new(); while let syn::Pat::Reference(r) = pt { pt = &*r.pat; st.push('*') } lets.push_str(&format!("let {} = {}{}; ", toks(pt), st, nm)) }
                    syn::Pat::Wild(_) => {}
                    _ => lets.push_str(&format!("let {} = {}; ", toks(inner), nm)),
                }
                self.ed.rep(range(inner.span()), &nm);
            }
        }
        if c.asyncness.is_some() { self.problems.push("async closure".into()) }
        if let Some(m) = &c.capture { let _ = m; }
        let b = range(c.body.span());
        if let Some(m) = man {
            if let Some(p) = &m.params { self.ed.rep(range(c.or1_token.span()).end..range(c.or2_token.span()).start, p) }
            let ret = m.ret.clone().unwrap_or("(q: _)".into());
            if matches!(c.output, syn::ReturnType::Default) { self.ed.ins(range(c.or2_token.span()).end, &format!(" -> {} ", ret), -2); }
            self.ed.pieces(b.clone(), vec![Piece::T(format!("\n{} {{ {}{} ", m.spec, lets, m.proof)), Piece::S(b), Piece::T(" }".into())]);
        } else if let (syn::ReturnType::Default, Some(s)) = (&c.output, spec_of(&c.body).map(|s| format!("crate::vx::vx_is(q, {{ {}{} }})", lets, s)).or_else(|| call_spec(&c.body).map(|s| format!("{{ {}{} }}", lets, s)))) {
            self.ed.pieces(b.clone(), vec![Piece::T(format!(" -> (q: _) ensures ({}) {{ {}", s, lets)), Piece::S(b), Piece::T(" }".into())]);
        } else if !lets.is_empty() {
            self.ed.pieces(b.clone(), vec![Piece::T(format!("{{ {}", lets)), Piece::S(b), Piece::T(" }".into())]);
        }
        self.visit_expr(&c.body);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        // `let [a, b] = x else/unconditional` slice patterns
        if let syn::Pat::Slice(s) = &l.pat { self.slice_let(s, l); return }
        syn::visit::visit_local(self, l);
        let names = pat_names(&l.pat);
        for (n, t) in &self.spec.lets { if names.contains(n) { self.placed.push(n.clone()); self.ed.ins(range(l.span()).end, &format!("\n{}", t), 2) } }
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        if matches!(p, syn::Pat::Slice(_)) { self.problems.push("slice pattern".into()) }
        // `&P` whose bindings are all `ref` ones means P under the default binding mode
        if let syn::Pat::Reference(r) = p { if r.mutability.is_none() && !matches!(&*r.pat, syn::Pat::Ident(_)) && all_ref(&r.pat) { self.ed.rep(range(r.and_token.span()), "") } }
        syn::visit::visit_pat(self, p)
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        // match on slice patterns: desugared to length tests
        if m.arms.iter().any(|a| matches!(a.pat, syn::Pat::Slice(_))) { self.slice_match(m); return }
        syn::visit::visit_expr_match(self, m)
    }
}
fn has_return(e: &syn::Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V { fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true } fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true } }
    let mut v = V(false); v.visit_expr(e); v.0
}
fn all_ref(p: &syn::Pat) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V { fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) { if i.by_ref.is_none() { self.0 = false } } }
    let mut v = V(true); v.visit_pat(p); v.0
}
fn pat_names(p: &syn::Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V { fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) { self.0.push(i.ident.to_string()); syn::visit::visit_pat_ident(self, i) } }
    let mut v = V(vec![]); v.visit_pat(p); v.0
}
impl<'a, 'b> Body<'a, 'b> {
    fn slice_let(&mut self, _s: &syn::PatSlice, _l: &syn::Local) { self.problems.push("slice let".into()) }
    fn slice_match(&mut self, m: &syn::ExprMatch) {
        // match E { [a, b, ..] => X, _ => Y }  =>  { let vx_s = E; if vx_s.len() >= 2 { let a = &vx_s[0]; let b = &vx_s[1]; X } else { Y } }
        let mut p = vec![Piece::T("{ let vx_s = ".into()), Piece::S(range(m.expr.span())), Piece::T("; ".into())];
        self.visit_expr(&m.expr);
        let n = m.arms.len();
        for (i, a) in m.arms.iter().enumerate() {
            if a.guard.is_some() { self.problems.push("slice arm guard".into()); return }
            let (cond, lets) = match &a.pat {
                syn::Pat::Slice(s) => {
                    let rest = s.elems.iter().position(|e| matches!(e, syn::Pat::Rest(_)));
                    let k = s.elems.len() - if rest.is_some() { 1 } else { 0 };
                    let mut lets = String::new();
                    for (j, e) in s.elems.iter().enumerate() {
                        match e {
                            syn::Pat::Ident(id) if id.subpat.is_none() => {
                                let ix = match rest { Some(r) if j > r => format!("vx_s.len() - {}", s.elems.len() - j), _ => format!("{}", j) };
                                lets.push_str(&format!("let {} = &vx_s[{}]; ", id.ident, ix));
                            }
                            syn::Pat::Wild(_) | syn::Pat::Rest(_) => {}
                            _ => { self.problems.push("slice element pattern".into()); return }
                        }
                    }
                    (format!("vx_s.len() {} {}", if rest.is_some() { ">=" } else { "==" }, k), lets)
                }
                syn::Pat::Wild(_) => (String::new(), String::new()),
                _ => { self.problems.push("slice match arm".into()); return }
            };
            if cond.is_empty() { p.push(Piece::T("{ ".into())) } else { p.push(Piece::T(format!("if {} {{ {}", cond, lets))) }
            p.push(Piece::S(range(a.body.span())));
            p.push(Piece::T(if i + 1 < n && !cond.is_empty() { " } else " } else { " }" }.into()));
            self.visit_expr(&a.body);
        }
        p.push(Piece::T(" }".into()));
        self.ed.pieces(range(m.span()), p);
    }
}

thread_local! { pub static ALIASED: std::cell::RefCell<BTreeSet<String>> = Default::default(); }

pub struct Gen<'a> {
    files: &'a BTreeMap<String, SrcFile>,
    only: Option<BTreeSet<String>>,
    pub params: BTreeMap<String, Vec<String>>,
    out: String,
    errors: Vec<Value>,
    fns: Vec<Value>,
    vacuity: bool,
}

fn filter_bounds(ed: &mut Ed, bounds: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>) -> Option<String> {
    // None: nothing dropped
    let mut kept = vec![];
    let mut dropped = false;
    for b in bounds {
        match b {
            syn::TypeParamBound::Trait(t) => {
                let l = t.path.segments.last().unwrap().ident.to_string();
                if DROP_BOUNDS.contains(&l.as_str()) { dropped = true } else { kept.push(toks(b)) }
            }
            syn::TypeParamBound::Lifetime(l) => if l.ident == "static" { dropped = true } else { kept.push(toks(b)) },
            _ => kept.push(toks(b)),
        }
    }
    let _ = ed;
    if dropped { Some(kept.join(" + ")) } else { None }
}
fn do_generics(ed: &mut Ed, g: &syn::Generics) {
    for p in &g.params {
        if let syn::GenericParam::Type(t) = p {
            if let Some(k) = filter_bounds(ed, &t.bounds) {
                let s = span_e(&t.ident); let e = span_e(&t.bounds);
                ed.rep(s..e, &if k.is_empty() { String::new() } else { format!(": {}", k) });
            }
        }
    }
    if let Some(w) = &g.where_clause {
        let mut preds = vec![];
        for p in &w.predicates {
            match p {
                syn::WherePredicate::Type(t) => match filter_bounds(ed, &t.bounds) {
                    Some(k) => if !k.is_empty() { preds.push(format!("{}: {}", toks(&t.bounded_ty), k)) },
                    None => preds.push(toks(p)),
                },
                x => preds.push(toks(x)),
            }
        }
        let r = range(w.span());
        ed.rep(r, &if preds.is_empty() { String::new() } else { format!("where {},", preds.join(", ")) });
    }
}

impl<'a> Gen<'a> {
    pub fn new(files: &'a BTreeMap<String, SrcFile>, only: Option<BTreeSet<String>>, vacuity: bool) -> Self {
        Gen { files, only, params: BTreeMap::new(), out: String::new(), errors: vec![], fns: vec![], vacuity }
    }
    fn err(&mut self, kind: &str, what: &str, msg: &str) { self.errors.push(json!({"kind": kind, "what": what, "msg": msg})) }

    fn line(&self) -> usize { self.out.matches('\n').count() + 1 }

    pub fn apply(&mut self, dirs: &[Dir]) {
        let mut i = 0;
        // split into modules; directives before the first @module are emitted at the root
        while i < dirs.len() {
            match &dirs[i] {
                Dir::Module { path, file } => {
                    let mut j = i + 1;
                    while j < dirs.len() && !matches!(dirs[j], Dir::Module { .. }) { j += 1 }
                    self.module(path, file, &dirs[i + 1..j]);
                    i = j;
                }
                Dir::Raw(s) => { self.out.push_str(s); i += 1 }
                _ => { i += 1 }
            }
        }
    }

    fn module(&mut self, path: &str, file: &str, dirs: &[Dir]) {
        let segs: Vec<&str> = path.split("::").filter(|s| *s != "crate").collect();
        let _ = segs;
        self.out.push_str(&format!("//MODULE {}\n", path));
        let f = if file.is_empty() { None } else { self.files.get(file) };
        if !file.is_empty() && f.is_none() { self.err("missing-file", file, "source file not found") }
        let mut done: BTreeSet<usize> = BTreeSet::new();
        for i in 0..dirs.len() {
            if done.contains(&i) { continue }
            match &dirs[i] {
                Dir::Raw(s) => self.out.push_str(s),
                Dir::Type { name, flags } => if let Some(f) = f { self.ty(f, name, flags) },
                Dir::Const { name } => if let Some(f) = f { self.konst(f, name) },
                Dir::Trait { name, raw, supers } => if let Some(f) = f {
                    let mut group = vec![];
                    for j in i + 1..dirs.len() { if let Dir::Fn(s) = &dirs[j] { if s.container == format!("trait {}", name) { group.push(s); done.insert(j); } } }
                    self.tr(f, name, raw, supers.as_deref(), &group)
                },
                Dir::Impls { name } => if let Some(f) = f {
                    for it in &f.ast.items { if let syn::Item::Impl(im) = it { if im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident == name.as_str()).unwrap_or(false) {
                        let k = impl_key(im); let mut t = String::new();
                        let mut ed = Ed { text: &f.text, edits: vec![] };
                        do_generics(&mut ed, &im.generics);
                        let h = ed.emit(span_s(&im.impl_token)..range(im.brace_token.span.open()).start, None);
                        for m in &im.items { if let syn::ImplItem::Fn(m) = m {
                            let sp = FnSpec { container: k.clone(), name: m.sig.ident.to_string(), ret: "r".into(), ..Default::default() };
                            t.push_str(&self.fn_text(f, FnItem::Method(m, im), &sp, true));
                        } }
                        self.out.push_str(&format!("{} {{\n{}}}\n", h.trim(), t));
                    } } }
                },
                Dir::Fn(s) => {
                    if s.container.is_empty() { self.func(f, s) }
                    else {
                        let mut group = vec![s];
                        for j in i + 1..dirs.len() { if let Dir::Fn(t) = &dirs[j] { if t.container == s.container { group.push(t); done.insert(j); } } }
                        let mut raw = String::new();
                        for d in dirs { if let Dir::Impl { key, raw: r } = d { if *key == s.container { raw.push_str(r) } } }
                        self.imp(f, &s.container, &group, &raw)
                    }
                }
                _ => {}
            }
        }
        self.out.push_str("//ENDMODULE\n");
    }

    fn locate(&self, f: Option<&'a SrcFile>, container: &str, name: &str) -> Option<(&'a SrcFile, FnItem<'a>)> {
        if let Some(f) = f { if let Some(x) = find_fns(f).into_iter().find(|(c, n, _)| c == container && n == name) { return Some((f, x.2)) } }
        let mut hits = vec![];
        for g in self.files.values() { for x in find_fns(g) { if x.0 == container && x.1 == name { hits.push((g, x.2)) } } }
        if hits.len() == 1 { Some(hits[0]) } else { None }
    }

    fn key(f: &str, s: &FnSpec) -> String { format!("{}::{}{}{}", f.trim_start_matches("src/").trim_end_matches(".rs").replace('/', "::"), s.container, if s.container.is_empty() { "" } else { "::" }, s.name) }

    /// text of one function (no leading indentation care)
    fn fn_text(&mut self, f: &'a SrcFile, item: FnItem<'a>, s: &FnSpec, in_trait: bool) -> String {
        let sig = item.sig();
        let key = Self::key(&f.rel, s);
        let is_target = self.only.as_ref().map(|o| {
            let no = o.iter().any(|p| p.strip_prefix('!').map(|p| pat(p, &key)).unwrap_or(false));
            !no && o.iter().any(|p| pat(p, &key))
        }).unwrap_or(true);
        let trusted = s.flags.iter().any(|x| x == "trusted");
        let mut ed = Ed { text: &f.text, edits: vec![] };
        if let Some(a) = &sig.asyncness { ed.rep(range(a.span()), "") }
        do_generics(&mut ed, &sig.generics);
        let mut rename_self = false;
        let mut mutparams = vec![];
        // parameters keep the names the contract knows them by (recorded by position); the body gets its own back
        let mut names: Vec<String> = vec![];
        for a in &sig.inputs { if let syn::FnArg::Typed(t) = a { names.push(match &*t.pat { syn::Pat::Ident(id) => id.ident.to_string(), syn::Pat::Wild(_) => "vx_unused".into(), _ => "?".into() }) } }
        let mut known: Vec<String> = self.params.get(&key).cloned().unwrap_or_else(|| names.clone());
        // (Verus cannot have a parameter with the name of its function)
        if s.container.is_empty() { for k in known.iter_mut() { if *k == s.name { k.push('_') } } }
        let renamed = known.len() == names.len() && known != names && !names.iter().chain(known.iter()).any(|x| x == "?" || x == "vx_unused");
        let mut pi = 0;
        for a in &sig.inputs {
            if let syn::FnArg::Typed(t) = a { if renamed { if let syn::Pat::Ident(id) = &*t.pat { ed.rep(range(id.ident.span()), &known[pi]) } } pi += 1; }
            match a {
                syn::FnArg::Receiver(r) => {
                    for at in &r.attrs { ed.rep(range(at.span()), "") }
                    if r.reference.is_none() { if let Some(m) = &r.mutability { ed.rep(range(m.span()), ""); rename_self = true } }
                }
                syn::FnArg::Typed(t) => {
                    for at in &t.attrs { ed.rep(range(at.span()), "") }
                    if let syn::Pat::Ident(id) = &*t.pat { if let Some(m) = &id.mutability { ed.rep(range(m.span()), ""); mutparams.push(id.ident.to_string()) } }
                    else if let syn::Pat::Wild(_) = &*t.pat { ed.rep(range(t.pat.span()), "vx_unused") }
                    let ts = toks(&t.ty);
                    if ts.contains("impl ") || ts.contains("dyn ") {
                        let src = &f.text[range(t.ty.span())];
                        let mut n = src.replace("<'dr>", "").replace("<'sr>", "");
                        for d in [" + Send", " + Sync", " + 'static"] { n = n.replace(d, "") }
                        let n = n.replace("+ 'dr", "").replace("+ 'sr", "");
                        if n != src { ed.rep(range(t.ty.span()), &n) }
                    }
                }
            }
        }
        if let syn::ReturnType::Type(_, t) = &sig.output {
            ed.ins(span_s(&**t), &format!("({}: ", s.ret), 0);
            ed.ins(span_e(&**t), ")", 0);
        }
        let mut voc = Vocab::default();
        let mut problems = vec![]; let mut lost: Vec<String> = vec![];
        let sig_start = span_s(&sig.fn_token).min(sig.asyncness.as_ref().map(span_s).unwrap_or(usize::MAX)).min(sig.constness.as_ref().map(span_s).unwrap_or(usize::MAX));
        let body_text;
        let block = item.block();
        let sig_end = match block { Some(b) => range(b.span()).start, None => match &sig.generics.where_clause { Some(w) => span_e(w), None => match &sig.output { syn::ReturnType::Default => span_e(&sig.paren_token.span.close()), syn::ReturnType::Type(_, t) => span_e(&**t) } } };
        let as_stub = trusted || !is_target || block.is_none();
        let spec_txt = s.spec.clone();
        if let (Some(b), false) = (block, as_stub) {
            let mut bd = Body { ed: &mut ed, spec: s, rename_self, closures: 0, loops: 0, voc: Vocab::default(), problems: vec![], placed: vec![], vacuity: self.vacuity, src: &f.text };
            bd.visit_block(b);
            let _ = bd.src;
            voc = bd.voc; problems = bd.problems; lost = s.lets.iter().map(|x| x.0.clone()).filter(|n| !bd.placed.contains(n)).collect();
            let mut st = String::new();
            if rename_self { st.push_str(" let mut self_ = self;") }
            if renamed {
                let l: Vec<String> = names.iter().map(|n| format!("{}{}", if mutparams.contains(n) { "mut " } else { "" }, n)).collect();
                for (a, b) in l.iter().zip(&known) { st.push_str(&format!(" let {} = vx_in_{};", a, b)) }
                let pre: String = known.iter().map(|b| format!(" let vx_in_{} = {};", b, b)).collect();
                st.insert_str(0, &pre);
            } else { for m in &mutparams { st.push_str(&format!(" let mut {} = {};", m, m)) } }
            st.push_str(&format!("\n{}", s.start));
            if self.vacuity { st.push_str(" assert(false); ") }
            let br = range(b.span());
            ed.ins(br.start + 1, &st, -5);
            if !s.tail.is_empty() {
                match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => ed.ins(span_s(e), &format!("{}\n", s.tail), -6),
                    _ => ed.ins(br.end - 1, &s.tail, 6),
                }
            }
            body_text = ed.emit(br, None);
        } else { body_text = String::new() }
        let sig_text = ed.emit(sig_start..sig_end, None);
        let mut t = String::new();
        t.push_str(&s.attrs);
        let stub_attr = as_stub && !(in_trait && block.is_none());
        if stub_attr { t.push_str("#[verifier::external_body]\n") }
        else if voc.loops > 0 && !s.attrs.contains("decreases") { t.push_str("#[verifier::exec_allows_no_decreases_clause]\n") }
        if !in_trait { t.push_str("pub ") }
        t.push_str(sig_text.trim_end());
        t.push('\n');
        t.push_str(&spec_txt);
        if as_stub { if in_trait && block.is_none() { t.push_str(";\n") } else { t.push_str("{ unimplemented!() }\n") } } else { t.push_str(&body_text); t.push('\n') }
        if !problems.is_empty() { self.errors.push(json!({"kind": "unsupported", "fn": key, "msg": problems.join("; ")})) }
        let clauses = count_clauses(&spec_txt);
        self.fns.push(json!({"key": key, "file": f.rel, "line": f.text[..sig_start].matches('\n').count() + 1, "mode": if trusted { "trusted" } else if as_stub { "stub" } else { "verified" },
            "params": names, "lost_hints": lost, "vocab": {"calls": voc.calls, "macros": voc.macros, "closures": voc.closures, "loops": voc.loops}, "clauses": clauses, "marker": format!("//FN {}", key)}));
        format!("//FN {}\n{}//ENDFN {}\n", key, t, key)
    }

    fn func(&mut self, f: Option<&'a SrcFile>, s: &FnSpec) {
        match self.locate(f, &s.container, &s.name) {
            Some((g, it)) => { let t = self.fn_text(g, it, s, false); self.out.push_str(&t) }
            None => self.err("missing-fn", &format!("{} {}", s.container, s.name), "function not found"),
        }
    }
    fn imp(&mut self, f: Option<&'a SrcFile>, container: &str, group: &[&FnSpec], raw: &str) {
        // group by the actual impl block header; inherent impls may be split over several blocks
        let mut blocks: Vec<(usize, String, String)> = vec![];
        for s in group {
            match self.locate(f, container, &s.name) {
                Some((g, it)) => {
                    let im = match it { FnItem::Method(_, im) => im, _ => continue };
                    let is_trait = im.trait_.is_some();
                    let mut t = self.fn_text(g, it, s, is_trait);
                    let id = im as *const _ as usize;
                    if let Some(b) = blocks.iter_mut().find(|b| b.0 == id) { b.2.push_str(&t); continue }
                    let mut ed = Ed { text: &g.text, edits: vec![] };
                    do_generics(&mut ed, &im.generics);
                    let h = ed.emit(span_s(&im.impl_token)..range(im.brace_token.span.open()).start, None);
                    if is_trait {
                        // methods of the trait impl without a directive: emitted with the trait's contract only
                        for m in &im.items {
                            match m {
                                syn::ImplItem::Fn(m) if !group.iter().any(|x| x.name == m.sig.ident.to_string()) => {
                                    let sp = FnSpec { container: container.into(), name: m.sig.ident.to_string(), ret: "r".into(), ..Default::default() };
                                    t.push_str(&self.fn_text(g, FnItem::Method(m, im), &sp, true));
                                }
                                syn::ImplItem::Type(x) => t.push_str(&format!("{}\n", toks(x))),
                                _ => {}
                            }
                        }
                    }
                    blocks.push((id, h, t));
                }
                None => self.err("missing-fn", &format!("{} :: {}", container, s.name), "function not found"),
            }
        }
        for (k, (_, h, t)) in blocks.iter().enumerate() {
            self.out.push_str(&format!("{} {{\n{}{}}}\n", h.trim(), if k == 0 { raw } else { "" }, t));
        }
    }
    fn tr(&mut self, f: &'a SrcFile, name: &str, raw: &str, supers: Option<&str>, group: &[&FnSpec]) {
        let mut found = None;
        for it in &f.ast.items { if let syn::Item::Trait(t) = it { if t.ident == name { found = Some(t) } } }
        let t = match found { Some(t) => t, None => { self.err("missing-trait", name, "trait not found"); return } };
        let mut ed = Ed { text: &f.text, edits: vec![] };
        do_generics(&mut ed, &t.generics);
        let g = ed.emit(span_s(&t.ident)..(if t.generics.gt_token.is_some() { span_e(&t.generics.gt_token) } else { span_e(&t.ident) }), None);
        let sup = match supers { Some(s) => format!(": {}", s), None => {
            let v: Vec<String> = t.supertraits.iter().filter(|b| match b { syn::TypeParamBound::Trait(x) => !DROP_BOUNDS.contains(&x.path.segments.last().unwrap().ident.to_string().as_str()), _ => false }).map(|b| toks(b)).collect();
            if v.is_empty() { String::new() } else { format!(": {}", v.join(" + ")) } } };
        let mut body = String::new();
        for m in &t.items {
            if let syn::TraitItem::Fn(m) = m {
                let n = m.sig.ident.to_string();
                let d = FnSpec { container: format!("trait {}", name), name: n.clone(), ret: "r".into(), ..Default::default() };
                let s = group.iter().find(|s| s.name == n).copied().cloned().unwrap_or(d);
                body.push_str(&self.fn_text(f, FnItem::TraitDefault(m, t), &s, true));
            } else if let syn::TraitItem::Type(x) = m { body.push_str(&format!("{}\n", toks(x))) }
        }
        self.out.push_str(&format!("pub trait {}{} {{\n{}{}}}\n", g, sup, raw, body));
    }
    fn konst(&mut self, f: &'a SrcFile, name: &str) {
        for it in &f.ast.items { if let syn::Item::Const(c) = it { if c.ident == name {
            self.out.push_str(&format!("pub const {}: {} = {};\n", name, toks(&c.ty).replace("& str", "&'static str"), &f.text[range(c.expr.span())])); return } } }
        self.err("missing-const", name, "constant not found")
    }
    fn ty(&mut self, f: &'a SrcFile, name: &str, flags: &[String]) {
        let mut items = vec![]; crate::items_in(&f.ast.items, &mut items);
        let fty = |t: &syn::Type| toks(t).replace("Cow <", "crate::vx::Cow <");
        for it in items {
            match it {
                syn::Item::Struct(s) if s.ident == name => {
                    let mut o = format!("pub struct {}{} {{\n", name, toks(&s.generics));
                    for fl in &s.fields { o.push_str(&format!("    pub {}: {},\n", fl.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), fty(&fl.ty))) }
                    o.push_str("}\n");
                    if let syn::Fields::Unnamed(u) = &s.fields { let v: Vec<String> = u.unnamed.iter().map(|x| format!("pub {}", fty(&x.ty))).collect(); o = format!("pub struct {}{}({});\n", name, toks(&s.generics), v.join(", ")) }
                    self.emit_ty(&o, name, &s.generics, flags, &derives(&s.attrs));
                    if flags.iter().any(|f| f.starts_with("serde")) { match crate::serde_gen::gen_struct(s) { Ok(t) => self.out.push_str(&t), Err(e) => self.err("serde", name, &e) } }
                    return;
                }
                syn::Item::Enum(e) if e.ident == name => {
                    let mut o = format!("pub enum {}{} {{\n", name, toks(&e.generics));
                    for v in &e.variants {
                        let fs = match &v.fields {
                            syn::Fields::Unit => String::new(),
                            syn::Fields::Unnamed(u) => format!("({})", u.unnamed.iter().map(|x| fty(&x.ty)).collect::<Vec<_>>().join(", ")),
                            syn::Fields::Named(n) => format!(" {{ {} }}", n.named.iter().map(|x| format!("{}: {}", x.ident.as_ref().unwrap(), fty(&x.ty))).collect::<Vec<_>>().join(", ")),
                        };
                        o.push_str(&format!("    {}{},\n", v.ident, fs));
                    }
                    o.push_str("}\n");
                    self.emit_ty(&o, name, &e.generics, flags, &derives(&e.attrs));
                    if flags.iter().any(|f| f.starts_with("serde")) { match crate::serde_gen::gen_enum(e, &derives(&e.attrs)) { Ok(t) => self.out.push_str(&t), Err(x) => self.err("serde", name, &x) } }
                    return;
                }
                syn::Item::Type(t) if t.ident == name => {
                    self.out.push_str(&format!("pub type {}{} = {};\n", name, toks(&t.generics), toks(&t.ty))); return;
                }
                _ => {}
            }
        }
        self.err("missing-type", name, "type not found")
    }
    fn emit_ty(&mut self, o: &str, name: &str, g: &syn::Generics, flags: &[String], dv: &[String]) {
        if flags.iter().any(|f| f == "serdeonly") { return }
        let has = |d: &str| dv.iter().any(|x| x == d);
        let fl = |d: &str| flags.iter().any(|x| x == d);
        if fl("plain") { self.out.push_str("#[derive(Clone, Copy)]\n") }
        self.out.push_str(o);
        let (ig, tg, _) = g.split_for_impl();
        let (ig, tg) = (toks(&ig), toks(&tg));
        if has("Clone") && !fl("plain") && !fl("noclone") {
            // derive(Clone) on a type of owned data: trusted to produce an equal value
            self.out.push_str(&format!("impl{} Clone for {}{} {{\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}\n}}\n", ig, name, tg));
        }
        if has("PartialEq") && !fl("noeq") {
            self.out.push_str(&format!("impl{} crate::vx::VxEq<{}{}> for {}{} {{\nopen spec fn veq(&self, o: &{}{}) -> bool {{ *self == *o }}\n#[verifier::external_body]\nfn vx_eq_(&self, o: &{}{}) -> (r: bool) {{ unimplemented!() }}\n}}\n", ig, name, tg, name, tg, name, tg, name, tg));
        }
    }

    pub fn finish(self) -> (String, Value) {
        // nest modules
        let text = nest(&self.out);
        let (text, lemmas) = lemma_bodies(&text, self.vacuity);
        let mut fns = self.fns;
        let lines: Vec<&str> = text.lines().collect();
        for f in fns.iter_mut() {
            let m = f["marker"].as_str().unwrap().to_string();
            let e = m.replacen("//FN", "//ENDFN", 1);
            let a = lines.iter().position(|l| l.trim() == m).map(|x| x + 1).unwrap_or(0);
            let b = lines.iter().position(|l| l.trim() == e).map(|x| x + 1).unwrap_or(0);
            f["start"] = json!(a); f["end"] = json!(b);
        }
        (text, json!({"errors": self.errors, "fns": fns, "lemmas": lemmas}))
    }
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs { if a.path().is_ident("derive") { let _ = a.parse_nested_meta(|m| { v.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) }); } }
    v
}
fn count_clauses(s: &str) -> usize {
    // top-level comma separated clauses of requires/ensures
    let mut n = 0; let mut depth = 0i32;
    let mut any = false;
    for c in s.chars() { match c { '(' | '[' | '{' => depth += 1, ')' | ']' | '}' => depth -= 1, ',' if depth == 0 => { if any { n += 1 } any = false }, c if !c.is_whitespace() => any = true, _ => {} } }
    if any { n += 1 }
    n
}
/// turn the flat //MODULE a::b blocks into nested `pub mod`s
fn nest(s: &str) -> String {
    #[derive(Default)]
    struct N { text: String, kids: Vec<(String, N)> }
    fn get<'x>(n: &'x mut N, path: &[&str]) -> &'x mut N {
        if path.is_empty() { return n }
        if !n.kids.iter().any(|k| k.0 == path[0]) { n.kids.push((path[0].to_string(), N::default())) }
        let i = n.kids.iter().position(|k| k.0 == path[0]).unwrap();
        get(&mut n.kids[i].1, &path[1..])
    }
    let mut root = N::default();
    let mut cur: Vec<String> = vec![];
    for l in s.lines() {
        if let Some(p) = l.strip_prefix("//MODULE ") { cur = p.split("::").filter(|x| *x != "crate").map(|x| x.to_string()).collect(); continue }
        if l == "//ENDMODULE" { cur = vec![]; continue }
        let c: Vec<&str> = cur.iter().map(|x| x.as_str()).collect();
        let n = get(&mut root, &c); n.text.push_str(l); n.text.push('\n');
    }
    fn pr(n: &N, out: &mut String) {
        out.push_str(&n.text);
        for (k, c) in &n.kids { out.push_str(&format!("pub mod {} {{\n", k)); out.push_str("#[allow(unused_imports)] use super::*; #[allow(unused_imports)] use vstd::prelude::*;\n"); if k != "vx" { out.push_str("#[allow(unused_imports)] use crate::vx::*;\n") } pr(c, out); out.push_str("}\n") }
    }
    let mut out = String::from("#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces)]\nuse vstd::prelude::*;\nverus! {\n");
    pr(&root, &mut out);
    out.push_str("} // verus!\nfn main() {}\n");
    out
}

/// `a::b::*` matches every key that starts with `a::b::`
fn pat(p: &str, key: &str) -> bool {
    match p.strip_suffix('*') {
        Some(x) => key.starts_with(x),
        None => p == key,
    }
}

/// the lemmas of the contract files (`proof fn` with the body's brace at a line start);
/// under vacuity each gets an assertion that must fail at its end (or at its start, if it gives a value)
fn lemma_bodies(text: &str, vacuity: bool) -> (String, Vec<Value>) {
    let mut out = String::new();
    let mut names = vec![];
    let mut pos = 0;
    while let Some(i) = text[pos..].find("proof fn ").map(|x| x + pos) {
        let name: String = text[i + 9..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        let eol = text[i..].find('\n').map(|x| x + i).unwrap_or(text.len());
        let open_in_line = text[i..eol].matches(|c| "({[".contains(c)).count() as i32 - text[i..eol].matches(|c| ")}]".contains(c)).count() as i32;
        if open_in_line == 0 && text[i..eol].trim_end().ends_with(';') { out.push_str(&text[pos..eol]); pos = eol; continue }
        let open = match text[i..].find("\n{") { Some(x) => i + x + 1, None => break };
        if text[i + 9..open].contains("proof fn ") { panic!("the body of lemma {} must start on a line of its own", name) }
        let b = text.as_bytes();
        let (mut d, mut j) = (0i32, open);
        while j < b.len() {
            match b[j] {
                b'{' => d += 1,
                b'}' => { d -= 1; if d == 0 { break } }
                b'"' => { j += 1; while b[j] != b'"' { if b[j] == b'\\' { j += 1 } j += 1 } }
                _ => {}
            }
            j += 1;
        }
        // a lemma that gives a value ends in an expression: there the assertion comes first
        // (likewise in the long lemmas, which hide definitions: there the solver would search for very long)
        let gives = text[i..open].contains(") -> (") || text[open + 1..j].trim_start().starts_with("hide(");
        if vacuity && gives {
            let mut k = open + 1;
            loop {
                let w = text[k..j].len() - text[k..j].trim_start().len();
                if !text[k + w..j].starts_with("hide(") { break }
                match text[k + w..j].find(");") { Some(n) => k += w + n + 2, None => break }
            }
            out.push_str(&text[pos..k]); out.push_str(" assert(false); /*LEMMA*/ "); out.push_str(&text[k..j])
        }
        else { out.push_str(&text[pos..j]); if vacuity { out.push_str(" assert(false); /*LEMMA*/ ") } }
        let start = text[..i].matches('\n').count() + 1;
        let end = text[..j].matches('\n').count() + 1;
        names.push(json!({"name": name, "start": start, "end": end}));
        pos = j;
    }
    out.push_str(&text[pos..]);
    (out, names)
}
