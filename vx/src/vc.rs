//! Contract files. Line based; a directive starts a line with '@'.
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct ClosureSpec { pub idx: usize, pub params: Option<String>, pub ret: Option<String>, pub spec: String, pub proof: String }
#[derive(Default, Debug, Clone)]
pub struct LoopSpec { pub idx: usize, pub iter: Option<String>, pub spec: String, pub proof: String, pub before: String, pub end: String, pub after: String }
#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub file: String, pub container: String, pub name: String, pub ret: String, pub spec: String,
    pub loops: Vec<LoopSpec>, pub closures: Vec<ClosureSpec>, pub start: String, pub attrs: String, pub flags: Vec<String>,
    pub lets: Vec<(String, String)>, // after `let NAME` binding: proof text
    pub tail: String, // proof text placed before the tail expression
}
impl FnSpec {
    pub fn merge(&mut self, g: &FnSpec) {
        // the clauses end with a comma: `ensures A,` and `ensures B,` become `ensures A, B,`
        if self.spec.trim().is_empty() { self.spec = g.spec.clone() } else { let more = g.spec.trim_start(); self.spec.push_str(more.strip_prefix("ensures").unwrap_or(more)) }
        self.attrs.push_str(&g.attrs); self.start.push_str(&g.start); self.tail.push_str(&g.tail);
        self.loops.extend(g.loops.iter().cloned()); self.closures.extend(g.closures.iter().cloned()); self.lets.extend(g.lets.iter().cloned());
        if self.ret.is_empty() { self.ret = g.ret.clone() }
        for f in &g.flags { if !self.flags.contains(f) { self.flags.push(f.clone()) } }
    }
}
#[derive(Debug, Clone)]
pub enum Dir {
    Module { path: String, file: String },
    Raw(String),
    Type { name: String, flags: Vec<String> },
    Const { name: String },
    Fn(FnSpec),
    Trait { name: String, supers: Option<String>, raw: String },
    Impl { key: String, raw: String },
    /// every impl block of the trait, with the trait's contracts only
    Impls { name: String },
}

pub fn parse(p: &Path) -> Vec<Dir> {
    let text = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
    let mut out: Vec<Dir> = vec![];
    let mut file = String::new();
    enum Tgt { None, Raw, FnSpec, Loop, LoopProof, LoopBefore, LoopEnd, LoopAfter, Closure, ClosureProof, Start, Tail, Let, Trait, Impl }
    let mut t = Tgt::None;
    for line in text.lines() {
        if let Some(d) = line.trim_start().strip_prefix('@') {
            if line.trim_start().starts_with("@ ") { /* falls through as text */ }
            let mut it = d.split_whitespace();
            let kw = it.next().unwrap_or("");
            let rest: Vec<String> = it.map(|s| s.to_string()).collect();
            macro_rules! cur { () => { match out.last_mut() { Some(Dir::Fn(f)) => f, _ => panic!("{}: @{} outside @fn", p.display(), kw) } } }
            match kw {
                "module" => { file = rest.get(1).cloned().unwrap_or_default(); out.push(Dir::Module { path: rest[0].clone(), file: file.clone() }); t = Tgt::None }
                "raw" => { out.push(Dir::Raw(String::new())); t = Tgt::Raw }
                "type" => { out.push(Dir::Type { name: rest[0].clone(), flags: rest[1..].to_vec() }); t = Tgt::None }
                "const" => { out.push(Dir::Const { name: rest[0].clone() }); t = Tgt::None }
                "trait" => { out.push(Dir::Trait { name: rest[0].clone(), supers: rest.get(1).map(|_| rest[1..].join(" ")), raw: String::new() }); t = Tgt::Trait }
                "impl" => { out.push(Dir::Impl { key: rest.join(" "), raw: String::new() }); t = Tgt::Impl }
                "impls" => { out.push(Dir::Impls { name: rest[0].clone() }); t = Tgt::None }
                "alias" => { crate::rewrite::ALIASED.with(|a| a.borrow_mut().extend(rest.iter().cloned())); }
                "fn" => {
                    // @fn [Container ::] name -> r [flags: ...]
                    let s = rest.join(" ");
                    let (head, ret) = match s.split_once("->") { Some((a, b)) => (a.trim().to_string(), b.trim().to_string()), None => (s.clone(), "r".into()) };
                    let mut rs = ret.split_whitespace(); let ret = rs.next().unwrap_or("r").to_string(); let flags = rs.map(|s| s.to_string()).collect();
                    let (c, n) = match head.rsplit_once(" :: ") { Some((c, n)) => (c.to_string(), n.to_string()), None => (String::new(), head.clone()) };
                    out.push(Dir::Fn(FnSpec { file: file.clone(), container: c.trim().into(), name: n.trim().into(), ret, flags, ..Default::default() }));
                    t = Tgt::FnSpec
                }
                "attr" => { let a = rest.join(" "); cur!().attrs.push_str(&format!("{}\n", a)) }
                "loop" => { let l = LoopSpec { idx: rest[0].parse().unwrap(), iter: rest.get(1).cloned(), ..Default::default() }; cur!().loops.push(l); t = Tgt::Loop }
                "loopproof" => { t = Tgt::LoopProof }
                "loopbefore" => { t = Tgt::LoopBefore }
                "loopend" => { t = Tgt::LoopEnd }
                "loopafter" => { t = Tgt::LoopAfter }
                "closure" => {
                    // @closure 0 (params) -> ret
                    let s = rest[1..].join(" ");
                    let (pa, re) = match s.split_once("->") { Some((a, b)) => (a.trim().to_string(), Some(b.trim().to_string())), None => (s.trim().to_string(), None) };
                    let c = ClosureSpec { idx: rest[0].parse().unwrap(), params: if pa.is_empty() { None } else { Some(pa.trim_matches(|c| c == '(' || c == ')').to_string()) }, ret: re, ..Default::default() };
                    cur!().closures.push(c); t = Tgt::Closure
                }
                "closureproof" => { t = Tgt::ClosureProof }
                "start" => { t = Tgt::Start }
                "tail" => { t = Tgt::Tail }
                "after" => { cur!().lets.push((rest[0].clone(), String::new())); t = Tgt::Let }
                "end" => { t = Tgt::None }
                x => panic!("{}: unknown directive @{}", p.display(), x),
            }
            continue;
        }
        let l = format!("{}\n", line);
        match t {
            Tgt::None => {}
            Tgt::Raw => if let Some(Dir::Raw(s)) = out.last_mut() { s.push_str(&l) },
            Tgt::Impl => if let Some(Dir::Impl { raw, .. }) = out.last_mut() { raw.push_str(&l) },
            Tgt::Trait => if let Some(Dir::Trait { raw, .. }) = out.last_mut() { raw.push_str(&l) },
            _ => if let Some(Dir::Fn(f)) = out.last_mut() {
                match t {
                    Tgt::FnSpec => f.spec.push_str(&l),
                    Tgt::Loop => f.loops.last_mut().unwrap().spec.push_str(&l),
                    Tgt::LoopProof => f.loops.last_mut().unwrap().proof.push_str(&l),
                    Tgt::LoopBefore => f.loops.last_mut().unwrap().before.push_str(&l),
                    Tgt::LoopEnd => f.loops.last_mut().unwrap().end.push_str(&l),
                    Tgt::LoopAfter => f.loops.last_mut().unwrap().after.push_str(&l),
                    Tgt::Closure => f.closures.last_mut().unwrap().spec.push_str(&l),
                    Tgt::ClosureProof => f.closures.last_mut().unwrap().proof.push_str(&l),
                    Tgt::Start => f.start.push_str(&l),
                    Tgt::Tail => f.tail.push_str(&l),
                    Tgt::Let => f.lets.last_mut().unwrap().1.push_str(&l),
                    _ => {}
                }
            },
        }
    }
    out
}
