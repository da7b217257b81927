//! Extracts named functions from /repo's current source and prints their bodies in the dialect
//! Verus accepts.  Purely mechanical: every rewrite below is one of the fixed rules listed in
//! DESIGN.md ("What the extraction does"); there is no per-function text.
//!
//! stdin:  {"fns":[{"id","file","impl","name","rename":[..|null],"cfg":{...}}]}
//! stdout: {"fns":[{"id","ok","err","sig","bindings","loops","body","drops","line"}]}
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Read;
use syn::*;

type R<T> = std::result::Result<T, String>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Val,   // bound by value although the source binds a reference: explicit `*` is dropped
    RefF,  // reference to a scalar: operands get an explicit `*`
    Copied, // bound by value although the source binds a reference and uses it as one
    Other,
}

#[derive(Clone)]
struct Bind {
    emit: String,
    kind: Kind,
}

#[derive(Clone, Debug)]
enum Elem {
    Idx(String),  // an element of a collection: bound by copy, or by reference when listed in refs
    Mut(String),  // an element of a collection iterated mutably
    Expr(String), // a computed value
    Tuple(Vec<Elem>),
}

struct Chain {
    setup: Vec<String>,
    lo: String,
    hi: String,
    pre: Vec<String>, // statements at the start of the body
    closers: usize,   // number of guards opened by pre
    elem: Elem,
    wb: Vec<String>,
}

struct Cfg {
    types: Vec<(String, String)>,
    refs: BTreeSet<String>,
    methods: BTreeMap<String, String>,
    calls: BTreeMap<String, String>,
    ops: BTreeMap<String, String>,
    macros: BTreeMap<String, String>,
    scalar: Vec<String>,
    vals: BTreeSet<String>,
    slices: BTreeSet<String>,
    circuit: bool,
    arrays: bool,
    assign: bool,
    clones: bool,
    lazy: BTreeSet<String>,
    cs: BTreeSet<String>,
}

struct Em {
    byval: bool,
    /// inside the pattern of a `let`: an upper-case name is a variable, not a constant
    let_pat: bool,
    chain_arg: bool,
    c: Cfg,
    scopes: Vec<HashMap<String, Bind>>,
    bindings: Vec<String>,
    rename: Vec<Option<String>>,
    loops: Vec<String>,
    ncl: usize,
    nret: usize,
    nq: usize,
    nbase: usize,
    nenf: usize,
    drops: BTreeSet<String>,
    /// variables bound to signed numbers
    isz: BTreeSet<String>,
}

fn norm(s: &str) -> String {
    // token text without insignificant spaces
    let mut o = String::new();
    let cs: Vec<char> = s.chars().collect();
    let id = |c: char| c.is_alphanumeric() || c == '_' || c == '\'';
    for (i, c) in cs.iter().enumerate() {
        if c.is_whitespace() {
            let p = o.chars().last();
            let n = cs[i + 1..].iter().find(|c| !c.is_whitespace());
            if let (Some(p), Some(n)) = (p, n) {
                if id(p) && id(*n) {
                    o.push(' ');
                }
            }
        } else {
            o.push(*c);
        }
    }
    o.replace(",)", ")").replace(",>", ">").replace(",]", "]")
}
fn txt<T: ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(g) => strip(&g.expr),
        _ => e,
    }
}

fn has_continue(b: &Block) -> bool {
    struct V(bool, usize);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false, 0);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

const ADAPT: &[&str] = &["enumerate", "rev", "zip", "map", "filter", "skip", "take", "cloned", "copied", "chain", "cycle"];
const TERM: &[&str] = &["sum", "product", "collect", "fold", "for_each", "all", "any"];

impl Em {
    fn push(&mut self) {
        self.scopes.push(HashMap::new());
    }
    fn pop(&mut self) {
        self.scopes.pop();
    }
    fn bind(&mut self, name: &str, kind: Kind) -> String {
        let i = self.bindings.len();
        self.bindings.push(name.to_string());
        let emit = match self.rename.get(i) {
            Some(Some(n)) => n.clone(),
            _ => name.to_string(),
        };
        let kind = if self.c.vals.contains(&emit) { Kind::Val } else { kind };
        self.scopes.last_mut().unwrap().insert(name.to_string(), Bind { emit: emit.clone(), kind });
        emit
    }
    fn look(&self, name: &str) -> Option<&Bind> {
        self.scopes.iter().rev().find_map(|s| s.get(name))
    }
    fn ty(&mut self, t: &Type) -> R<String> {
        let s = txt(t);
        Ok(self.tystr(&s))
    }
    fn tystr(&self, s: &str) -> String {
        let mut o = s.to_string();
        for (a, b) in &self.c.types {
            // whole-token replacement
            let mut out = String::new();
            let mut rest = o.as_str();
            while let Some(p) = rest.find(a.as_str()) {
                let before = rest[..p].chars().last().or(out.chars().last());
                let after = rest[p + a.len()..].chars().next();
                let id = |c: char| c.is_alphanumeric() || c == '_';
                if before.map_or(false, id) || after.map_or(false, id) {
                    out.push_str(&rest[..p + a.len()]);
                } else {
                    out.push_str(&rest[..p]);
                    out.push_str(b);
                }
                rest = &rest[p + a.len()..];
            }
            out.push_str(rest);
            o = out;
        }
        o
    }
    fn path(&mut self, p: &ExprPath) -> R<String> {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() {
            let n = p.path.segments[0].ident.to_string();
            if let Some(b) = self.look(&n) {
                return Ok(b.emit.clone());
            }
            return Ok(self.tystr(&n));
        }
        // drop turbofish
        let mut q = p.clone();
        let mut dropped = false;
        for s in q.path.segments.iter_mut() {
            if !s.arguments.is_empty() {
                dropped = true;
                s.arguments = PathArguments::None;
            }
        }
        if dropped {
            self.drops.insert("explicit generic arguments (::<..>) on calls".into());
        }
        let t = txt(&q);
        Ok(self.tystr(&t))
    }
    fn single<'a>(e: &'a Expr) -> Option<String> {
        if let Expr::Path(p) = strip(e) {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                return Some(p.path.segments[0].ident.to_string());
            }
        }
        None
    }
    /// operand of an arithmetic operator: the value, whatever reference the source passes
    fn operand(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::Paren(p) => {
                let s = self.operand(&p.expr)?;
                Ok(if s.starts_with('(') && matched(&s) { s } else { format!("({})", s) })
            }
            Expr::Group(g) => self.operand(&g.expr),
            Expr::Reference(r) => {
                self.drops.insert("`&` on operator operands (by-value operators)".into());
                self.operand(&r.expr)
            }
            Expr::If(_) | Expr::Block(_) => self.ex(e, true),
            Expr::Path(_) => {
                if let Some(n) = Self::single(e) {
                    if let Some(b) = self.look(&n) {
                        if b.kind == Kind::RefF {
                            return Ok(format!("(*{})", b.emit));
                        }
                        if b.kind == Kind::Copied {
                            return Ok(b.emit.clone());
                        }
                    }
                }
                self.ex(e, false)
            }
            _ => self.ex(e, false),
        }
    }
    fn template(t: &str, args: &[String]) -> String {
        let mut o = t.to_string();
        for (i, a) in args.iter().enumerate().rev() {
            o = o.replace(&format!("${}", i), a);
        }
        if o.contains("$*") {
            o = o.replace("$*", &args[1..].join(", "));
        }
        o
    }
    // ---- patterns ----
    fn pat(&mut self, p: &Pat, kind: Kind, mutable: bool) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => {
                let name = i.ident.to_string();
                // constants / unit variants look like identifiers
                if !self.let_pat && i.mutability.is_none() && name.chars().next().map_or(false, |c| c.is_uppercase()) {
                    return Ok(name);
                }
                if self.byval && i.by_ref.is_some() {
                    return Ok(self.bind(&name, Kind::Copied));
                }
                let e = self.bind(&name, if i.by_ref.is_some() { Kind::Other } else { kind });
                let r = if i.by_ref.is_some() && kind != Kind::Val { "ref " } else { "" };
                let m = if i.mutability.is_some() || mutable { "mut " } else { "" };
                match &i.subpat {
                    Some((_, q)) => format!("{}{}{} @ {}", r, m, e, self.pat(q, kind, mutable)?),
                    None => format!("{}{}{}", r, m, e),
                }
            }
            Pat::Wild(_) => "_".into(),
            Pat::Paren(p) => self.pat(&p.pat, kind, mutable)?,
            Pat::Reference(r) => {
                // `&x` against a reference: the value itself
                if kind == Kind::Val {
                    self.pat(&r.pat, Kind::Val, mutable)?
                } else if matches!(&*r.pat, Pat::TupleStruct(t) if !t.elems.is_empty() && t.elems.iter().all(|q| matches!(q, Pat::Ident(i) if i.by_ref.is_some()))) {
                    // all bindings are references: the pattern looks through the reference
                    if let Pat::TupleStruct(t) = &*r.pat {
                        let mut v = vec![];
                        for q in &t.elems {
                            if let Pat::Ident(i) = q {
                                v.push(self.bind(&i.ident.to_string(), Kind::Other));
                            }
                        }
                        let pt = txt(&t.path);
                        return Ok(format!("{}({})", self.tystr(&pt), v.join(", ")));
                    }
                    unreachable!()
                } else {
                    format!("&{}", self.pat(&r.pat, Kind::Val, mutable)?)
                }
            }
            Pat::Tuple(t) => {
                let mut v = vec![];
                for q in &t.elems {
                    v.push(self.pat(q, kind, mutable)?);
                }
                format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
            }
            Pat::Slice(t) => {
                let mut v = vec![];
                for q in &t.elems {
                    if matches!(q, Pat::Rest(_)) {
                        return Err("slice pattern".into());
                    }
                    v.push(self.pat(q, kind, mutable)?);
                }
                self.drops.insert("slice patterns are tuples of the elements".into());
                format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
            }
            Pat::TupleStruct(t) => {
                let mut v = vec![];
                for q in &t.elems {
                    v.push(self.pat(q, kind, mutable)?);
                }
                let pt = txt(&t.path);
                format!("{}({})", self.tystr(&pt), v.join(", "))
            }
            Pat::Struct(t) => {
                let mut v = vec![];
                for q in &t.fields {
                    v.push(format!("{}: {}", txt(&q.member), self.pat(&q.pat, kind, mutable)?));
                }
                if t.rest.is_some() {
                    v.push("..".into());
                }
                let pt = txt(&t.path);
                format!("{} {{ {} }}", self.tystr(&pt), v.join(", "))
            }
            Pat::Path(x) => self.tystr(&txt(x)),
            Pat::Lit(l) => txt(l),
            Pat::Or(o) => {
                let mut v = vec![];
                for q in &o.cases {
                    v.push(self.pat(q, kind, mutable)?);
                }
                v.join(" | ")
            }
            Pat::Type(t) => {
                let a = self.pat(&t.pat, kind, mutable)?;
                let b = self.ty(&t.ty)?;
                format!("{}: {}", a, b)
            }
            Pat::Range(r) => txt(r),
            _ => return Err(format!("pattern `{}`", txt(p))),
        })
    }
    /// a pattern against a dereferenced (copied) scrutinee
    fn pat_deref(&mut self, p: &Pat) -> R<String> {
        match p {
            Pat::Reference(r) => {
                let old = std::mem::replace(&mut self.byval, true);
                let x = self.pat(&r.pat, Kind::Val, false);
                self.byval = old;
                x
            }
            Pat::Paren(q) => self.pat_deref(&q.pat),
            Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() => {
                let n = self.bind(&i.ident.to_string(), Kind::Copied);
                Ok(match &i.subpat {
                    Some((_, q)) => format!("{} @ {}", n, self.pat_deref(q)?),
                    None => n,
                })
            }
            Pat::Wild(_) => Ok("_".into()),
            _ => Err(format!("pattern `{}`", txt(p))),
        }
    }
    fn tuple_deref(&mut self, p: &Pat, de: &[bool]) -> R<String> {
        match p {
            Pat::Or(o) => {
                let mut v = vec![];
                for q in &o.cases {
                    v.push(self.tuple_deref(q, de)?);
                }
                Ok(v.join(" | "))
            }
            Pat::Paren(q) => self.tuple_deref(&q.pat, de),
            Pat::Wild(_) => Ok("_".into()),
            Pat::Tuple(t) if t.elems.len() == de.len() => {
                let mut v = vec![];
                for (q, d) in t.elems.iter().zip(de) {
                    v.push(if *d { self.pat_deref(q)? } else { self.pat(q, Kind::Other, false)? });
                }
                Ok(format!("({})", v.join(", ")))
            }
            _ => Err(format!("pattern `{}`", txt(p))),
        }
    }
    /// positions of a tuple scrutinee whose patterns look through a reference
    fn deref_positions(m: &ExprMatch) -> Option<Vec<bool>> {
        let n = match strip(&m.expr) {
            Expr::Tuple(t) => t.elems.len(),
            _ => return None,
        };
        fn looks(p: &Pat) -> bool {
            match p {
                Pat::Reference(_) => true,
                Pat::Paren(q) => looks(&q.pat),
                Pat::Ident(i) => i.subpat.as_ref().map_or(false, |(_, q)| looks(q)),
                _ => false,
            }
        }
        fn mark(p: &Pat, v: &mut Vec<bool>) {
            match p {
                Pat::Or(o) => o.cases.iter().for_each(|q| mark(q, v)),
                Pat::Paren(q) => mark(&q.pat, v),
                Pat::Tuple(t) => {
                    for (i, q) in t.elems.iter().enumerate() {
                        if i < v.len() && looks(q) {
                            v[i] = true;
                        }
                    }
                }
                _ => {}
            }
        }
        let mut v = vec![false; n];
        for a in &m.arms {
            mark(&a.pat, &mut v);
        }
        if v.iter().any(|x| *x) {
            Some(v)
        } else {
            None
        }
    }
    fn kind_of(&self, e: &Expr) -> Option<(String, Kind)> {
        Self::single(e).and_then(|n| self.look(&n).map(|b| (b.emit.clone(), b.kind)))
    }
    /// receiver of a method or base of a field access
    fn recv(&mut self, e: &Expr) -> R<String> {
        if let Some((n, Kind::Copied)) = self.kind_of(e) {
            return Ok(n);
        }
        self.ex(e, false)
    }
    fn is_cs(&self, e: &Expr) -> bool {
        if !self.c.circuit {
            return false;
        }
        match strip(e) {
            Expr::MethodCall(m) => m.method == "ns" && m.args.len() == 1,
            Expr::Reference(r) => self.is_cs(&r.expr),
            Expr::Path(_) => Self::single(e).map_or(false, |n| {
                self.c.cs.contains(&n) || self.look(&n).map_or(false, |b| self.c.cs.contains(&b.emit))
            }),
            _ => false,
        }
    }
    /// the value of a parameterless closure that runs only while proving
    fn lazy_val(&mut self, cs: &str, e: &Expr) -> R<String> {
        self.drops.insert("assignment closures run in place, when the constraint system wants values".into());
        let b = match strip(e) {
            Expr::Closure(c) if c.inputs.is_empty() => self.ex(&c.body, false)?,
            _ => {
                let f = self.ex(e, false)?;
                match self.c.calls.get(&f).cloned() {
                    Some(t) => Self::template(&t, &[f]),
                    None => format!("{}()", f),
                }
            }
        };
        Ok(format!("if {}.proving() {{ Some(vres({})?) }} else {{ None }}", cs, b))
    }
    /// a linear combination given as a function of the empty one
    fn lc_arg(&mut self, e: &Expr) -> R<String> {
        match strip(e) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                self.push();
                let q = match &c.inputs[0] {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                let p = self.pat(q, Kind::Other, false)?;
                let b = self.ex(&c.body, false)?;
                self.pop();
                Ok(if p == "_" { b } else { format!("{{ let {} = LinearCombination::lc_zero(); {} }}", p, b) })
            }
            _ => Err("constraint operand".into()),
        }
    }
    /// bind a pattern to an iteration element; returns the lets and the write-backs
    fn bind_elem(&mut self, p: &Pat, e: &Elem, lets: &mut Vec<String>, wb: &mut Vec<String>) -> R<()> {
        match (p, e) {
            (Pat::Wild(_), _) => Ok(()),
            (Pat::Type(t), e) => self.bind_elem(&t.pat, e, lets, wb),
            (Pat::Paren(t), e) => self.bind_elem(&t.pat, e, lets, wb),
            (Pat::Reference(r), e) => self.bind_elem(&r.pat, e, lets, wb),
            (Pat::Tuple(t), Elem::Tuple(es)) => {
                if t.elems.len() != es.len() {
                    return Err("tuple pattern arity".into());
                }
                for (q, x) in t.elems.iter().zip(es) {
                    self.bind_elem(q, x, lets, wb)?;
                }
                Ok(())
            }
            (Pat::Ident(i), Elem::Idx(x)) => {
                let n = self.bind(&i.ident.to_string(), Kind::Val);
                if self.c.refs.contains(&n) {
                    let name = i.ident.to_string();
                    self.scopes.last_mut().unwrap().get_mut(&name).unwrap().kind = Kind::Other;
                    lets.push(format!("let {} = &{};", n, x));
                } else {
                    lets.push(format!("let {}{} = {};", if i.mutability.is_some() { "mut " } else { "" }, n, x));
                }
                Ok(())
            }
            (Pat::Tuple(t), Elem::Idx(x)) if !t.elems.is_empty() && t.elems.iter().all(|q| matches!(q, Pat::Ident(i) if i.by_ref.is_some())) => {
                let mut v = vec![];
                for q in &t.elems {
                    if let Pat::Ident(i) = q {
                        v.push(self.bind(&i.ident.to_string(), Kind::Other));
                    }
                }
                lets.push(format!("let ({}) = &{};", v.join(", "), x));
                Ok(())
            }
            (Pat::Tuple(t), Elem::Idx(x)) if t.elems.iter().all(|q| !matches!(q, Pat::Ident(i) if i.by_ref.is_some())) && t.elems.iter().any(|q| matches!(q, Pat::Ident(i) if self.c.refs.contains(&i.ident.to_string()))) => {
                let s = self.pat(p, Kind::Other, false)?;
                lets.push(format!("let {} = &{};", s, x));
                Ok(())
            }
            (_, Elem::Idx(x)) => {
                let s = self.pat(p, Kind::Val, false)?;
                lets.push(format!("let {} = {};", s, x));
                Ok(())
            }
            (Pat::Ident(i), Elem::Mut(x)) if i.subpat.is_none() && self.c.refs.contains(&i.ident.to_string()) => {
                // kept a mutable borrow of the element
                let n = self.bind(&i.ident.to_string(), Kind::Other);
                lets.push(format!("let {}{} = &mut {};", if i.mutability.is_some() { "mut " } else { "" }, n, x));
                Ok(())
            }
            (Pat::Ident(i), Elem::Mut(x)) if i.subpat.is_none() && x.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| i.ident == w) => {
                // the element has the name of its collection: write it back under another name
                let n = format!("{}_elem", self.bind(&i.ident.to_string(), Kind::Val));
                self.scopes.last_mut().unwrap().get_mut(&i.ident.to_string()).unwrap().emit = n.clone();
                lets.push(format!("let mut {} = {};", n, x));
                wb.push(format!("{} = {};", x, n));
                Ok(())
            }
            (_, Elem::Mut(x)) => {
                let s = self.pat(p, Kind::Val, true)?;
                let mut w = s.replace("mut ", "");
                // name the holes
                let mut s2 = s;
                let mut k = 0;
                while let Some(pos) = find_hole(&s2) {
                    let nm = format!("w{}_", k);
                    s2.replace_range(pos..pos + 1, &nm);
                    let p2 = find_hole(&w).unwrap();
                    w.replace_range(p2..p2 + 1, &nm);
                    k += 1;
                }
                lets.push(format!("let {} = {};", s2, x));
                wb.push(format!("{} = {};", x, w));
                Ok(())
            }
            (Pat::Ident(i), Elem::Expr(x)) => {
                let n = self.bind(&i.ident.to_string(), Kind::Val);
                lets.push(format!("let {}{} = {};", if i.mutability.is_some() { "mut " } else { "" }, n, x));
                Ok(())
            }
            (_, Elem::Expr(x)) => {
                let s = self.pat(p, Kind::Val, false)?;
                lets.push(format!("let {} = {};", s, x));
                Ok(())
            }
            (Pat::Ident(i), Elem::Tuple(_)) => {
                let v = self.elem_val(e)?;
                let n = self.bind(&i.ident.to_string(), Kind::Val);
                lets.push(format!("let {} = {};", n, v));
                Ok(())
            }
            _ => Err(format!("iteration pattern `{}`", txt(p))),
        }
    }
    fn elem_val(&self, e: &Elem) -> R<String> {
        Ok(match e {
            Elem::Idx(x) | Elem::Expr(x) => x.clone(),
            Elem::Tuple(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.elem_val(x)?);
                }
                format!("({})", o.join(", "))
            }
            Elem::Mut(_) => return Err("mutable element as a value".into()),
        })
    }
    // ---- iterator chains ----
    fn is_chain(e: &Expr) -> bool {
        match strip(e) {
            Expr::Range(r) => r.end.is_some() && r.start.is_some(),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if (n == "iter" || n == "iter_mut" || n == "into_iter" || n == "chars" || n == "elements") && m.args.is_empty() {
                    return true;
                }
                if n == "chunks" && m.args.len() == 1 {
                    return true;
                }
                (ADAPT.contains(&n.as_str()) || n == "flat_map") && Self::is_chain(&m.receiver)
            }
            _ => false,
        }
    }
    fn place(&mut self, e: &Expr) -> R<(String, Option<(String, String)>)> {
        // a place, or a range slice of a place: (text, Some((lo,hi)))
        match strip(e) {
            Expr::Reference(r) => self.place(&r.expr),
            Expr::Index(ix) => {
                if let Expr::Range(r) = strip(&ix.index) {
                    let b = self.ex(&ix.expr, false)?;
                    let lo = match &r.start {
                        Some(s) => self.ex(s, false)?,
                        None => "0".into(),
                    };
                    let hi = match &r.end {
                        Some(s) => {
                            let h = self.ex(s, false)?;
                            if matches!(r.limits, RangeLimits::Closed(_)) {
                                format!("{} + 1", h)
                            } else {
                                h
                            }
                        }
                        None => format!("{}.len()", b),
                    };
                    return Ok((b, Some((lo, hi))));
                }
                Ok((self.ex(e, false)?, None))
            }
            _ => Ok((self.ex(e, false)?, None)),
        }
    }
    /// `let s = <iterator>;`: the elements are collected where the iterator is made
    fn iterators(mut b: Block) -> Block {
        struct Ren(String);
        impl syn::visit_mut::VisitMut for Ren {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::MethodCall(m) = e {
                    if Em::single(&m.receiver).as_deref() == Some(&self.0) {
                        let r = m.receiver.clone();
                        m.receiver = parse_quote!(#r.into_iter());
                        for a in m.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        return;
                    }
                }
                syn::visit_mut::visit_expr_mut(self, e);
            }
        }
        for i in 0..b.stmts.len() {
            let mut name = None;
            if let Stmt::Local(l) = &mut b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &mut l.init) {
                    let e = strip(&init.expr).clone();
                    if matches!(&e, Expr::MethodCall(m) if ADAPT.contains(&m.method.to_string().as_str()) || m.method == "flat_map") && Self::is_chain(&e) {
                        name = Some(p.ident.to_string());
                        *init.expr = parse_quote!(#e.collect::<Vec<_>>());
                    }
                }
            }
            if let Some(n) = name {
                for st in b.stmts[i + 1..].iter_mut() {
                    syn::visit_mut::VisitMut::visit_stmt_mut(&mut Ren(n.clone()), st);
                }
            }
        }
        b
    }
    fn lower_base(&mut self, e: &Expr, k: &str, mutable: bool) -> R<Chain> {
        let (p, sl) = self.place(e)?;
        let mut inner = strip(e);
        while let Expr::Reference(r) = inner {
            inner = strip(&r.expr);
        }
        Ok(match sl {
            None if !mutable && matches!(inner, Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_) | Expr::Macro(_)) => {
                // the collection is computed once
                let h = format!("base{}", self.nbase);
                self.nbase += 1;
                Chain { setup: vec![format!("let {} = {};", h, p)], lo: "0".into(), hi: format!("{}.len()", h), pre: vec![], closers: 0, elem: Elem::Idx(format!("{}[{}]", h, k)), wb: vec![] }
            }
            None => {
                let x = format!("{}[{}]", p, k);
                Chain { setup: vec![], lo: "0".into(), hi: format!("{}.len()", p), pre: vec![], closers: 0, elem: if mutable { Elem::Mut(x) } else { Elem::Idx(x) }, wb: vec![] }
            }
            Some((lo, hi)) => {
                let x = if lo == "0" { format!("{}[{}]", p, k) } else { format!("{}[{} + {}]", p, lo, k) };
                let len = if lo == "0" { hi.clone() } else { format!("({} - {})", hi, lo) };
                Chain {
                    setup: vec![format!("vassert({} <= {} && {} <= {}.len());", lo, hi, hi, p)],
                    lo: "0".into(),
                    hi: len,
                    pre: vec![],
                    closers: 0,
                    elem: if mutable { Elem::Mut(x) } else { Elem::Idx(x) },
                    wb: vec![],
                }
            }
        })
    }
    fn lower(&mut self, e: &Expr, k: &str) -> R<Chain> {
        match strip(e) {
            Expr::Range(r) => {
                let lo = self.ex(r.start.as_ref().ok_or("range start")?, false)?;
                let mut hi = self.ex(r.end.as_ref().ok_or("range end")?, false)?;
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    hi = format!("({} + 1)", hi);
                }
                Ok(Chain { setup: vec![], lo, hi, pre: vec![], closers: 0, elem: Elem::Expr(k.into()), wb: vec![] })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "into_iter" | "iter_mut" if m.args.is_empty() => {
                        if Self::is_chain(&m.receiver) {
                            return self.lower(&m.receiver, k);
                        }
                        if let Expr::Call(c) = strip(&m.receiver) {
                            if txt(&c.func) == "Some" && c.args.len() == 1 {
                                let v = self.ex(&c.args[0], false)?;
                                return Ok(Chain { setup: vec![], lo: "0".into(), hi: "1".into(), pre: vec![], closers: 0, elem: Elem::Expr(v), wb: vec![] });
                            }
                        }
                        if let Expr::Field(f) = strip(&m.receiver) {
                            // a map: its entries, in some order
                            if let Some(t) = self.c.methods.get(&format!("iter@{}", txt(&f.member))).cloned() {
                                let v = self.ex(&m.receiver, false)?;
                                let h = format!("base{}", self.nbase);
                                self.nbase += 1;
                                return Ok(Chain { setup: vec![format!("let {} = {};", h, Self::template(&t, &[v]))], lo: "0".into(), hi: format!("{}.len()", h), pre: vec![], closers: 0, elem: Elem::Idx(format!("{}[{}]", h, k)), wb: vec![] });
                            }
                        }
                        let c = self.lower_base(&m.receiver, k, n == "iter_mut")?;
                        Ok(if self.c.clones && n == "into_iter" { Self::cloned(c) } else { c })
                    }
                    "elements" => {
                        let v = self.ex(&m.receiver, false)?;
                        let h = format!("base{}", self.nbase);
                        self.nbase += 1;
                        Ok(Chain { setup: vec![format!("let {} = {}.elements();", h, v)], lo: "0".into(), hi: format!("{}.len()", h), pre: vec![], closers: 0, elem: Elem::Idx(format!("{}[{}]", h, k)), wb: vec![] })
                    }
                    "chunks" => {
                        let p = self.ex(&m.receiver, false)?;
                        let n = self.ex(&m.args[0], false)?;
                        self.drops.insert("`.chunks(n)` is the subranges of n elements".into());
                        Ok(Chain { setup: vec![], lo: "0".into(), hi: format!("vnchunks({}.len(), {})", p, n), pre: vec![], closers: 0, elem: Elem::Expr(format!("vchunk(&{}, {}, {})", p, n, k)), wb: vec![] })
                    }
                    "chars" => {
                        let t = self.c.methods.get("chars").cloned().ok_or("chars")?;
                        let v = self.ex(&m.receiver, false)?;
                        let h = k.replacen('k', "chars", 1);
                        Ok(Chain { setup: vec![format!("let {} = {};", h, Self::template(&t, &[v]))], lo: "0".into(), hi: format!("{}.len()", h), pre: vec![], closers: 0, elem: Elem::Idx(format!("{}[{}]", h, k)), wb: vec![] })
                    }
                    "cloned" if self.c.clones => {
                        let c = self.lower(&m.receiver, k)?;
                        Ok(Self::cloned(c))
                    }
                    "cloned" | "copied" => self.lower(&m.receiver, k),
                    "enumerate" => {
                        let c = self.lower(&m.receiver, k)?;
                        if c.lo != "0" || c.closers > 0 {
                            return Err("enumerate after an offset or a filter".into());
                        }
                        Ok(Chain { elem: Elem::Tuple(vec![Elem::Expr(k.into()), c.elem.clone()]), ..c })
                    }
                    "zip" => {
                        let a = self.lower(&m.receiver, k)?;
                        let arg = strip(&m.args[0]);
                        let b = if Self::is_chain(arg) { self.lower(arg, k)? } else { self.zip_arg(arg, k)? };
                        if a.closers + b.closers > 0 {
                            return Err("zip after a filter".into());
                        }
                        let (a, b) = (Self::from_zero(a, k)?, Self::from_zero(b, k)?);
                        let mut c = a;
                        c.setup.extend(b.setup);
                        c.pre.extend(b.pre);
                        c.wb.extend(b.wb);
                        c.hi = format!("vmin({}, {})", c.hi, b.hi);
                        c.elem = Elem::Tuple(vec![c.elem, b.elem]);
                        Ok(c)
                    }
                    "skip" => {
                        let n = self.ex(&m.args[0], false)?;
                        let c = self.lower(&m.receiver, k)?;
                        if c.lo != "0" || c.closers > 0 {
                            return Err("skip after an offset or a filter".into());
                        }
                        Ok(Chain { lo: n, ..c })
                    }
                    "take" => {
                        let n = self.ex(&m.args[0], false)?;
                        let c = self.lower(&m.receiver, k)?;
                        if c.lo != "0" || c.closers > 0 {
                            return Err("take after an offset or a filter".into());
                        }
                        Ok(Chain { hi: format!("vmin({}, {})", c.hi, n), ..c })
                    }
                    "cycle" => {
                        // one value, again and again
                        if let Expr::MethodCall(it) = strip(&m.receiver) {
                            if let Expr::Call(c) = strip(&it.receiver) {
                                if txt(&c.func) == "Some" && c.args.len() == 1 {
                                    let v = self.ex(strip(&c.args[0]), false)?;
                                    let v = v.trim_start_matches('&').to_string();
                                    return Ok(Chain { setup: vec![], lo: "0".into(), hi: "usize::MAX".into(), pre: vec![], closers: 0, elem: Elem::Expr(v), wb: vec![] });
                                }
                            }
                        }
                        Err("cycle of a collection".into())
                    }
                    "chain" => {
                        let mut a = self.lower(&m.receiver, k)?;
                        let arg = strip(&m.args[0]);
                        let b = if Self::is_chain(arg) { self.lower(arg, k)? } else { self.zip_arg(arg, k)? };
                        if a.closers + b.closers > 0 || !a.pre.is_empty() || !b.pre.is_empty() || !a.wb.is_empty() || !b.wb.is_empty() || b.lo != "0" {
                            return Err("chain of computed iterators".into());
                        }
                        if a.lo != "0" {
                            a.elem = subst_idx(&a.elem, k, &format!("({} + {})", k, a.lo));
                            a.hi = format!("vsub0({}, {})", a.hi, a.lo);
                            a.lo = "0".into();
                        }
                        let h = k.replacen('k', "first", 1);
                        let be = subst_idx(&b.elem, k, &format!("({} - {})", k, h));
                        let (mut x, y) = (self.elem_val(&a.elem)?, self.elem_val(&be)?);
                        if y.starts_with('&') && matches!(a.elem, Elem::Idx(_)) {
                            x = format!("&{}", x);
                        }
                        let mut setup = a.setup;
                        setup.extend(b.setup);
                        setup.push(format!("let {}: usize = {};", h, a.hi));
                        let hi = if b.hi == "usize::MAX" { b.hi } else { format!("({} + {})", h, b.hi) };
                        Ok(Chain { setup, lo: "0".into(), hi, pre: vec![], closers: 0, elem: Elem::Expr(format!("if {} < {} {{ {} }} else {{ {} }}", k, h, x, y)), wb: vec![] })
                    }
                    "rev" => {
                        // the element at k is the element at lo + hi - 1 - k
                        let end = k.replacen('k', "end", 1);
                        let lo = k.replacen('k', "lo", 1);
                        let c = self.lower(&m.receiver, k)?;
                        let idx = if c.lo == "0" { format!("({} - 1 - {})", end, k) } else { format!("({} - 1 - ({} - {}))", end, k, lo) };
                        if c.closers > 0 || !c.pre.is_empty() {
                            return Err("rev after a map or filter".into());
                        }
                        let el = subst_idx(&c.elem, k, &idx);
                        Ok(Chain { elem: el, ..c })
                    }
                    "map" | "filter" => {
                        let mut c = self.lower(&m.receiver, k)?;
                        let cl = match strip(&m.args[0]) {
                            Expr::Closure(cl) => cl.clone(),
                            Expr::Path(_) if n == "map" => {
                                let f = self.ex(&m.args[0], false)?;
                                let v = self.elem_val(&c.elem)?;
                                if let Some(t) = self.c.calls.get(&f).cloned() {
                                    return Ok(Chain { elem: Elem::Expr(Self::template(&t, &[f, v])), ..c });
                                }
                                return Ok(Chain { elem: Elem::Expr(format!("{}({})", f, v)), ..c });
                            }
                            _ => return Err("map of a non-closure".into()),
                        };
                        if cl.inputs.len() != 1 {
                            return Err("closure arity".into());
                        }
                        self.push(); // closed by the caller of the loop (scopes are popped with the body)
                        let el = c.elem.clone();
                        let mut wb = vec![];
                        self.bind_elem(&cl.inputs[0], &el, &mut c.pre, &mut wb)?;
                        c.wb.extend(wb);
                        let v = self.tail(&cl.body)?;
                        if n == "map" {
                            Ok(Chain { elem: Elem::Expr(v), ..c })
                        } else {
                            c.pre.push(format!("if {} {{", v));
                            c.closers += 1;
                            Ok(c)
                        }
                    }
                    _ => Err(format!("iterator adapter {}", n)),
                }
            }
            _ => Err("iterator source".into()),
        }
    }
    /// the same chain, counted from zero
    fn from_zero(mut c: Chain, k: &str) -> R<Chain> {
        if c.lo != "0" {
            if !c.pre.is_empty() || !c.wb.is_empty() {
                return Err("zip of a computed iterator after an offset".into());
            }
            c.elem = subst_idx(&c.elem, k, &format!("({} + {})", k, c.lo));
            c.hi = format!("vsub0({}, {})", c.hi, c.lo);
            c.lo = "0".into();
        }
        Ok(c)
    }
    fn cloned(c: Chain) -> Chain {
        match c.elem {
            Elem::Idx(x) => Chain { elem: Elem::Expr(format!("{}.clone()", x)), ..c },
            _ => c,
        }
    }
    fn zip_arg(&mut self, e: &Expr, k: &str) -> R<Chain> {
        match e {
            Expr::Call(c) if self.c.clones && txt(&c.func) == "Some" && c.args.len() == 1 => {
                let v = self.ex(&c.args[0], false)?;
                let v = if v.starts_with('&') { v } else { format!("{}.clone()", v) };
                Ok(Chain { setup: vec![], lo: "0".into(), hi: "1".into(), pre: vec![], closers: 0, elem: Elem::Expr(v), wb: vec![] })
            }
            Expr::Reference(r) => self.lower_base(&r.expr, k, r.mutability.is_some()),
            _ => self.lower_base(e, k, false),
        }
    }
    /// value of a closure body (a block closure becomes a block expression)
    fn tail(&mut self, e: &Expr) -> R<String> {
        self.ex(e, false)
    }
    fn emit_loop(&mut self, n: usize, c: &Chain, binds: Vec<String>, body: String, inc_first: bool, extra_cond: &str) -> String {
        let mut o = String::new();
        let k = format!("k{}", n);
        for s in &c.setup {
            o += &format!("{}\n", s);
        }
        let uty = if self.isz.contains(&c.hi) { "isize" } else { "usize" };
        o += &format!("let end{}: {} = {};\n", n, uty, c.hi);
        let inv;
        if c.lo == "0" {
            o += &format!("let mut {}: {} = 0;\n", k, uty);
            inv = format!("{} <= end{},", k, n);
        } else {
            o += &format!("let lo{}: usize = {};\nlet mut {}: usize = lo{};\n", n, c.lo, k, n);
            inv = format!("lo{} <= {}, {} <= end{} || {} == lo{},", n, k, k, n, k, n);
        }
        o += &format!("/*@lb{}@*/\nwhile {} < end{}{}\n    invariant {}\n/*@inv{}@*/\n    decreases end{} - {},\n{{\n/*@ls{}@*/\n", n, k, n, extra_cond, inv, n, n, k, n);
        for s in &c.pre {
            o += s;
            o += "\n";
        }
        for s in &binds {
            o += s;
            o += "\n";
        }
        if inc_first {
            o += &format!("/*@li{}@*/ {} = {} + 1;\n", n, k, k);
        }
        o += &format!("/*@lm{}@*/\n", n);
        o += &body;
        o += "\n";
        for s in &c.wb {
            o += s;
            o += "\n";
        }
        for _ in 0..c.closers {
            o += "}\n";
        }
        o += &format!("/*@le{}@*/\n", n);
        if !inc_first {
            o += &format!("{} = {} + 1;\n", k, k);
        }
        o += &format!("/*@lx{}@*/\n}}\n/*@la{}@*/\n", n, n);
        o
    }
    fn new_loop(&mut self, kind: &str) -> usize {
        self.loops.push(kind.to_string());
        self.loops.len() - 1
    }
    fn for_loop(&mut self, f: &ExprForLoop) -> R<String> {
        if f.label.is_some() {
            return Err("labelled loop".into());
        }
        self.drops.insert("`for` and iterator chains are unfolded into index loops".into());
        let n = self.new_loop("for");
        let k = format!("k{}", n);
        let depth = self.scopes.len();
        self.push();
        let it = strip(&f.expr);
        let c = if Self::is_chain(it) {
            self.lower(it, &k)?
        } else {
            self.zip_arg(it, &k)?
        };
        let mut c = c;
        let mut binds = vec![];
        let mut wb = vec![];
        let el = c.elem.clone();
        self.bind_elem(&f.pat, &el, &mut binds, &mut wb)?;
        c.wb.extend(wb);
        let cont = has_continue(&f.body);
        if cont && (!c.wb.is_empty() || c.closers > 0) {
            return Err("continue in a mutable or filtered loop".into());
        }
        let body = self.block_inner(&f.body, true)?;
        self.scopes.truncate(depth);
        Ok(self.emit_loop(n, &c, binds, body, cont, ""))
    }
    fn terminal(&mut self, m: &ExprMethodCall) -> R<String> {
        self.terminal_(m, false)
    }
    fn terminal_try(&mut self, m: &ExprMethodCall) -> R<String> {
        self.terminal_(m, true)
    }
    fn terminal_(&mut self, m: &ExprMethodCall, tried: bool) -> R<String> {
        let t = m.method.to_string();
        if t == "collect" && !tried && m.turbofish.as_ref().map_or(false, |t| txt(t).starts_with("::<Result<")) {
            return Err("collect of results without `?`".into());
        }
        self.drops.insert("`for` and iterator chains are unfolded into index loops".into());
        let n = self.new_loop(&t);
        let k = format!("k{}", n);
        let depth = self.scopes.len();
        self.push();
        let mut init = String::new();
        if t == "fold" {
            init = self.ex(&m.args[0], false)?;
        }
        let mut flat = None;
        let mut src: &Expr = &m.receiver;
        if t == "collect" && !tried {
            if let Expr::MethodCall(fm) = strip(src) {
                if fm.method == "flat_map" && fm.args.len() == 1 {
                    if let Expr::Closure(cl) = strip(&fm.args[0]) {
                        flat = Some(cl.clone());
                        src = &fm.receiver;
                    }
                }
            }
        }
        let mut c = self.lower(src, &k)?;
        let el = c.elem.clone();
        let acc = format!("acc{}", n);
        let mut binds = vec![];
        let (pre, body, post, cond) = match t.as_str() {
            "sum" => {
                let v = self.elem_val(&el)?;
                if v.ends_with(" as usize)") || v.ends_with(".len()") || v.ends_with(".len())") {
                    (format!("let mut {}: usize = 0;\n", acc), format!("{} = {} + ({});", acc, acc, v), acc.clone(), String::new())
                } else {
                (format!("let mut {} = {}::zero();\n", acc, self.scalar()), format!("{} = {} + ({});", acc, acc, v), acc.clone(), String::new())
                }
            }
            "product" => {
                let v = self.elem_val(&el)?;
                (format!("let mut {} = {}::one();\n", acc, self.scalar()), format!("{} = {} * ({});", acc, acc, v), acc.clone(), String::new())
            }
            "collect" if flat.is_some() => {
                let cl = flat.unwrap();
                if cl.inputs.len() != 1 {
                    return Err("closure arity".into());
                }
                self.push();
                let mut wb = vec![];
                self.bind_elem(&cl.inputs[0], &el, &mut binds, &mut wb)?;
                c.wb.extend(wb);
                let v = if Self::is_chain(strip(&cl.body)) {
                    let b = &cl.body;
                    let cc: ExprMethodCall = parse_quote!(#b.collect());
                    self.terminal_(&cc, false)?
                } else {
                    self.ex(&cl.body, false)?
                };
                self.drops.insert("`flat_map` appends the collected parts".into());
                (format!("let mut {}/*@ty:{}@*/ = Vec::new();\n", acc, acc), format!("let el{} = {};\nvappend(&mut {}, el{});", n, v, acc, n), acc.clone(), String::new())
            }
            "collect" => {
                let mut v = self.elem_val(&el)?;
                if self.chain_arg {
                    v = v.trim_start_matches('&').to_string();
                }
                (format!("let mut {}/*@ty:{}@*/ = Vec::new();\n", acc, acc), format!("let el{} = {}{};\n{}.push(el{});", n, v, if tried { "?" } else { "" }, acc, n), acc.clone(), String::new())
            }
            "all" | "any" | "for_each" | "fold" => {
                let cl = match strip(&m.args[if t == "fold" { 1 } else { 0 }]) {
                    Expr::Closure(cl) => cl.clone(),
                    _ => return Err("non-closure".into()),
                };
                let mut wb = vec![];
                if t == "fold" {
                    if cl.inputs.len() != 2 {
                        return Err("fold arity".into());
                    }
                    // the accumulator parameter
                    let s = self.pat(&cl.inputs[0], Kind::Val, true)?;
                    binds.push(format!("let {} = {};", s, acc));
                    self.bind_elem(&cl.inputs[1], &el, &mut binds, &mut wb)?;
                } else {
                    self.bind_elem(&cl.inputs[0], &el, &mut binds, &mut wb)?;
                }
                c.wb.extend(wb);
                let v = self.ex(&cl.body, false)?;
                match t.as_str() {
                    "fold" => (format!("let mut {} = {};\n", acc, init), format!("{} = {};", acc, v), acc.clone(), String::new()),
                    "all" => (format!("let mut {} = true;\n", acc), format!("{} = {};", acc, v), acc.clone(), format!(" && {}", acc)),
                    "any" => (format!("let mut {} = false;\n", acc), format!("{} = {};", acc, v), acc.clone(), format!(" && !{}", acc)),
                    _ => (String::new(), format!("{};", v), "".into(), String::new()),
                }
            }
            _ => return Err(t),
        };
        self.scopes.truncate(depth);
        let l = self.emit_loop(n, &c, binds, body, false, &cond);
        Ok(format!("{{\n{}{}{}\n}}", pre, l, post))
    }
    fn scalar(&self) -> String {
        self.c.scalar.get(0).cloned().unwrap_or("F".into())
    }
    // ---- expressions ----
    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>) -> R<Vec<String>> {
        let mut v = vec![];
        for e in a {
            if self.c.circuit && Self::is_chain(e) {
                if let Expr::MethodCall(m) = strip(e) {
                    if !m.args.is_empty() {
                        // an iterator argument is collected first
                        let c: ExprMethodCall = parse_quote!(#e.collect());
                        self.chain_arg = true;
                        let s = self.terminal_(&c, false);
                        self.chain_arg = false;
                        v.push(format!("{}.as_slice()", s?));
                        continue;
                    }
                }
            }
            v.push(self.ex(e, false)?);
        }
        Ok(v)
    }
    fn ex(&mut self, e: &Expr, st: bool) -> R<String> {
        Ok(match e {
            Expr::Lit(l) if matches!(&l.lit, Lit::ByteStr(b) if b.value().is_ascii()) => {
                self.drops.insert("ASCII byte string literals become string literals".into());
                match &l.lit { Lit::ByteStr(b) => format!("{:?}", String::from_utf8(b.value()).unwrap()), _ => unreachable!() }
            }
            Expr::Lit(l) => txt(l),
            Expr::Path(p) => {
                if st {
                    if let Some(n) = Self::single(e) {
                        if let Some(b) = self.look(&n) {
                            if b.kind == Kind::RefF {
                                return Ok(format!("(*{})", b.emit));
                            }
                        }
                    }
                }
                if let Some((n, Kind::Copied)) = self.kind_of(e) {
                    return Ok(format!("&{}", n));
                }
                self.path(p)?
            }
            Expr::Paren(p) => {
                let s = self.ex(&p.expr, st)?;
                format!("({})", s)
            }
            Expr::Group(g) => self.ex(&g.expr, st)?,
            Expr::Reference(r) => {
                if st {
                    return self.ex(&r.expr, st);
                }
                if let Expr::Index(ix) = strip(&r.expr) {
                    if matches!(strip(&ix.index), Expr::Range(_)) && r.mutability.is_none() {
                        return self.slice(&r.expr);
                    }
                }
                if r.mutability.is_some() && self.is_cs(&r.expr) {
                    return self.ex(&r.expr, false);
                }
                if let Some((n, Kind::Copied)) = self.kind_of(&r.expr) {
                    return Ok(format!("&{}", n));
                }
                // a reference to a by-value binding of an array/vector element stays a reference
                let s = self.ex(&r.expr, false)?;
                format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, s)
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    if let Expr::MethodCall(m) = strip(&u.expr) {
                        // `*temporary.square_in_place()`: the value
                        let name = m.method.to_string();
                        let temp = !matches!(strip(&m.receiver), Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::Unary(_));
                        if let (Some(p), true, true) = (name.strip_suffix("_in_place"), temp, m.args.is_empty()) {
                            let r = self.operand(&m.receiver)?;
                            return Ok(format!("{}.{}()", r, p));
                        }
                    }
                    if let Some(n) = Self::single(&u.expr) {
                        if let Some(b) = self.look(&n) {
                            if b.kind == Kind::Val || b.kind == Kind::Copied {
                                return Ok(b.emit.clone());
                            }
                        }
                    }
                    let s = self.ex(&u.expr, false)?;
                    format!("(*{})", s)
                }
                UnOp::Neg(_) => {
                    let s = self.operand(&u.expr)?;
                    match self.c.ops.get("neg") {
                        Some(t) => Self::template(t, &[s]),
                        None => format!("vneg({})", s),
                    }
                }
                UnOp::Not(_) => {
                    let s = self.ex(&u.expr, false)?;
                    format!("!{}", s)
                }
                _ => return Err("unary operator".into()),
            },
            Expr::Binary(b) => self.binary(b)?,
            Expr::Assign(a) => {
                let l = self.ex(&a.left, false)?;
                let r = self.ex(&a.right, false)?;
                format!("{} = {}", l, r)
            }
            Expr::Cast(c) => {
                let s = self.ex(&c.expr, false)?;
                let t = self.ty(&c.ty)?;
                format!("({} as {})", s, t)
            }
            Expr::Tuple(t) => {
                let v = self.args(&t.elems)?;
                format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
            }
            Expr::Array(t) => {
                let v = self.args(&t.elems)?;
                if self.c.arrays {
                    self.drops.insert("arrays are vectors".into());
                    return Ok(format!("vec![{}]", v.join(", ")));
                }
                format!("[{}]", v.join(", "))
            }
            Expr::Repeat(r) => {
                let a = self.ex(&r.expr, false)?;
                let b = self.ex(&r.len, false)?;
                if self.c.circuit || self.c.arrays {
                    self.drops.insert("arrays are vectors".into());
                    return Ok(format!("vec![{}; {}]", a, b));
                }
                format!("[{}; {}]", a, b)
            }
            Expr::Field(f) => {
                let s = self.recv(&f.base)?;
                format!("{}.{}", s, txt(&f.member))
            }
            Expr::Index(ix) => {
                if matches!(strip(&ix.index), Expr::Range(_)) {
                    return Err("range index outside a reference".into());
                }
                let a = self.ex(&ix.expr, false)?;
                let b = self.ex(&ix.index, false)?;
                if let Expr::Field(f) = strip(&ix.expr) {
                    // a map
                    if let Some(t) = self.c.methods.get(&format!("index@{}", txt(&f.member))) {
                        return Ok(Self::template(t, &[a, b]));
                    }
                }
                format!("{}[{}]", a, b)
            }
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    let x = self.ex(&f.expr, false)?;
                    v.push(format!("{}: {}", txt(&f.member), x));
                }
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                let p = self.tystr(&txt(&s.path));
                format!("{} {{ {} }}", p, v.join(", "))
            }
            Expr::Call(c) => {
                let f = self.ex(&c.func, false)?;
                if self.c.circuit && self.c.lazy.contains(&f) && c.args.len() == 2 {
                    let cs = self.ex(&c.args[0], false)?;
                    let v = self.lazy_val(&cs, &c.args[1])?;
                    return Ok(format!("{{ let val_ = {}; {}({}, val_) }}", v, f, cs));
                }
                let mut a = self.args(&c.args)?;
                if let Some(t) = self.c.calls.get(&f).cloned() {
                    a.insert(0, f);
                    return Ok(Self::template(&t, &a));
                }
                format!("{}({})", f, a.join(", "))
            }
            Expr::MethodCall(m) => self.method(m)?,
            Expr::If(i) => {
                self.push();
                let c = self.ex(&i.cond, false)?;
                let t = self.block(&i.then_branch, st)?;
                self.pop();
                let e = match &i.else_branch {
                    Some((_, e)) => format!(" else {}", self.ex(e, st)?),
                    None => String::new(),
                };
                format!("if {} {}{}", c, t, e)
            }
            Expr::Let(l) => {
                let mut s = self.ex(&l.expr, false)?;
                if let Pat::Slice(t) = &*l.pat {
                    // `let [a] = slice`: the slice has exactly that many elements
                    let p = self.pat(&l.pat, Kind::Other, false)?;
                    s = format!("vpat{}({})", t.elems.len(), s);
                    return Ok(format!("let Some({}) = {}", p, s));
                }
                let kind = if self.by_value(&l.expr) { Kind::Val } else { Kind::Other };
                let p = self.pat(&l.pat, kind, false)?;
                format!("let {} = {}", p, s)
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                self.block(&b.block, st)?
            }
            Expr::Match(m) => {
                let de = Self::deref_positions(m);
                let s = match (&de, strip(&m.expr)) {
                    (Some(v), Expr::Tuple(t)) => {
                        self.drops.insert("copyable values matched through references are matched by value".into());
                        let mut o = vec![];
                        for (x, d) in t.elems.iter().zip(v) {
                            o.push(match self.kind_of(x) {
                                Some((n, Kind::Copied)) | Some((n, Kind::Val)) if *d => n,
                                _ if *d => match strip(x) {
                                    Expr::Reference(r) => self.recv(&r.expr)?,
                                    _ => format!("*{}", self.ex(x, false)?),
                                },
                                _ => self.ex(x, false)?,
                            });
                        }
                        format!("({})", o.join(", "))
                    }
                    _ => self.ex(&m.expr, false)?,
                };
                let kind = if self.by_value(&m.expr) { Kind::Val } else { Kind::Other };
                let mut o = format!("match {} {{\n", s);
                for a in &m.arms {
                    self.push();
                    let p = match &de {
                        Some(v) => self.tuple_deref(&a.pat, v)?,
                        None => self.pat(&a.pat, kind, false)?,
                    };
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.ex(g, false)?),
                        None => String::new(),
                    };
                    let b = match &*a.body {
                        Expr::Block(_) => self.ex(&a.body, st)?,
                        x => {
                            let s = self.ex(x, st)?;
                            if is_stmtish(x) {
                                format!("{{ {}; }}", s)
                            } else {
                                s
                            }
                        }
                    };
                    self.pop();
                    o += &format!("{}{} => {},\n", p, g, b);
                }
                o += "}";
                o
            }
            Expr::ForLoop(f) => {
                let s = self.for_loop(f)?;
                format!("{{\n{}}}", s)
            }
            Expr::While(w) => {
                if w.label.is_some() {
                    return Err("labelled loop".into());
                }
                let n = self.new_loop("while");
                self.push();
                if let Expr::Let(l) = strip(&w.cond) {
                    let e = self.ex(&l.expr, false)?;
                    let p = self.pat(&l.pat, Kind::Other, false)?;
                    let b = self.block_inner(&w.body, true)?;
                    self.pop();
                    return Ok(format!("{{\n/*@lb{}@*/\nloop\n/*@winv{}@*/\n{{\n/*@ls{}@*/\nmatch {} {{ {} => {{\n{}\n/*@le{}@*/\n}}, _ => {{ break; }} }}\n}}\n/*@la{}@*/\n}}", n, n, n, e, p, b, n, n));
                }
                let c = self.ex(&w.cond, false)?;
                let b = self.block_inner(&w.body, true)?;
                self.pop();
                format!("{{\n/*@lb{}@*/\nwhile {}\n/*@winv{}@*/\n{{\n/*@ls{}@*/\n{}\n/*@le{}@*/\n}}\n/*@la{}@*/\n}}", n, c, n, n, b, n, n)
            }
            Expr::Loop(w) => {
                let n = self.new_loop("loop");
                self.push();
                let b = self.block_inner(&w.body, true)?;
                self.pop();
                format!("{{\n/*@lb{}@*/\nloop\n/*@winv{}@*/\n{{\n/*@ls{}@*/\n{}\n/*@le{}@*/\n}}\n/*@la{}@*/\n}}", n, n, n, b, n, n)
            }
            Expr::Return(r) => {
                let n = self.nret;
                self.nret += 1;
                match &r.expr {
                    Some(x) => {
                        let s = self.ex(x, false)?;
                        format!("{{ let ret_ = {}; /*@ret{}@*/ return ret_; }}", s, n)
                    }
                    None => format!("{{ /*@ret{}@*/ return; }}", n),
                }
            }
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    return Err("break with value or label".into());
                }
                "break".into()
            }
            Expr::Continue(_) => "continue".into(),
            Expr::Try(t) => {
                if let Expr::MethodCall(m) = strip(&t.expr) {
                    let fish = m.turbofish.as_ref().map_or(String::new(), |t| txt(t));
                    if m.method == "collect" && fish.starts_with("::<Result<") && Self::is_chain(&m.receiver) {
                        return self.terminal_try(m);
                    }
                }
                let s = self.ex(&t.expr, false)?;
                match self.c.ops.get("try") {
                    Some(t) => Self::template(t, &[s]),
                    None => format!("{}?", s),
                }
            }
            Expr::Closure(c) => {
                let n = self.ncl;
                self.ncl += 1;
                self.push();
                let mut ps = vec![];
                let mut lets = String::new();
                for (i, p) in c.inputs.iter().enumerate() {
                    let q = match p {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    if matches!(q, Pat::Ident(_) | Pat::Wild(_)) {
                        ps.push(self.pat(q, Kind::Other, false)?);
                    } else {
                        // references to tuples are destructured by value
                        let s = self.pat(q, Kind::Val, false)?;
                        let a = format!("a{}_{}", n, i);
                        lets += &format!("let {} = {}; ", s, a);
                        ps.push(a);
                    }
                }
                let b = self.ex(&c.body, false)?;
                self.pop();
                format!("/*@cl{}|{}@*/ {{ {}{} }}", n, ps.join(", "), lets, b)
            }
            Expr::Macro(m) => self.mac(&m.mac)?,
            Expr::Range(_) => return Err("range as a value".into()),
            _ => return Err(format!("expression `{}`", txt(e).chars().take(60).collect::<String>())),
        })
    }
    fn by_value(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Path(_) => Self::single(e).and_then(|n| self.look(&n).map(|b| b.kind == Kind::Val)).unwrap_or(false),
            _ => false,
        }
    }
    fn slice(&mut self, e: &Expr) -> R<String> {
        let (p, sl) = self.place(e)?;
        let (lo, hi) = sl.ok_or("slice")?;
        if self.c.slices.contains(&p) {
            Ok(format!("vslice({}, {}, {})", p, lo, hi))
        } else {
            Ok(format!("vslice({}.as_slice(), {}, {})", p, lo, hi))
        }
    }
    fn binary(&mut self, b: &ExprBinary) -> R<String> {
        use BinOp::*;
        let (op, kind) = match b.op {
            Add(_) => ("+", 0),
            Sub(_) => ("-", 0),
            Mul(_) => ("*", 0),
            Div(_) => ("/", 0),
            Rem(_) => ("%", 0),
            BitXor(_) => ("^", 0),
            BitAnd(_) => ("&", 0),
            BitOr(_) => ("|", 0),
            Shl(_) => ("<<", 0),
            Shr(_) => (">>", 0),
            And(_) => ("&&", 1),
            Or(_) => ("||", 1),
            Eq(_) => ("==", 2),
            Lt(_) => ("<", 2),
            Le(_) => ("<=", 2),
            Ne(_) => ("!=", 2),
            Ge(_) => (">=", 2),
            Gt(_) => (">", 2),
            AddAssign(_) => ("+", 3),
            SubAssign(_) => ("-", 3),
            MulAssign(_) => ("*", 3),
            DivAssign(_) => ("/", 3),
            RemAssign(_) => ("%", 3),
            BitXorAssign(_) => ("^", 3),
            BitAndAssign(_) => ("&", 3),
            BitOrAssign(_) => ("|", 3),
            ShlAssign(_) => ("<<", 3),
            ShrAssign(_) => (">>", 3),
            _ => return Err("operator".into()),
        };
        if kind == 1 {
            let l = self.ex(&b.left, false)?;
            let r = self.ex(&b.right, false)?;
            return Ok(format!("({} {} {})", l, op, r));
        }
        let l = self.operand(&b.left)?;
        let r = self.operand(&b.right)?;
        if kind == 3 {
            let l = if let Some(n) = Self::single(&b.left) {
                let _ = n;
                l
            } else {
                l
            };
            if let Some(t) = self.c.ops.get(&format!("{}=", op)) {
                return Ok(Self::template(t, &[l, r]));
            }
            return Ok(format!("{} = {} {} ({})", l, l, op, r));
        }
        let lit = |e: &Expr| matches!(strip(e), Expr::Lit(l) if matches!(l.lit, Lit::Int(_)));
        if lit(&b.left) || lit(&b.right) {
            return Ok(format!("({} {} {})", l, op, r));
        }
        // operator overloads named by the unit: matched on the operand text
        let tl = if l.starts_with(['!', '*', '&', '-']) { format!("({})", l) } else { l.clone() };
        for (key, t) in &self.c.ops {
            if let Some(rest) = key.strip_prefix(op) {
                if rest.is_empty() {
                    return Ok(Self::template(t, &[tl, r]));
                }
                if let Some(pat) = rest.strip_prefix('~') {
                    if txt(&b.left).contains(pat) || txt(&b.right).contains(pat) {
                        return Ok(Self::template(t, &[tl, r]));
                    }
                }
            }
        }
        Ok(format!("({} {} {})", l, op, r))
    }
    fn method(&mut self, m: &ExprMethodCall) -> R<String> {
        let n = m.method.to_string();
        if TERM.contains(&n.as_str()) && Self::is_chain(&m.receiver) {
            return self.terminal(m);
        }
        if self.c.assign && m.args.len() == 1 && !self.c.methods.contains_key(&n) {
            if let Some(op) = match n.as_str() { "add_assign" => Some("+"), "sub_assign" => Some("-"), "mul_assign" => Some("*"), _ => None } {
                self.drops.insert("`x.add_assign(y)` of scalars is `x = x + y`".into());
                let l = self.operand(&m.receiver)?;
                let r = self.operand(&m.args[0])?;
                return Ok(format!("{} = {} {} ({})", l, l, op, r));
            }
        }
        if let ("reverse", 0, Expr::Index(ix)) = (n.as_str(), m.args.len(), strip(&m.receiver)) {
            if let Expr::Range(r) = strip(&ix.index) {
                if let (Some(lo), None) = (&r.start, &r.end) {
                    let (x, lo) = (self.recv(&ix.expr)?, self.ex(lo, false)?);
                    self.drops.insert("`x[a..].reverse()` is a function with a contract".into());
                    return Ok(format!("vrevtail(&mut {}, {})", x, lo));
                }
            }
        }
        if self.c.clones && n == "extend" && m.args.len() == 1 {
            let a = match strip(&m.args[0]) {
                Expr::Reference(r) => strip(&r.expr).clone(),
                x => x.clone(),
            };
            if Self::is_chain(&a) {
                let cc: ExprMethodCall = parse_quote!(#a.collect());
                let v = self.terminal_(&cc, false)?;
                let l = self.recv(&m.receiver)?;
                self.drops.insert("`extend` appends the collected elements".into());
                return Ok(format!("vappend(&mut {}, {})", l, v));
            }
        }
        if m.turbofish.is_some() {
            self.drops.insert("explicit generic arguments (::<..>) on calls".into());
        }
        if self.c.circuit {
            let first_closure = m.args.first().map_or(false, |a| matches!(strip(a), Expr::Closure(_)));
            if n == "ns" && m.args.len() == 1 && first_closure {
                self.drops.insert("names of variables, constraints and namespaces".into());
                return self.recv(&m.receiver);
            }
            if (n == "alloc" || n == "alloc_input") && m.args.len() == 2 && first_closure {
                self.drops.insert("names of variables, constraints and namespaces".into());
                let cs = self.recv(&m.receiver)?;
                let v = self.lazy_val(&cs, &m.args[1])?;
                return Ok(format!("{{ let val_ = {}; {}.{}(val_) }}", v, cs, n));
            }
            if n == "enforce" && m.args.len() == 4 {
                self.drops.insert("names of variables, constraints and namespaces".into());
                let cs = self.recv(&m.receiver)?;
                let mut v = vec![];
                for i in 1..4 {
                    v.push(self.lc_arg(&m.args[i])?);
                }
                let k = self.nenf;
                self.nenf += 1;
                return Ok(format!("{{ let la_ = {}; let lb_ = {}; let lc_ = {}; /*@enf{}@*/ {}.enforce(la_, lb_, lc_); /*@enx{}@*/ }}", v[0], v[1], v[2], k, cs, k));
            }
            if n == "map" && m.args.len() == 1 && first_closure {
                if let (Expr::MethodCall(r), Expr::Closure(cl)) = (strip(&m.receiver), strip(&m.args[0])) {
                    if r.method == "as_mut" && r.args.is_empty() {
                        // Option::as_mut().map(..): the value is changed in place
                        let p = self.recv(&r.receiver)?;
                        self.push();
                        let x = self.pat(&cl.inputs[0], Kind::Val, true)?;
                        let x = x.trim_start_matches("mut ").to_string();
                        let b = self.ex(&cl.body, false)?;
                        self.pop();
                        return Ok(format!("match {} {{ Some({}) => {{ let mut {} = {}; {}; {} = Some({}); }}, None => {{}} }}", p, x, x, x, b, p, x));
                    }
                }
            }
            if n == "map" && m.args.len() == 1 && first_closure && !Self::is_chain(&m.receiver) {
                // Option::map
                if let Expr::Closure(cl) = strip(&m.args[0]) {
                    let r = self.recv(&m.receiver)?;
                    self.push();
                    let p = self.pat(&cl.inputs[0], Kind::Other, false)?;
                    let b = self.ex(&cl.body, false)?;
                    self.pop();
                    return Ok(format!("match {} {{ Some({}) => Some({}), None => None }}", r, p, b));
                }
            }
        }
        // slices as receivers
        let recv = if let Expr::Index(ix) = strip(&m.receiver) {
            if matches!(strip(&ix.index), Expr::Range(_)) {
                self.slice(&m.receiver)?
            } else {
                self.ex(&m.receiver, false)?
            }
        } else {
            self.recv(&m.receiver)?
        };
        let mut a = vec![recv.clone()];
        a.extend(self.args(&m.args)?);
        if let Some(t) = self.c.methods.get(&n).cloned() {
            return Ok(Self::template(&t, &a));
        }
        Ok(format!("{}.{}({})", recv, n, a[1..].join(", ")))
    }
    fn mac(&mut self, m: &Macro) -> R<String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let parse = |m: &Macro| -> R<Vec<Expr>> {
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).map_err(|e| e.to_string())
        };
        match name.as_str() {
            _ if name == "assert" && self.c.macros.contains_key(&name) => {
                let t = self.c.macros[&name].clone();
                let v = parse(m)?;
                let c = self.ex(&v[0], false)?;
                Ok(Self::template(&t, &[c]))
            }
            "assert" | "debug_assert" => {
                let v = parse(m)?;
                let s = self.ex(&v[0], false)?;
                self.drops.insert("assert!/panic! do not return (partial correctness)".into());
                Ok(format!("vassert({})", s))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                let v = parse(m)?;
                let a = self.operand(&v[0])?;
                let b = self.operand(&v[1])?;
                self.drops.insert("assert!/panic! do not return (partial correctness)".into());
                Ok(format!("vassert({} {} {})", a, if name == "assert_ne" { "!=" } else { "==" }, b))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.drops.insert("assert!/panic! do not return (partial correctness)".into());
                Ok("vpanic()".into())
            }
            "println" | "eprintln" | "print" | "dbg" => {
                self.drops.insert("printing".into());
                Ok("()".into())
            }
            "vec" | "smallvec" => {
                let ts = m.tokens.clone();
                if ts.is_empty() {
                    return Ok("Vec::new()".into());
                }
                if let Ok(r) = syn::parse2::<ExprRepeat>(quote::quote! { [ #ts ] }) {
                    let a = self.ex(&r.expr, false)?;
                    let b = self.ex(&r.len, false)?;
                    return Ok(format!("vec![{}; {}]", a, b));
                }
                let v = parse(m)?;
                let mut o = vec![];
                for e in &v {
                    o.push(self.ex(e, false)?);
                }
                Ok(format!("vec![{}]", o.join(", ")))
            }
            _ => {
                if let Some(t) = self.c.macros.get(&name).cloned() {
                    let v = parse(m)?;
                    let mut o = vec![];
                    for e in &v {
                        o.push(self.ex(e, false)?);
                    }
                    return Ok(Self::template(&t, &o));
                }
                Err(format!("macro {}!", name))
            }
        }
    }
    // ---- statements ----
    fn block(&mut self, b: &Block, st: bool) -> R<String> {
        let s = self.block_st(b, st, false, false)?;
        Ok(format!("{{\n{}\n}}", s))
    }
    fn block_inner(&mut self, b: &Block, unit: bool) -> R<String> {
        self.block_st(b, false, unit, false)
    }
    fn block_st(&mut self, b: &Block, st: bool, unit: bool, top: bool) -> R<String> {
        self.push();
        let mut o = String::new();
        let n = b.stmts.len();
        let rewritten;
        let b = if self.c.clones { rewritten = Self::iterators(b.clone()); &rewritten } else { b };
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    if l.attrs.iter().any(|a| a.path().is_ident("cfg")) {
                        return Err("conditional compilation".into());
                    }
                    match &l.init {
                        None => {
                            self.let_pat = true;
                            let p = self.pat(&l.pat, Kind::Other, false);
                            self.let_pat = false;
                            o += &format!("let {};\n", p?);
                        }
                        Some(init) => {
                            if init.diverge.is_some() {
                                return Err("let else".into());
                            }
                            if let (true, Pat::Ident(i), Expr::MethodCall(m)) = (self.c.circuit, &l.pat, match strip(&init.expr) { Expr::Reference(r) => strip(&r.expr), e => e }) {
                                if m.method == "ns" && m.args.len() == 1 && Self::single(&m.receiver).is_some() && self.is_cs(&init.expr) {
                                    // another name of the same constraint system
                                    let emit = self.recv(&m.receiver)?;
                                    let ok = self.c.cs.contains(&emit);
                                    if ok {
                                        self.drops.insert("names of variables, constraints and namespaces".into());
                                        self.scopes.last_mut().unwrap().insert(i.ident.to_string(), Bind { emit, kind: Kind::Other });
                                        continue;
                                    }
                                }
                            }
                            let e = self.ex(&init.expr, false)?;
                            let kind = if self.by_value(&init.expr) { Kind::Val } else { Kind::Other };
                            let before = self.bindings.len();
                            self.let_pat = true;
                            let p = self.pat(&l.pat, kind, false);
                            self.let_pat = false;
                            let mut p = p?;
                            if let (true, false, Pat::Ident(i), Expr::Call(_)) = (self.c.circuit, top, &l.pat, strip(&init.expr)) {
                                let nm = i.ident.to_string();
                                if self.c.cs.contains(&nm) {
                                    // an inner constraint system hides the outer one until the end of the block
                                    let emit = format!("{}_in", nm);
                                    p = format!("mut {}", emit);
                                    self.c.cs.insert(emit.clone());
                                    self.scopes.last_mut().unwrap().insert(nm, Bind { emit, kind: Kind::Other });
                                }
                            }
                            let ty = match &l.pat {
                                Pat::Ident(_) => format!("/*@ty:{}@*/", p.trim_start_matches("mut ")),
                                _ => String::new(),
                            };
                            if e.contains(" as isize") {
                                self.isz.insert(p.trim_start_matches("mut ").to_string());
                            }
                            o += &format!("let {}{} = {};\n", p, ty, e);
                            for j in before..self.bindings.len() {
                                let nm = match self.rename.get(j) {
                                    Some(Some(x)) => x.clone(),
                                    _ => self.bindings[j].clone(),
                                };
                                o += &format!("/*@let:{}@*/\n", nm);
                            }
                        }
                    }
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => return Err("nested item".into()),
                Stmt::Macro(m) => {
                    let mut s = self.mac(&m.mac)?;
                    if s == "vpanic()" && m.semi_token.is_some() {
                        s = "vpanic::<()>()".into();
                    }
                    let last = i + 1 == n && m.semi_token.is_none() && !unit;
                    if last && !top {
                        o += &s;
                    } else if last && top {
                        o += &format!("let ret_ = {};\n/*@fe@*/\nret_", s);
                    } else {
                        o += &format!("{};\n", s);
                    }
                }
                Stmt::Expr(e, semi) => {
                    let last = i + 1 == n && semi.is_none();
                    if let Expr::ForLoop(f) = e {
                        let s = self.for_loop(f)?;
                        o += &s;
                        continue;
                    }
                    if last && !unit {
                        let s = self.ex(e, st)?;
                        if top && !matches!(e, Expr::Return(_)) {
                            o += &format!("let ret_ = {};\n/*@fe@*/\nret_", s);
                        } else {
                            o += &s;
                        }
                    } else {
                        let s = self.ex(e, false)?;
                        if s == "()" {
                            continue;
                        }
                        if matches!(e, Expr::While(_) | Expr::Loop(_)) {
                            o += &s[1..s.len() - 1];
                            o += "\n";
                            continue;
                        }
                        let blockish = matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_));
                        o += &s;
                        o += if blockish && semi.is_none() { "\n" } else { ";\n" };
                    }
                }
            }
        }
        if top && !(matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_)))) {
            o += "/*@fe@*/\n";
        }
        self.pop();
        Ok(o)
    }
}

fn matched(s: &str) -> bool {
    // the first parenthesis closes at the end
    let mut d = 0;
    for (i, c) in s.char_indices() {
        match c {
            '(' => d += 1,
            ')' => {
                d -= 1;
                if d == 0 && i + 1 < s.len() {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}
fn find_hole(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'_' {
            let p = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            let n = i + 1 < b.len() && (b[i + 1].is_ascii_alphanumeric() || b[i + 1] == b'_');
            if !p && !n {
                return Some(i);
            }
        }
    }
    None
}
fn subst_idx(e: &Elem, k: &str, idx: &str) -> Elem {
    let f = |x: &str| {
        let mut o = String::new();
        let mut rest = x;
        while let Some(p) = rest.find(k) {
            let before = rest[..p].chars().last().or(o.chars().last());
            let after = rest[p + k.len()..].chars().next();
            let id = |c: char| c.is_alphanumeric() || c == '_';
            o.push_str(&rest[..p]);
            if before.map_or(false, id) || after.map_or(false, id) {
                o.push_str(k);
            } else {
                o.push_str(idx);
            }
            rest = &rest[p + k.len()..];
        }
        o.push_str(rest);
        o
    };
    match e {
        Elem::Idx(x) => Elem::Idx(f(x)),
        Elem::Mut(x) => Elem::Mut(f(x)),
        Elem::Expr(x) => Elem::Expr(f(x)),
        Elem::Tuple(v) => Elem::Tuple(v.iter().map(|x| subst_idx(x, k, idx)).collect()),
    }
}
fn is_stmtish(e: &Expr) -> bool {
    match e {
        Expr::Assign(_) => true,
        Expr::Binary(b) => {
            use BinOp::*;
            matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_))
        }
        _ => false,
    }
}

struct Found {
    sig: Signature,
    block: Block,
    line: usize,
}

fn find(items: &[Item], want_impl: &str, name: &str, module: &[&str]) -> Vec<Found> {
    let mut out = vec![];
    for it in items {
        match it {
            Item::Fn(f) if want_impl.is_empty() && f.sig.ident == name => {
                out.push(Found { sig: f.sig.clone(), block: (*f.block).clone(), line: f.sig.ident.span().start().line });
            }
            Item::Impl(im) => {
                let h = match &im.trait_ {
                    Some((bang, p, _)) => format!("{}{} for {}", if bang.is_some() { "!" } else { "" }, txt(p), txt(&im.self_ty)),
                    None => txt(&im.self_ty),
                };
                if h == want_impl {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.ident == name {
                                out.push(Found { sig: f.sig.clone(), block: f.block.clone(), line: f.sig.ident.span().start().line });
                            }
                        }
                    }
                }
            }
            Item::Trait(t) => {
                if format!("trait {}", t.ident) == want_impl {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            if f.sig.ident == name {
                                if let Some(b) = &f.default {
                                    out.push(Found { sig: f.sig.clone(), block: b.clone(), line: f.sig.ident.span().start().line });
                                }
                            }
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if m.attrs.iter().any(|a| txt(a).contains("test")) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    out.extend(find(its, want_impl, name, module));
                }
            }
            _ => {}
        }
    }
    out
}

/// types and impls declared inside functions are looked up like those of the module
fn hoist(items: &mut Vec<Item>) {
    let mut out: Vec<Item> = vec![];
    fn blk(b: &mut Block, out: &mut Vec<Item>) {
        let mut keep = vec![];
        for st in b.stmts.drain(..) {
            match st {
                Stmt::Item(i @ (Item::Enum(_) | Item::Struct(_) | Item::Impl(_))) => out.push(i),
                x => keep.push(x),
            }
        }
        b.stmts = keep;
    }
    for it in items.iter_mut() {
        match it {
            Item::Fn(f) => blk(&mut f.block, &mut out),
            Item::Impl(im) => {
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        blk(&mut f.block, &mut out);
                    }
                }
            }
            _ => {}
        }
    }
    items.extend(out);
}
/// expands `macro_rules!` items with one arm of plain `$x:frag` parameters
fn expand(f: File) -> File {
    use proc_macro2::{TokenStream, TokenTree};
    fn subst(t: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
        let mut o = TokenStream::new();
        let mut it = t.into_iter().peekable();
        while let Some(x) = it.next() {
            match x {
                TokenTree::Punct(ref p) if p.as_char() == '$' => {
                    if let Some(TokenTree::Ident(i)) = it.peek() {
                        if let Some(r) = m.get(&i.to_string()) {
                            o.extend(r.clone());
                            it.next();
                            continue;
                        }
                    }
                    o.extend([x]);
                }
                TokenTree::Group(g) => {
                    let mut h = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m));
                    h.set_span(g.span());
                    o.extend([TokenTree::Group(h)]);
                }
                x => o.extend([x]),
            }
        }
        o
    }
    fn arm(ts: TokenStream) -> Option<(Vec<String>, TokenStream)> {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let (head, body) = match v.as_slice() {
            [TokenTree::Group(a), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(b)] => (a.stream(), b.stream()),
            [TokenTree::Group(a), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(b), TokenTree::Punct(_)] => (a.stream(), b.stream()),
            _ => return None,
        };
        let mut ps = vec![];
        let h: Vec<TokenTree> = head.into_iter().collect();
        let mut i = 0;
        while i < h.len() {
            match &h[i..] {
                [TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Ident(_), rest @ ..] if d.as_char() == '$' && c.as_char() == ':' => {
                    ps.push(n.to_string());
                    i += 4;
                    match rest.first() {
                        Some(TokenTree::Punct(p)) if p.as_char() == ',' => i += 1,
                        None => {}
                        _ => return None,
                    }
                }
                _ => return None,
            }
        }
        Some((ps, body))
    }
    let mut ms: HashMap<String, (Vec<String>, TokenStream)> = HashMap::new();
    let mut out = vec![];
    for it in f.items {
        if let Item::Macro(m) = &it {
            if let Some(n) = &m.ident {
                if let Some(a) = arm(m.mac.tokens.clone()) {
                    ms.insert(n.to_string(), a);
                }
            } else if let Some((ps, body)) = m.mac.path.get_ident().and_then(|i| ms.get(&i.to_string())) {
                let mut args: Vec<TokenStream> = vec![TokenStream::new()];
                for t in m.mac.tokens.clone() {
                    match &t {
                        TokenTree::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()),
                        _ => args.last_mut().unwrap().extend([t]),
                    }
                }
                if args.len() == ps.len() {
                    let map: HashMap<String, TokenStream> = ps.iter().cloned().zip(args).collect();
                    if let Ok(g) = syn::parse2::<File>(subst(body.clone(), &map)) {
                        out.extend(g.items);
                        continue;
                    }
                }
            }
        }
        out.push(it);
    }
    hoist(&mut out);
    File { items: out, ..f }
}

struct Closures(Vec<ExprClosure>);
impl<'a> syn::visit::Visit<'a> for Closures {
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.0.push(c.clone());
        syn::visit::visit_expr_closure(self, c);
    }
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
}
fn map(v: &Value) -> BTreeMap<String, String> {
    v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default()
}

fn one(q: &Value, cache: &mut HashMap<String, std::result::Result<File, String>>) -> Value {
    let s = |k: &str| q[k].as_str().unwrap_or("").to_string();
    let file = s("file");
    let f = cache.entry(file.clone()).or_insert_with(|| std::fs::read_to_string(&file).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map(expand).map_err(|e| e.to_string())));
    let id = s("id");
    let fail = |e: String| json!({"id": id, "ok": false, "err": e});
    let f = match f {
        Ok(f) => f,
        Err(e) => return fail(format!("source: {}", e)),
    };
    if s("impl") == "const" {
        // a table of constants: the literal itself
        for it in &f.items {
            if let Item::Const(x) = it {
                if x.ident == s("name") {
                    fn lit(e: &Expr, top: bool) -> Option<String> {
                        match e {
                            Expr::Array(a) => {
                                let v: Option<Vec<String>> = a.elems.iter().map(|e| lit(e, false)).collect();
                                Some(format!("{}[{}]", if top { "vec!" } else { "" }, v?.join(", ")))
                            }
                            Expr::Lit(_) => Some(txt(e)),
                            _ => None,
                        }
                    }
                    if let Some(t) = lit(&x.expr, true) {
                        return json!({"id": id, "ok": true, "sig": txt(&x.ty), "line": 0, "bindings": Vec::<String>::new(), "loops": Vec::<String>::new(), "closures": 0, "returns": 0,
                            "body": format!("/*@fs@*/\nlet ret_ = {};\n/*@fe@*/\nret_", t), "drops": Vec::<String>::new()});
                    }
                }
            }
        }
        return fail("no constant array of that name".into());
    }
    let found = find(&f.items, &s("impl"), &s("name"), &[]);
    if found.len() != 1 {
        return fail(format!("{} functions named {} in {} ({})", found.len(), s("name"), file, s("impl")));
    }
    let mut fd0 = found.into_iter().next().unwrap();
    if let Some(n) = q["closure"].as_u64() {
        let mut v = Closures(vec![]);
        syn::visit::Visit::visit_block(&mut v, &fd0.block);
        let n = n as usize;
        if n >= v.0.len() {
            return fail(format!("{} closures in {}", v.0.len(), s("name")));
        }
        let cl = v.0[n].clone();
        let body = &cl.body;
        fd0.block = parse_quote!({ #body });
        fd0.sig.inputs.clear();
        for p in &cl.inputs {
            let t: FnArg = match p {
                Pat::Type(t) => FnArg::Typed(t.clone()),
                p => parse_quote!(#p: _),
            };
            fd0.sig.inputs.push(t);
        }
        fd0.sig.output = ReturnType::Default;
    }
    let mut sq = Sequential(false);
    syn::visit_mut::VisitMut::visit_block_mut(&mut sq, &mut fd0.block);
    let cfg = &q["cfg"];
    if cfg["inline"].as_bool().unwrap_or(false) {
        inline_closures(&mut fd0.block);
    }
    let fd = &fd0;
    let mut types: Vec<(String, String)> = map(&cfg["types"]).into_iter().collect();
    types.sort_by_key(|(a, _)| std::cmp::Reverse(a.len()));
    let c = Cfg {
        types,
        refs: strs(&cfg["refs"]).into_iter().collect(),
        vals: strs(&cfg["vals"]).into_iter().collect(),
        slices: strs(&cfg["slices"]).into_iter().collect(),
        methods: map(&cfg["methods"]),
        calls: map(&cfg["calls"]),
        ops: map(&cfg["ops"]),
        macros: map(&cfg["macros"]),
        scalar: strs(&cfg["scalar"]),
        arrays: cfg["arrays"].as_bool().unwrap_or(false),
        assign: cfg["assign"].as_bool().unwrap_or(false),
        clones: cfg["clones"].as_bool().unwrap_or(false),
        circuit: cfg["circuit"].as_bool().unwrap_or(false),
        lazy: strs(&cfg["lazy"]).into_iter().collect(),
        cs: strs(&cfg["cs"]).into_iter().collect(),
    };
    let rename = q["rename"].as_array().map(|a| a.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
    let mut em = Em { c, scopes: vec![HashMap::new()], bindings: vec![], rename, loops: vec![], ncl: 0, nret: 0, nq: 0, nbase: 0, nenf: 0, byval: false,
        let_pat: false, chain_arg: false, drops: BTreeSet::new(), isz: BTreeSet::new() };
    if sq.0 {
        em.drops.insert("the feature `parallel` (rayon) is off".into());
    }
    let mut sigp = vec![];
    let mut pre = String::new();
    let _ = em.nq;
    for (i, a) in fd.sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                if let Some(n) = cfg["selfarg"].as_str() {
                    // `self` of a foreign type becomes an ordinary parameter
                    em.scopes.last_mut().unwrap().insert("self".into(), Bind { emit: n.into(), kind: if r.reference.is_some() { Kind::RefF } else { Kind::Val } });
                } else if r.mutability.is_some() && r.reference.is_none() {
                    // `mut self`: bound to a local
                    pre += "let mut self_ = self;\n";
                    em.scopes.last_mut().unwrap().insert("self".into(), Bind { emit: "self_".into(), kind: Kind::Other });
                }
                sigp.push(txt(r));
            }
            FnArg::Typed(t) => {
                let ty = txt(&t.ty);
                sigp.push(ty.clone());
                let m = em.tystr(&ty);
                let is_ref_scalar = em.c.scalar.iter().any(|s| m == format!("&{}", s) || m == format!("&'a {}", s));
                if m.starts_with("&[") {
                    // slices are indexed directly
                }
                match &*t.pat {
                    Pat::Ident(p) => {
                        let n = em.bind(&p.ident.to_string(), if is_ref_scalar { Kind::RefF } else { Kind::Other });
                        if m.starts_with("&[") {
                            em.c.slices.insert(n.clone());
                        }
                        if p.mutability.is_some() && !(em.c.circuit && em.c.cs.contains(&n)) {
                            pre += &format!("let mut {} = {};\n", n, n);
                        }
                    }
                    Pat::Wild(_) => {}
                    p => {
                        let kind = Kind::Other;
                        match em.pat(p, kind, false) {
                            Ok(s) => pre += &format!("let {} = p{};\n", s, i),
                            Err(e) => return fail(e),
                        }
                    }
                }
            }
        }
    }
    let out = match &fd.sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => txt(t),
    };
    let sig = format!("({})->{}", sigp.join(","), out);
    let body = em.block_st(&fd.block, false, false, true);
    match body {
        Err(e) => json!({"id": id, "ok": false, "err": format!("unsupported: {}", e), "sig": sig, "line": fd.line}),
        Ok(b) => json!({"id": id, "ok": true, "sig": sig, "line": fd.line, "bindings": em.bindings, "loops": em.loops, "closures": em.ncl, "returns": em.nret,
            "body": format!("{}/*@fs@*/\n{}", pre, b), "drops": em.drops.iter().cloned().collect::<Vec<_>>()}),
    }
}

/// normalized definition of a type (attributes and visibility dropped)
fn item(file: &str, name: &str, cache: &mut HashMap<String, std::result::Result<File, String>>) -> Value {
    let f = cache.entry(file.to_string()).or_insert_with(|| std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map(expand).map_err(|e| e.to_string())));
    let f = match f {
        Ok(f) => f,
        Err(e) => return json!({"name": name, "ok": false, "def": e}),
    };
    for it in &f.items {
        match it {
            Item::Struct(x) if x.ident == name => {
                let fs: Vec<String> = x.fields.iter().map(|f| format!("{}:{}", f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), txt(&f.ty))).collect();
                return json!({"name": name, "ok": true, "def": format!("struct {}", fs.join(","))});
            }
            Item::Enum(x) if x.ident == name => {
                let vs: Vec<String> = x.variants.iter().map(|v| format!("{}{}", v.ident, txt(&v.fields))).collect();
                let derives: Vec<String> = x.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| txt(a)).collect();
                return json!({"name": name, "ok": true, "def": format!("enum {} {}", vs.join(","), derives.join(""))});
            }
            Item::Type(x) if x.ident == name => return json!({"name": name, "ok": true, "def": format!("type {}", txt(&x.ty))}),
            Item::Const(x) if x.ident == name => return json!({"name": name, "ok": true, "def": format!("const {}", txt(&x.expr))}),
            _ => {}
        }
    }
    json!({"name": name, "ok": false, "def": "missing"})
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).unwrap();
    let mut cache = HashMap::new();
    let out: Vec<Value> = v["fns"].as_array().unwrap().iter().map(|q| one(q, &mut cache)).collect();
    let items: Vec<Value> = v["items"].as_array().map(|a| a.iter().map(|q| item(q["file"].as_str().unwrap(), q["name"].as_str().unwrap(), &mut cache)).collect()).unwrap_or_default();
    println!("{}", json!({ "fns": out, "items": items }));
}

/// `let f = |x| e;` whose captured names are not bound again before the uses: `f(a)` is `{ let x = a; e }`, `.map(f)` is `.map(|x| e)`
fn inline_closures(b: &mut Block) {
    use std::collections::HashSet;
    struct Names(HashSet<String>, HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for Names {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.insert(i.to_string());
            }
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.1.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_expr_assign(&mut self, p: &'a ExprAssign) {
            let mut n = Names(HashSet::new(), HashSet::new());
            n.visit_expr(&p.left);
            self.1.extend(n.0);
            syn::visit::visit_expr_assign(self, p);
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.1.insert("return".into());
        }
        fn visit_expr_try(&mut self, e: &'a ExprTry) {
            self.1.insert("return".into());
            syn::visit::visit_expr_try(self, e);
        }
    }
    struct Use(String, ExprClosure, bool);
    impl syn::visit_mut::VisitMut for Use {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            syn::visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if Em::single(&c.func).as_deref() == Some(&self.0) {
                    if c.args.len() != self.1.inputs.len() {
                        self.2 = false;
                        return;
                    }
                    let mut st: Vec<Stmt> = vec![];
                    for (p, a) in self.1.inputs.iter().zip(&c.args) {
                        st.push(parse_quote!(let #p = #a;));
                    }
                    let body = &self.1.body;
                    match &**body {
                        Expr::Block(b) => st.extend(b.block.stmts.clone()),
                        x => st.push(Stmt::Expr(x.clone(), None)),
                    }
                    *e = parse_quote!({ #(#st)* });
                }
            } else if let Expr::MethodCall(m) = e {
                if m.method == "map" && m.args.len() == 1 && Em::single(&m.args[0]).as_deref() == Some(&self.0) {
                    m.args[0] = Expr::Closure(self.1.clone());
                }
            }
        }
    }
    let mut i = 0;
    while i < b.stmts.len() {
        if let Stmt::Local(l) = &b.stmts[i] {
            if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                if let Expr::Closure(c) = strip(&init.expr) {
                    use syn::visit::Visit;
                    let mut cap = Names(HashSet::new(), HashSet::new());
                    cap.visit_expr_closure(c);
                    let mut later = Names(HashSet::new(), HashSet::new());
                    for s in &b.stmts[i + 1..] {
                        later.visit_stmt(s);
                    }
                    let free: Vec<&String> = cap.0.difference(&cap.1).collect();
                    let name = p.ident.to_string();
                    if !cap.1.contains("return") && free.iter().all(|x| !later.1.contains(*x)) && !later.1.contains(&name) {
                        let mut u = Use(name.clone(), c.clone(), true);
                        let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                        for s in rest.iter_mut() {
                            syn::visit_mut::VisitMut::visit_stmt_mut(&mut u, s);
                        }
                        let mut left = Names(HashSet::new(), HashSet::new());
                        for s in &rest {
                            left.visit_stmt(s);
                        }
                        if u.2 && !left.0.contains(&name) {
                            b.stmts.truncate(i);
                            b.stmts.extend(rest);
                            continue;
                        }
                    }
                }
            }
        }
        i += 1;
    }
}

/// `cfg_iter!(x)` and friends without the feature `parallel`, conditional statements of that feature
struct Sequential(bool);
impl Sequential {
    fn keep(&mut self, attrs: &mut Vec<Attribute>) -> Option<bool> {
        let mut r = None;
        attrs.retain(|a| {
            if !a.path().is_ident("cfg") {
                return true;
            }
            match txt(&a.meta).replace(' ', "").as_str() {
                "cfg(feature=\"parallel\")" => r = Some(false),
                "cfg(not(feature=\"parallel\"))" => r = Some(true),
                _ => return true,
            }
            false
        });
        r
    }
}
impl syn::visit_mut::VisitMut for Sequential {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let k = match &mut s {
                Stmt::Local(l) => self.keep(&mut l.attrs),
                Stmt::Expr(Expr::Return(r), _) => self.keep(&mut r.attrs),
                Stmt::Expr(Expr::Block(r), _) => self.keep(&mut r.attrs),
                Stmt::Expr(Expr::MethodCall(r), _) => self.keep(&mut r.attrs),
                Stmt::Expr(Expr::Call(r), _) => self.keep(&mut r.attrs),
                _ => None,
            };
            if k.is_some() {
                self.0 = true;
            }
            if k != Some(false) {
                out.push(s);
            }
        }
        b.stmts = out;
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if matches!(n.as_str(), "cfg_iter" | "cfg_iter_mut" | "cfg_into_iter") {
                if let Ok(x) = syn::parse2::<Expr>(m.mac.tokens.clone()) {
                    *e = match n.as_str() {
                        "cfg_iter" => parse_quote!((#x).iter()),
                        "cfg_iter_mut" => parse_quote!((#x).iter_mut()),
                        _ => parse_quote!((#x).into_iter()),
                    };
                    self.0 = true;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if n.starts_with("cfg_") {
                let mac = m.mac.clone();
                let semi = m.semi_token;
                *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), semi);
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }
}
