//! Parsers written with nom 7 -> plain control flow.  `P(x)` for a parser expression P becomes an
//! expression of type Result<(&VxStr, O), VxPErr>:
//!   opt, alt, map, map_res, delimited, preceded, terminated, pair, tuple, value  -> nested matches
//!   many0, many1, separated_list0, separated_list1                               -> a loop
//!   tag, char, digit1, space1, ..                                                -> vx_tag(x, ..), ..
//!   a closure used as a parser is put in place (its `?` become matches); functions stay calls
//! `P(x)?` in a function body -> match .. { Ok(v) => v, Err(e) => return Err(e) }.
//! Error positions and kinds are dropped; Error / Failure are kept.
use crate::common::*;
use quote::{format_ident, quote};
use std::collections::BTreeMap;
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Block, Expr, Item, Pat, Stmt,
};

pub struct Module {
    pub tag: &'static str,
    pub path: &'static [&'static str],
    pub file: syn::File,
}

pub struct World {
    pub mods: Vec<Module>,
    /// per module: functions
    fns: Vec<Vec<String>>,
    uses: Vec<BTreeMap<String, Vec<String>>>,
}

fn use_tree(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut BTreeMap<String, Vec<String>>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            use_tree(&p.tree, pre, out);
            pre.pop();
        }
        syn::UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s == "self" {
                if let Some(l) = pre.last() {
                    out.insert(l.clone(), pre.clone());
                }
            } else {
                let mut p = pre.clone();
                p.push(s.clone());
                out.insert(s, p);
            }
        }
        syn::UseTree::Rename(n) => {
            let mut p = pre.clone();
            p.push(n.ident.to_string());
            out.insert(n.rename.to_string(), p);
        }
        syn::UseTree::Group(g) => {
            for i in &g.items {
                use_tree(i, pre, out);
            }
        }
        syn::UseTree::Glob(_) => {}
    }
}

fn is_test(a: &[syn::Attribute]) -> bool {
    a.iter().any(|a| text(a).contains("cfg") && text(a).contains("test"))
}

impl World {
    pub fn new(mods: Vec<Module>) -> World {
        let mut fns = vec![];
        let mut uses = vec![];
        for m in &mods {
            let mut f = vec![];
            let mut u = BTreeMap::new();
            for i in &m.file.items {
                match i {
                    Item::Fn(x) if !is_test(&x.attrs) => f.push(x.sig.ident.to_string()),
                    Item::Use(x) => use_tree(&x.tree, &mut vec![], &mut u),
                    _ => {}
                }
            }
            fns.push(f);
            uses.push(u);
        }
        World { mods, fns, uses }
    }

    fn module(&self, path: &[String]) -> Option<usize> {
        self.mods.iter().position(|m| m.path.iter().map(|s| s.to_string()).collect::<Vec<_>>() == path)
    }

    /// a function of one argument as a closure
    fn closure(&self, m: usize, name: &str) -> Option<(Pat, Block)> {
        for i in &self.mods[m].file.items {
            if let Item::Fn(f) = i {
                if f.sig.ident == name && !is_test(&f.attrs) && f.sig.inputs.len() == 1 {
                    if let syn::FnArg::Typed(t) = &f.sig.inputs[0] {
                        let mut b = (*f.block).clone();
                        Rename.visit_block_mut(&mut b);
                        return Some(((*t.pat).clone(), b));
                    }
                }
            }
        }
        None
    }

    /// a path of module m -> our name of a function of the parser, or the nom path
    pub fn resolve(&self, m: usize, path: &[String], depth: usize) -> Option<Target> {
        if path.is_empty() || depth > 6 {
            return None;
        }
        if path[0] == "nom" {
            return Some(Target::Nom(path.to_vec()));
        }
        let mut cur: Vec<String> = self.mods[m].path.iter().map(|s| s.to_string()).collect();
        let mut k = 0;
        match &*path[0] {
            "super" => {
                while k < path.len() && path[k] == "super" {
                    cur.pop()?;
                    k += 1;
                }
            }
            "crate" => {
                if path.len() < 2 || path[1] != "ir" {
                    return None;
                }
                cur.clear();
                k = 2;
            }
            "self" => k = 1,
            _ => {
                if path.len() == 1 && self.fns[m].contains(&path[0]) {
                    return Some(Target::Fn(m, path[0].clone()));
                }
                if let Some(u) = self.uses[m].get(&path[0]) {
                    let mut p = u.clone();
                    p.extend(path[1..].iter().cloned());
                    return self.resolve(m, &p, depth + 1);
                }
            }
        }
        while k + 1 < path.len() {
            cur.push(path[k].clone());
            k += 1;
        }
        let t = self.module(&cur)?;
        if t == m && k == 0 {
            return None;
        }
        self.resolve(t, &[path.get(k)?.clone()], depth + 1)
    }
}

pub enum Target {
    Fn(usize, String),
    Nom(Vec<String>),
}

pub struct NomLow<'w> {
    pub w: &'w World,
    pub m: usize,
    pub fun: String,
    pub n: usize,
    pub err: Option<String>,
    /// closures bound to names
    pub env: BTreeMap<String, Expr>,
    pub depth: usize,
    /// predicates on characters, lifted
    pub preds: Vec<(String, syn::ExprClosure)>,
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

fn segs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}

/// the functions that have a contract; any other one is put in place where it is used
pub const KNOWN: &[&str] = &[
    "ir_parse", "ir_items", "ir_comment", "ir_ident", "ir_global", "ir_local", "ir_null", "ir_undef", "ir_attribute", "ir_bitcast", "ir_getelementptr",
    "ir_name", "ir_function", "ir_alias", "ir_string", "ty_array", "ty_mvt_vector", "ty_double", "ty_float", "ty_opaque_pointer", "ty_integer", "ty_alias",
    "ty_varargs", "ty__struct", "ty_packed_struct", "ty_struct_", "ty_type_", "ty_fn_inputs", "def_parameter", "def_parse", "def_label", "def_comment",
    "def_asm", "def_argument", "def_bitcast_call", "def_direct_call", "def_indirect_call", "def_other", "def_assign", "def_stmt", "item_comment",
    "item_source_filename", "item_target", "item_alias", "item_global", "item_type_", "item_declare", "item_attributes", "item_metadata",
    "item_module_asm", "item_item",
];

const PRIMS: [&str; 9] = ["digit1", "digit0", "space0", "space1", "line_ending", "not_line_ending", "alpha1", "multispace0", "multispace1"];

impl<'w> NomLow<'w> {
    fn fresh(&mut self, s: &str) -> syn::Ident {
        self.n += 1;
        format_ident!("vx_{}{}", s, self.n)
    }
    fn bad(&mut self, s: String) -> Expr {
        if self.err.is_none() {
            self.err = Some(s);
        }
        parse_quote!(vx_unsupported())
    }

    fn target(&self, e: &Expr) -> Option<Target> {
        if let Expr::Path(p) = unparen(e) {
            let s = segs(&p.path);
            return self.w.resolve(self.m, &s, 0);
        }
        None
    }

    /// is this expression a parser applied to its input?
    fn app(&self, e: &Expr) -> Option<(Expr, Expr)> {
        if let Expr::Call(c) = e {
            if c.args.len() == 1 {
                let f = unparen(&c.func);
                let yes = match f {
                    Expr::Call(_) | Expr::Closure(_) => true,
                    Expr::Path(_) => match self.target(f) {
                        Some(Target::Fn(..)) => true,
                        Some(Target::Nom(p)) => PRIMS.contains(&&**p.last().unwrap()),
                        None => self.env.contains_key(&text(f)),
                    },
                    _ => false,
                };
                if yes {
                    return Some((f.clone(), c.args[0].clone()));
                }
            }
        }
        None
    }

    /// f(v) for the function of a map
    fn apply(&mut self, f: &Expr, v: Expr) -> Expr {
        match unparen(f) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut p = c.inputs[0].clone();
                if let Pat::Type(t) = &p {
                    p = (*t.pat).clone();
                }
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                parse_quote!({ let #p = #v; #b })
            }
            Expr::Path(p) => {
                let t = text(p).replace(' ', "");
                if t == "drop" || t == "core::mem::drop" || t == "std::mem::drop" {
                    let x = self.fresh("n");
                    parse_quote!({ let #x = #v; () })
                } else if t == "usize::from_str" {
                    parse_quote!(vx_usize_from_str(#v))
                } else if let Some(c) = self.env.get(&t).cloned() {
                    self.apply(&c, v)
                } else {
                    parse_quote!(#p(#v))
                }
            }
            _ => self.bad(format!("map over {}", text(f))),
        }
    }

    /// a closure body as an expression of type Result, without `?`
    fn cps(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Block(b) if b.label.is_none() => self.cps_stmts(b.block.stmts),
            Expr::Paren(p) => self.cps(*p.expr),
            Expr::If(mut i) if i.else_branch.is_some() => {
                self.visit_expr_mut(&mut i.cond);
                let t = self.cps_stmts(i.then_branch.stmts);
                let (_, x) = i.else_branch.unwrap();
                let x = self.cps(*x);
                let c = i.cond;
                parse_quote!(if #c { #t } else { #x })
            }
            Expr::Match(mut m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    let b = self.cps((*a.body).clone());
                    a.body = Box::new(b);
                }
                Expr::Match(m)
            }
            mut e => {
                if let Some((p, x)) = self.app(&e) {
                    return self.parser(&p, x);
                }
                self.visit_expr_mut(&mut e);
                self.no_jump(&e);
                e
            }
        }
    }

    fn no_jump(&mut self, e: &Expr) {
        struct V(bool);
        impl<'a> syn::visit::Visit<'a> for V {
            fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
                self.0 = true;
            }
            fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
                self.0 = true;
            }
        }
        let mut v = V(false);
        syn::visit::Visit::visit_expr(&mut v, e);
        if v.0 {
            self.bad("`?` or `return` deep inside a closure".into());
        }
    }

    fn cps_stmts(&mut self, mut st: Vec<Stmt>) -> Expr {
        if st.is_empty() {
            return self.bad("empty block as a parser".into());
        }
        let first = st.remove(0);
        if st.is_empty() {
            return match first {
                Stmt::Expr(Expr::Return(r), _) if r.expr.is_some() => self.cps(*r.expr.unwrap()),
                Stmt::Expr(e, None) => self.cps(e),
                _ => self.bad("a parser without a result".into()),
            };
        }
        match first {
            Stmt::Local(mut l) => {
                let init = match &l.init {
                    Some(i) if i.diverge.is_none() => (*i.expr).clone(),
                    _ => return self.bad("let without a value inside a parser".into()),
                };
                if let Expr::Closure(_) = &init {
                    if let Some(n) = pat_ident(&l.pat) {
                        self.env.insert(n, init);
                        return self.cps_stmts(st);
                    }
                }
                // postfix( app? )
                let mut fields = vec![];
                let mut x = &init;
                loop {
                    match x {
                        Expr::Field(f) => {
                            fields.push(f.member.clone());
                            x = &f.base;
                        }
                        Expr::Paren(p) => x = &p.expr,
                        _ => break,
                    }
                }
                fields.reverse();
                if let Expr::Try(t) = x {
                    if let Some((p, a)) = self.app(unparen(&t.expr)) {
                        let r = self.parser(&p, a);
                        let rest = self.cps_stmts(st);
                        let (v, er) = (self.fresh("n"), self.fresh("n"));
                        let pat = &l.pat;
                        return parse_quote!(match #r { Err(#er) => Err(#er), Ok(#v) => { let #pat = #v #(.#fields)*; #rest } });
                    }
                }
                let mut e = init.clone();
                self.visit_expr_mut(&mut e);
                self.no_jump(&e);
                l.init.as_mut().unwrap().expr = Box::new(e);
                let rest = self.cps_stmts(st);
                parse_quote!({ #l #rest })
            }
            // app?;
            Stmt::Expr(Expr::Try(t), Some(_)) => {
                if let Some((p, a)) = self.app(unparen(&t.expr)) {
                    let r = self.parser(&p, a);
                    let rest = self.cps_stmts(st);
                    let (v, er) = (self.fresh("n"), self.fresh("n"));
                    return parse_quote!(match #r { Err(#er) => Err(#er), Ok(#v) => { #rest } });
                }
                self.bad("`?` inside a parser".into())
            }
            Stmt::Expr(mut e, Some(_)) => {
                self.visit_expr_mut(&mut e);
                self.no_jump(&e);
                let rest = self.cps_stmts(st);
                parse_quote!({ #e; #rest })
            }
            _ => self.bad("statement inside a parser".into()),
        }
    }

    /// the parser p applied to x
    pub fn parser(&mut self, p: &Expr, x: Expr) -> Expr {
        match unparen(p) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut pat = c.inputs[0].clone();
                if let Pat::Type(t) = &pat {
                    pat = (*t.pat).clone();
                }
                let b = self.cps((*c.body).clone());
                parse_quote!({ let #pat = #x; #b })
            }
            Expr::Path(q) => match self.target(p) {
                Some(Target::Fn(m, f)) => {
                    let id = format!("{}_{}", self.w.mods[m].tag, f);
                    if KNOWN.contains(&&*id) {
                        let f = format_ident!("{}", id);
                        return parse_quote!(#f(#x));
                    }
                    match self.w.closure(m, &f) {
                        Some((pat, body)) if self.depth < 8 => {
                            let (m0, env) = (self.m, std::mem::take(&mut self.env));
                            self.m = m;
                            self.depth += 1;
                            let b = self.cps_stmts(body.stmts);
                            self.depth -= 1;
                            self.m = m0;
                            self.env = env;
                            parse_quote!({ let #pat = #x; #b })
                        }
                        _ => self.bad(format!("helper {}", id)),
                    }
                }
                Some(Target::Nom(n)) => {
                    let l = n.last().unwrap().clone();
                    if !PRIMS.contains(&&*l) || !n.contains(&"complete".to_string()) {
                        return self.bad(format!("nom parser {}", n.join("::")));
                    }
                    let f = format_ident!("vx_{}", l);
                    parse_quote!(#f(#x))
                }
                None => {
                    if let Some(c) = self.env.get(&text(q)).cloned() {
                        return self.parser(&c, x);
                    }
                    self.bad(format!("parser {}", text(q)))
                }
            },
            Expr::Call(c) => {
                let n = match self.target(&c.func) {
                    Some(Target::Nom(n)) => n,
                    _ => return self.bad(format!("parser {}", text(&c.func))),
                };
                let a: Vec<Expr> = c.args.iter().cloned().collect();
                self.combinator(&n, &a, x)
            }
            _ => self.bad(format!("parser {}", text(p))),
        }
    }

    fn combinator(&mut self, path: &[String], a: &[Expr], x: Expr) -> Expr {
        let name = path.last().unwrap().clone();
        let from_class = path.iter().any(|s| s == "bytes" || s == "character");
        if from_class && !path.iter().any(|s| s == "complete") {
            return self.bad(format!("nom parser {}", path.join("::")));
        }
        match (&*name, a.len()) {
            ("tag", 1) => {
                let l = &a[0];
                parse_quote!(vx_tag(#x, #l))
            }
            ("char", 1) => {
                let l = &a[0];
                parse_quote!(vx_char(#x, #l))
            }
            ("take_until", 1) => {
                let l = &a[0];
                parse_quote!(vx_take_until(#x, #l))
            }
            ("is_not", 1) => {
                let l = &a[0];
                parse_quote!(vx_is_not(#x, #l))
            }
            ("take_while1", 1) => {
                if let Expr::Closure(c) = unparen(&a[0]) {
                    let f = format_ident!("{}_p{}", self.fun, self.preds.len());
                    self.preds.push((f.to_string(), c.clone()));
                    parse_quote!(vx_take_while1(#x, #f))
                } else if let Some(Target::Fn(m, n)) = self.target(&a[0]) {
                    match self.w.closure(m, &n) {
                        Some((pat, body)) => {
                            let f = format_ident!("{}_p{}", self.fun, self.preds.len());
                            self.preds.push((f.to_string(), parse_quote!(|#pat| #body)));
                            parse_quote!(vx_take_while1(#x, #f))
                        }
                        None => self.bad("take_while1 over a function".into()),
                    }
                } else {
                    self.bad("take_while1 over a function".into())
                }
            }
            ("opt", 1) => {
                let (y, v, e) = (self.fresh("x"), self.fresh("n"), self.fresh("n"));
                let r = self.parser(&a[0], parse_quote!(#y));
                parse_quote!({ let #y = #x; match #r { Ok(#v) => Ok((#v.0, Some(#v.1))), Err(VxPErr::Error) => Ok((#y, None)), Err(#e) => Err(#e) } })
            }
            ("alt", 1) => {
                let alts: Vec<Expr> = match unparen(&a[0]) {
                    Expr::Tuple(t) => t.elems.iter().cloned().collect(),
                    _ => return self.bad("alt over something else than a tuple".into()),
                };
                if alts.is_empty() {
                    return self.bad("alt over nothing".into());
                }
                let y = self.fresh("x");
                let mut out: Option<Expr> = None;
                for p in alts.iter().rev() {
                    let r = self.parser(p, parse_quote!(#y));
                    out = Some(match out {
                        None => r,
                        Some(rest) => {
                            let (v, e) = (self.fresh("n"), self.fresh("n"));
                            parse_quote!(match #r { Err(VxPErr::Error) => #rest, Err(#e) => Err(#e), Ok(#v) => Ok(#v) })
                        }
                    });
                }
                parse_quote!({ let #y = #x; #out })
            }
            ("map", 2) => {
                let (v, e) = (self.fresh("n"), self.fresh("n"));
                let r = self.parser(&a[0], x);
                let y = self.apply(&a[1], parse_quote!(#v.1));
                parse_quote!(match #r { Ok(#v) => Ok((#v.0, #y)), Err(#e) => Err(#e) })
            }
            ("value", 2) => {
                let (v, e) = (self.fresh("n"), self.fresh("n"));
                let r = self.parser(&a[1], x);
                let y = &a[0];
                parse_quote!(match #r { Ok(#v) => Ok((#v.0, #y)), Err(#e) => Err(#e) })
            }
            ("map_res", 2) => {
                let (v, e, o) = (self.fresh("n"), self.fresh("n"), self.fresh("n"));
                let r = self.parser(&a[0], x);
                let y = self.apply(&a[1], parse_quote!(#v.1));
                parse_quote!(match #r { Ok(#v) => match #y { Ok(#o) => Ok((#v.0, #o)), Err(_) => Err(VxPErr::Error) }, Err(#e) => Err(#e) })
            }
            ("delimited", 3) | ("preceded", 2) | ("terminated", 2) | ("pair", 2) | ("separated_pair", 3) | ("tuple", 1) => {
                let ps: Vec<Expr> = if name == "tuple" {
                    match unparen(&a[0]) {
                        Expr::Tuple(t) => t.elems.iter().cloned().collect(),
                        _ => return self.bad("tuple over something else than a tuple".into()),
                    }
                } else {
                    a.to_vec()
                };
                let vs: Vec<syn::Ident> = ps.iter().map(|_| self.fresh("n")).collect();
                if ps.is_empty() {
                    return self.bad("tuple over nothing".into());
                }
                let last = vs.last().unwrap().clone();
                let res: Expr = match &*name {
                    "delimited" | "preceded" => {
                        let v = &vs[1];
                        parse_quote!(#v.1)
                    }
                    "terminated" => {
                        let v = &vs[0];
                        parse_quote!(#v.1)
                    }
                    "separated_pair" => {
                        let (v, u) = (&vs[0], &vs[2]);
                        parse_quote!((#v.1, #u.1))
                    }
                    _ => parse_quote!((#(#vs.1,)*)),
                };
                let mut out: Expr = parse_quote!(Ok((#last.0, #res)));
                for k in (0..ps.len()).rev() {
                    let inp: Expr = if k == 0 {
                        x.clone()
                    } else {
                        let v = &vs[k - 1];
                        parse_quote!(#v.0)
                    };
                    let r = self.parser(&ps[k], inp);
                    let (v, e) = (&vs[k], self.fresh("n"));
                    out = parse_quote!(match #r { Err(#e) => Err(#e), Ok(#v) => #out });
                }
                out
            }
            ("many0", 1) | ("many1", 1) => {
                self.n += 1;
                let k = self.n;
                let (i, acc, er) = (format_ident!("vx_i_{}", k), format_ident!("vx_acc_{}", k), format_ident!("vx_err_{}", k));
                let (v, e) = (self.fresh("n"), self.fresh("n"));
                let r = self.parser(&a[0], parse_quote!(#i));
                let none: Expr = if name == "many0" { parse_quote!({ break; }) } else { parse_quote!({ if #acc.len() == 0 { #er = Some(VxPErr::Error); } break; }) };
                parse_quote!({
                    let mut #i = #x;
                    let mut #acc = Vec::new();
                    let mut #er: Option<VxPErr> = None;
                    loop {
                        match #r {
                            Err(VxPErr::Error) => #none
                            Err(#e) => { #er = Some(#e); break; }
                            Ok(#v) => {
                                if vx_same_place(#v.0, #i) { #er = Some(VxPErr::Error); break; }
                                #i = #v.0;
                                #acc.push(#v.1);
                            }
                        }
                    }
                    match #er { None => Ok((#i, #acc)), Some(#e) => Err(#e) }
                })
            }
            ("separated_list0", 2) | ("separated_list1", 2) => {
                self.n += 1;
                let k = self.n;
                let (i, acc, er) = (format_ident!("vx_i_{}", k), format_ident!("vx_acc_{}", k), format_ident!("vx_err_{}", k));
                let (v, e, j, at, s) = (self.fresh("n"), self.fresh("n"), self.fresh("n"), self.fresh("n"), self.fresh("n"));
                let sep = self.parser(&a[0], parse_quote!(#i));
                let el = self.parser(&a[1], parse_quote!(#j));
                let none: Expr = if name == "separated_list0" { parse_quote!({ break; }) } else { parse_quote!({ if #acc.len() == 0 { #er = Some(VxPErr::Error); } break; }) };
                parse_quote!({
                    let mut #i = #x;
                    let mut #acc = Vec::new();
                    let mut #er: Option<VxPErr> = None;
                    loop {
                        let #at: Result<&VxStr, Option<VxPErr>> = if #acc.len() == 0 { Ok(#i) } else {
                            match #sep {
                                Err(VxPErr::Error) => Err(None),
                                Err(#s) => Err(Some(#s)),
                                Ok(#s) => if vx_same_place(#s.0, #i) { Err(Some(VxPErr::Error)) } else { Ok(#s.0) },
                            }
                        };
                        match #at {
                            Err(#e) => { #er = #e; break; }
                            Ok(#j) => match #el {
                                Err(VxPErr::Error) => #none
                                Err(#e) => { #er = Some(#e); break; }
                                Ok(#v) => {
                                    #i = #v.0;
                                    #acc.push(#v.1);
                                }
                            },
                        }
                    }
                    match #er { None => Ok((#i, #acc)), Some(#e) => Err(#e) }
                })
            }
            _ => self.bad(format!("nom combinator {}", path.join("::"))),
        }
    }
}

impl<'w> VisitMut for NomLow<'w> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Some(i), Some(n)) = (&l.init, pat_ident(&l.pat)) {
                    if let Expr::Closure(_) = &*i.expr {
                        self.env.insert(n, (*i.expr).clone());
                        continue;
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = &*e {
            let inner = unparen(&t.expr).clone();
            let r = match self.app(&inner) {
                Some((p, x)) => self.parser(&p, x),
                None => {
                    let mut i = inner;
                    self.visit_expr_mut(&mut i);
                    i
                }
            };
            let (v, er) = (self.fresh("n"), self.fresh("n"));
            *e = parse_quote!((match #r { Ok(#v) => #v, Err(#er) => return Err(#er) }));
            return;
        }
        if let Some((p, x)) = self.app(e) {
            *e = self.parser(&p, x);
            return;
        }
        if let Expr::MethodCall(m) = &*e {
            let n = m.method.to_string();
            let of_parser = {
                let mut x: &Expr = &m.receiver;
                while let Expr::MethodCall(y) = x {
                    x = &y.receiver;
                }
                self.app(x).is_some()
            };
            if n == "map_err" && m.args.len() == 1 && of_parser {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                let v = self.fresh("n");
                *e = parse_quote!(match #r { Ok(#v) => Ok(#v), Err(_) => Err(vx_err()) });
                return;
            }
            if n == "map" && m.args.len() == 1 {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                let (v, er) = (self.fresh("n"), self.fresh("n"));
                let y = self.apply(&m.args[0], parse_quote!(#v));
                *e = if of_parser {
                    parse_quote!(match #r { Ok(#v) => Ok(#y), Err(#er) => Err(#er) })
                } else {
                    parse_quote!(match #r { Some(#v) => Some(#y), None => None })
                };
                return;
            }
            // x.chars().next()
            if n == "next" && m.args.is_empty() {
                if let Expr::MethodCall(c) = &*m.receiver {
                    if c.method == "chars" && c.args.is_empty() {
                        let mut r = (*c.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(vx_first_char(#r));
                        return;
                    }
                }
            }
            if n == "contains" && m.args.len() == 1 && crate::strlow::lit_of(&m.receiver).is_some() || n.starts_with("is_") && (n.contains("alpha") || n.contains("digit") || n.contains("numeric")) {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                let a: Vec<Expr> = m.args.iter().cloned().collect();
                let f = format_ident!("vx_{}", if n == "contains" { "has_char" } else { &*n });
                *e = parse_quote!(#f(#r #(, #a)*));
                return;
            }
        }
        if let Expr::Call(c) = &*e {
            let f = text(&c.func).replace(' ', "");
            if f.ends_with("Err::Error") {
                *e = parse_quote!(VxPErr::Error);
                return;
            }
            if f.ends_with("Err::Failure") {
                *e = parse_quote!(VxPErr::Failure);
                return;
            }
        }
        if let Expr::Closure(_) = e {
            *e = self.bad("closure".into());
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// the module's own `String`
pub struct Rename;
impl VisitMut for Rename {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() == 1 && p.segments[0].ident == "String" {
            p.segments[0].ident = format_ident!("IrString");
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// IResult<&str, T> -> Result<(&VxStr, T), VxPErr>
pub fn ret_type(t: &syn::Type) -> Option<syn::Type> {
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
            let ts: Vec<&syn::Type> = a.args.iter().filter_map(|g| if let syn::GenericArgument::Type(t) = g { Some(t) } else { None }).collect();
            if s.ident == "IResult" && ts.len() == 2 {
                let v = crate::strlow::vx_type(ts[1]);
                return Some(parse_quote!(Result<(&VxStr, #v), VxPErr>));
            }
            if s.ident == "Result" && ts.len() == 1 {
                let v = crate::strlow::vx_type(ts[0]);
                return Some(parse_quote!(Result<#v, VxErr>));
            }
        }
    }
    None
}

/// every parser function of the modules; returns (piece, signature, body) and the lifted predicates
pub fn functions(w: &World) -> R<Vec<(String, proc_macro2::TokenStream, Block)>> {
    let mut out = vec![];
    for (k, m) in w.mods.iter().enumerate() {
        for i in &m.file.items {
            let f = match i {
                Item::Fn(f) if !is_test(&f.attrs) => f,
                _ => continue,
            };
            let mut f = f.clone();
            Rename.visit_item_fn_mut(&mut f);
            let ret = match &f.sig.output {
                syn::ReturnType::Type(_, t) => ret_type(t),
                _ => None,
            };
            let ret = match ret {
                Some(r) => r,
                None => continue,
            };
            let args: Vec<_> = f.sig.inputs.iter().collect();
            let p = match &args[..] {
                [syn::FnArg::Typed(t)] => (*t.pat).clone(),
                _ => continue,
            };
            let name = format!("{}_{}", m.tag, f.sig.ident);
            if !KNOWN.contains(&&*name) {
                continue;
            }
            let id = format_ident!("{}", name);
            let mut nl = NomLow { w, m: k, fun: name.clone(), n: 0, err: None, env: BTreeMap::new(), depth: 0, preds: vec![] };
            let mut b = (*f.block).clone();
            nl.visit_block_mut(&mut b);
            if let Some(e) = nl.err {
                return Err(format!("{}: {}", name, e));
            }
            out.push((name, quote!(fn #id(#p: &VxStr) -> (ret: #ret)), b));
            for (n, c) in nl.preds {
                let id = format_ident!("{}", n);
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let mut body = (*c.body).clone();
                let mut nl = NomLow { w, m: k, fun: n.clone(), n: 0, err: None, env: BTreeMap::new(), depth: 0, preds: vec![] };
                nl.visit_expr_mut(&mut body);
                if let Some(e) = nl.err {
                    return Err(format!("{}: {}", n, e));
                }
                out.push((n, quote!(fn #id(#p: char) -> (ret: bool)), parse_quote!({ #body })));
            }
        }
    }
    Ok(out)
}
