//! First pass over an extracted block (before strings and iterators):
//!   * local and file constants that are array literals: replaced by their value
//!   * `for x in [a, b] { .. }` over an array literal without break/continue: unrolled
//!   * `[a, b].contains(&x)`, `[a, b].iter().any(|p| ..)`: spelled out as a disjunction
//!   * `let [mut] f = |p, ..| body;` called as `f(a, ..)`: beta-reduced at every call
use crate::common::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Block, Expr, Item, Pat, Stmt,
};

pub fn array_of(e: &Expr) -> Option<Vec<Expr>> {
    match e {
        Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
        Expr::Reference(r) => array_of(&r.expr),
        Expr::Paren(p) => array_of(&p.expr),
        Expr::MethodCall(m) if m.args.is_empty() && ["iter", "into_iter", "copied", "cloned"].contains(&&*m.method.to_string()) => array_of(&m.receiver),
        _ => None,
    }
}

pub fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => idents(g.stream(), out),
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
}

/// names bound by patterns inside
fn bound(ss: &[Stmt]) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p)
        }
    }
    let mut v = V(Default::default());
    for s in ss {
        syn::visit::Visit::visit_stmt(&mut v, s);
    }
    v.0
}

fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

#[derive(Default)]
pub struct PreLow {
    pub consts: BTreeMap<String, Expr>,
}

pub fn file_arrays(f: &syn::File) -> BTreeMap<String, Expr> {
    let mut m = BTreeMap::new();
    for i in &f.items {
        if let Item::Const(c) = i {
            if array_of(&c.expr).is_some() {
                m.insert(c.ident.to_string(), (*c.expr).clone());
            }
        }
    }
    m
}

struct Beta {
    name: String,
    params: Vec<Pat>,
    body: Expr,
    left: usize,
}
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = &*e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) {
                if c.args.len() == self.params.len() {
                    let (ps, b) = (&self.params, &self.body);
                    let (ids, args): (Vec<_>, Vec<_>) = c.args.iter().enumerate().map(|(i, a)| (format_ident!("vx_arg{}", i), a.clone())).unzip();
                    *e = if ps.len() == 1 {
                        let (p, a) = (&ps[0], &args[0]);
                        parse_quote!({ let #p = #a; #b })
                    } else {
                        parse_quote!({ #(let #ids = #args;)* #(let #ps = #ids;)* #b })
                    };
                } else {
                    self.left += 1;
                }
            }
        }
    }
}

/// the declared type of a variable, given to the `collect()` that makes it
fn give_type(e: &mut Expr, t: &syn::Type) {
    match e {
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| give_type(&mut a.body, t)),
        Expr::If(i) => {
            if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last_mut() {
                give_type(e, t)
            }
            if let Some((_, e)) = &mut i.else_branch {
                give_type(e, t)
            }
        }
        Expr::Block(b) => {
            if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() {
                give_type(e, t)
            }
        }
        Expr::Paren(p) => give_type(&mut p.expr, t),
        Expr::MethodCall(m) if m.method == "collect" && m.turbofish.is_none() => m.turbofish = Some(parse_quote!(::<#t>)),
        _ => {}
    }
}

impl VisitMut for PreLow {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            give_type(&mut i.expr, &t.ty);
        }
        visit_mut::visit_local_mut(self, l)
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // constants of this block
        let saved = self.consts.clone();
        let mut ss = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Item(Item::Const(c)) = &s {
                if array_of(&c.expr).is_some() {
                    self.consts.insert(c.ident.to_string(), (*c.expr).clone());
                    continue;
                }
            }
            ss.push(s);
        }
        // closures
        let mut i = 0;
        while i < ss.len() {
            let c = match &ss[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) => match &*init.expr {
                        Expr::Closure(c) => Some((p.ident.to_string(), c.clone())),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, c)) = c {
                let params: Vec<Pat> = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    })
                    .collect();
                let body = (*c.body).clone();
                let mut free = BTreeSet::new();
                idents(quote!(#body), &mut free);
                let own = bound(&[parse_quote!(match () { #( #params => {} )* }), Stmt::Expr(body.clone(), None)]);
                let free: BTreeSet<String> = free.difference(&own).cloned().collect();
                let rest = bound(&ss[i + 1..]);
                if !leaves(&body) && free.is_disjoint(&rest) {
                    let mut beta = Beta { name: name.clone(), params, body, left: 0 };
                    let mut tail = ss[i + 1..].to_vec();
                    for s in tail.iter_mut() {
                        beta.visit_stmt_mut(s);
                    }
                    let mut used = BTreeSet::new();
                    for s in &tail {
                        idents(quote!(#s), &mut used);
                    }
                    if beta.left == 0 && !used.contains(&name) {
                        ss.truncate(i);
                        ss.extend(tail);
                        continue;
                    }
                }
            }
            i += 1;
        }
        // a lazy iterator that is bound, then used once
        let mut i = 0;
        while i < ss.len() {
            let c = match &ss[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) if p.mutability.is_none() && init.diverge.is_none() && lazy(&init.expr) => Some((p.ident.to_string(), (*init.expr).clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, x)) = c {
                // the use, with nothing but other bindings of lazy iterators before it
                let mut j = i + 1;
                while j < ss.len() && matches!(&ss[j], Stmt::Local(l) if matches!(&l.init, Some(n) if lazy(&n.expr))) && uses(&ss[j], &name) == 0 {
                    j += 1;
                }
                let later: usize = ss[i + 1..].iter().map(|s| uses(s, &name)).sum();
                if j < ss.len() && later == 1 && header_use(&ss[j], &name) {
                    let mut sub = Subst { name, x };
                    sub.visit_stmt_mut(&mut ss[j]);
                    ss.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        b.stmts = ss;
        visit_mut::visit_block_mut(self, b);
        // unroll
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::ForLoop(f), _) = &s {
                if let Some(a) = array_of(&f.expr) {
                    let by_ref = matches!(&*f.expr, Expr::Reference(_)) || matches!(&*f.expr, Expr::MethodCall(m) if m.method == "iter");
                    if a.len() <= 32 && !crate::iterlow::uses_jump(&f.body) {
                        let (p, body) = (&f.pat, &f.body.stmts);
                        for x in a {
                            let x: Expr = if by_ref { parse_quote!(&#x) } else { x };
                            out.push(parse_quote!({ let #p = #x; #(#body)* }));
                        }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        self.consts = saved;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = &*e {
            if let Some(i) = p.path.get_ident() {
                if let Some(v) = self.consts.get(&i.to_string()) {
                    *e = v.clone();
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        if let Expr::MethodCall(m) = &*e {
            let n = m.method.to_string();
            if let Some(a) = array_of(&m.receiver) {
                if n == "contains" && m.args.len() == 1 && !a.is_empty() {
                    let x = match &m.args[0] {
                        Expr::Reference(r) => (*r.expr).clone(),
                        x => parse_quote!(*#x),
                    };
                    new = Some(parse_quote!((#((#x) == (#a))||*)));
                }
                if (n == "any" || n == "all") && m.args.len() == 1 && !a.is_empty() {
                    if let Expr::Closure(c) = &m.args[0] {
                        let by_ref = !matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "into_iter" || r.method == "copied" || r.method == "cloned");
                        let (p, body) = (&c.inputs[0], &c.body);
                        let parts: Vec<Expr> = a
                            .iter()
                            .map(|x| {
                                let x: Expr = if by_ref { parse_quote!(&#x) } else { x.clone() };
                                parse_quote!({ let #p = #x; #body })
                            })
                            .collect();
                        new = Some(if n == "any" { parse_quote!((#(#parts)||*)) } else { parse_quote!((#(#parts)&&*)) });
                    }
                }
            }
        }
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}
}

/// an adaptor chain: nothing happens before it is consumed
fn lazy(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => lazy(&p.expr),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ["map", "filter", "filter_map", "flat_map", "chain", "enumerate", "copied", "cloned"].contains(&&*n) && source(&m.receiver)
        }
        _ => false,
    }
}
fn source(e: &Expr) -> bool {
    lazy(e) || matches!(e, Expr::MethodCall(m) if m.args.is_empty() && ["iter", "keys", "values"].contains(&&*m.method.to_string())) || matches!(e, Expr::Path(_))
}
/// how often the name is mentioned
fn uses(s: &Stmt, name: &str) -> usize {
    fn n(ts: TokenStream, name: &str) -> usize {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Group(g) => n(g.stream(), name),
                TokenTree::Ident(i) => (i == name) as usize,
                _ => 0,
            })
            .sum()
    }
    n(quote!(#s), name)
}
/// the name is used where the statement starts: in the iterated expression of a `for` or in the value of a `let`
fn header_use(s: &Stmt, name: &str) -> bool {
    let has = |e: &Expr| uses(&Stmt::Expr(e.clone(), None), name) == 1;
    match s {
        Stmt::Expr(Expr::ForLoop(f), _) => has(&f.expr),
        Stmt::Local(l) => l.init.as_ref().map_or(false, |i| has(&i.expr)),
        _ => false,
    }
}
struct Subst {
    name: String,
    x: Expr,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(&*e, Expr::Path(p) if p.path.is_ident(&self.name)) {
            *e = self.x.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
