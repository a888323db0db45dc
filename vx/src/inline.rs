//! A free function that no contract speaks of (a helper somebody extracted) is put in place at its calls,
//! before anything else is extracted: `h(a, b)` becomes `{ let p = a; let q = b; body }`.  Only functions
//! without `return`, `?` and recursion (a `return` at the end of a branch is turned into an `else`).
use std::collections::{BTreeMap, BTreeSet};
use quote::{format_ident, quote};
use syn::{
    parse_quote,
    visit::Visit,
    visit_mut::{self, VisitMut},
    Block, Expr, File, FnArg, Item, ItemFn, Pat, Stmt,
};

/// the functions that are extracted under their own name
const OWN: &[&str] = &["main", "run", "dot", "top", "Node", "max_of", "max", "dehash", "is_outlined_function", "analyze", "matches", "sign_extend", "thumb_expand_imm", "wrapper"];

#[derive(Clone)]
struct Helper {
    params: Vec<(Pat, bool)>, // by &mut?
    body: Block,
}

fn ends_in_return(b: &Block) -> Option<Block> {
    let mut b = b.clone();
    match b.stmts.pop()? {
        Stmt::Expr(Expr::Return(r), _) => {
            if let Some(x) = r.expr {
                b.stmts.push(Stmt::Expr(*x, None));
            }
            Some(b)
        }
        _ => None,
    }
}

/// `if c { ..; return x; } rest` -> `if c { ..; x } else { rest }`; a last `return x;` -> `x`
fn no_return(b: &Block) -> Block {
    let mut out = vec![];
    for (k, s) in b.stmts.iter().enumerate() {
        let last = k + 1 == b.stmts.len();
        match s {
            Stmt::Expr(Expr::Return(r), _) if last => {
                if let Some(x) = &r.expr {
                    out.push(Stmt::Expr((**x).clone(), None));
                }
                return Block { brace_token: b.brace_token, stmts: out };
            }
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !last => {
                if let Some(t) = ends_in_return(&i.then_branch) {
                    let rest = no_return(&Block { brace_token: b.brace_token, stmts: b.stmts[k + 1..].to_vec() });
                    let (c, t) = (&i.cond, no_return(&t));
                    out.push(Stmt::Expr(parse_quote!(if #c #t else #rest), None));
                    return Block { brace_token: b.brace_token, stmts: out };
                }
            }
            Stmt::Expr(Expr::If(i), _) if last => {
                // both branches are in the last place
                let mut i = i.clone();
                i.then_branch = no_return(&i.then_branch);
                if let Some((t, e)) = i.else_branch.take() {
                    let e = match *e {
                        Expr::Block(mut x) => {
                            x.block = no_return(&x.block);
                            Expr::Block(x)
                        }
                        x => x,
                    };
                    i.else_branch = Some((t, Box::new(e)));
                }
                let semi = if let Stmt::Expr(_, t) = s { *t } else { None };
                out.push(Stmt::Expr(Expr::If(i), semi));
                continue;
            }
            Stmt::Expr(Expr::Match(m), semi) if last => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    match &mut *a.body {
                        Expr::Return(r) if r.expr.is_some() => {
                            let x = r.expr.take().unwrap();
                            a.body = x;
                            a.comma = Some(Default::default());
                        }
                        Expr::Block(x) => x.block = no_return(&x.block),
                        _ => {}
                    }
                }
                out.push(Stmt::Expr(Expr::Match(m), *semi));
                continue;
            }
            _ => {}
        }
        out.push(s.clone());
    }
    Block { brace_token: b.brace_token, stmts: out }
}

struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

fn helper(f: &ItemFn) -> Option<Helper> {
    let body = no_return(&f.block);
    let mut l = Leaves(false);
    l.visit_block(&body);
    if l.0 || f.sig.asyncness.is_some() || f.sig.unsafety.is_some() {
        return None;
    }
    let mut ids = BTreeSet::new();
    crate::prelow::idents(quote!(#body), &mut ids);
    if ids.contains(&f.sig.ident.to_string()) || ids.contains("self") {
        return None;
    }
    let mut params = vec![];
    for a in &f.sig.inputs {
        match a {
            FnArg::Typed(t) => params.push(((*t.pat).clone(), matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()))),
            _ => return None,
        }
    }
    Some(Helper { params, body })
}

fn bound(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p)
        }
    }
    let mut v = V(Default::default());
    v.visit_block(b);
    v.0
}

/// a parameter replaced by the place it refers to
struct Place {
    name: String,
    arg: Expr,
    inner: Option<Expr>, // the place behind `&x` / `&mut x`
}
impl Place {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(&self.name))
    }
    fn target(&self) -> Expr {
        self.inner.clone().unwrap_or_else(|| self.arg.clone())
    }
}
impl VisitMut for Place {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let inner = self.inner.clone();
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is(&u.expr) && inner.is_some() => {
                *e = inner.unwrap();
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => *m.receiver = self.target(),
            Expr::Index(i) if self.is(&i.expr) => *i.expr = self.target(),
            Expr::Field(f) if self.is(&f.base) => *f.base = self.target(),
            x if self.is(x) => {
                *x = self.arg.clone();
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        in_macro(self, m)
    }
}

/// the arguments of assert!, warn!, ..
fn in_macro<V: VisitMut>(v: &mut V, m: &mut syn::Macro) {
    if let Ok(mut args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
        for a in args.iter_mut() {
            v.visit_expr_mut(a);
        }
        m.tokens = quote!(#args);
    }
}

struct Inline {
    known: BTreeMap<String, Helper>,
    done: usize,
}
impl Inline {
    fn place(&mut self, h: &Helper, args: Vec<Expr>) -> Expr {
        let mut body = h.body.clone();
        let names = bound(&body);
        let (mut first, mut second) = (vec![], vec![]);
        for (i, ((p, by_mut), a)) in h.params.iter().zip(args).enumerate() {
            let name = crate::common::pat_ident(p);
            let root = |e: &Expr| matches!(e, Expr::Path(q) if q.path.get_ident().map_or(false, |i| !names.contains(&i.to_string())));
            let simple = match &a {
                Expr::Reference(r) if root(&r.expr) => Some(Some((*r.expr).clone())),
                Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && root(&u.expr) => Some(None),
                x if root(x) => Some(None),
                _ => None,
            };
            if let (Some(n), Some(inner), Pat::Ident(syn::PatIdent { mutability: None, by_ref: None, subpat: None, .. })) = (&name, simple, p) {
                if !names.contains(n) {
                    let a: Expr = if matches!(a, Expr::Unary(_)) { parse_quote!((#a)) } else { a };
                    let mut pl = Place { name: n.clone(), arg: a, inner };
                    // in two steps: the argument may be called like a later parameter
                    let tmp = format_ident!("vx_h{}_{}", self.done, i);
                    let mut to_tmp = Place { name: n.clone(), arg: parse_quote!(#tmp), inner: None };
                    to_tmp.visit_block_mut(&mut body);
                    pl.name = tmp.to_string();
                    second.push(pl);
                    continue;
                }
            }
            let t = format_ident!("vx_arg{}", i);
            let a: Expr = if *by_mut && matches!(a, Expr::Path(_)) { parse_quote!(&mut *#a) } else { a };
            first.push((t, p.clone(), a));
        }
        for mut pl in second {
            pl.visit_block_mut(&mut body);
        }
        self.done += 1;
        let ss = &body.stmts;
        if first.is_empty() {
            return match &ss[..] {
                [Stmt::Expr(e, None)] => match e {
                    Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Block(_) => e.clone(),
                    _ => parse_quote!((#e)),
                },
                _ => parse_quote!({ #(#ss)* }),
            };
        }
        if first.len() == 1 {
            let (_, p, a) = &first[0];
            return parse_quote!({ let #p = #a; #(#ss)* });
        }
        let (ts, ps, xs): (Vec<_>, Vec<_>, Vec<_>) = first.into_iter().fold((vec![], vec![], vec![]), |(mut a, mut b, mut c), (x, y, z)| {
            a.push(x);
            b.push(y);
            c.push(z);
            (a, b, c)
        });
        parse_quote!({ #(let #ts = #xs;)* #(let #ps = #ts;)* #(#ss)* })
    }
}
impl VisitMut for Inline {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.done > 400 {
            return;
        }
        let mut new = None;
        match &mut *e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(h) = p.path.get_ident().and_then(|i| self.known.get(&i.to_string())).cloned() {
                        if h.params.len() == c.args.len() {
                            new = Some(self.place(&h, c.args.iter().cloned().collect()));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                // `.map(helper)`
                for a in m.args.iter_mut() {
                    if let Expr::Path(p) = &*a {
                        if let Some(h) = p.path.get_ident().and_then(|i| self.known.get(&i.to_string())).cloned() {
                            let (ps, b) = (h.params.iter().map(|p| p.0.clone()).collect::<Vec<_>>(), &h.body);
                            *a = parse_quote!(|#(#ps),*| #b);
                            self.done += 1;
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
            // helpers of the helper
            self.visit_expr_mut(e);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        in_macro(self, m)
    }
}

pub fn file(f: &mut File) {
    let mut known = BTreeMap::new();
    let mut add = |f: &ItemFn| {
        if !OWN.contains(&&*f.sig.ident.to_string()) {
            if let Some(h) = helper(f) {
                known.insert(f.sig.ident.to_string(), h);
            }
        }
    };
    for i in &f.items {
        if let Item::Fn(i) = i {
            add(i);
            for s in &i.block.stmts {
                if let Stmt::Item(Item::Fn(i)) = s {
                    add(i);
                }
            }
        }
    }
    // the ones that call each other are left alone
    loop {
        let bad: Vec<String> = known.iter().filter(|(n, h)| reaches(&known, h, n, 8)).map(|(n, _)| n.clone()).collect();
        if bad.is_empty() {
            break;
        }
        for b in bad {
            known.remove(&b);
        }
    }
    if known.is_empty() {
        return;
    }
    let names: BTreeSet<String> = known.keys().cloned().collect();
    let mut v = Inline { known, done: 0 };
    for i in f.items.iter_mut() {
        match i {
            Item::Fn(g) => {
                if !names.contains(&g.sig.ident.to_string()) {
                    g.block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Fn(g)) if names.contains(&g.sig.ident.to_string())));
                    v.visit_item_fn_mut(g);
                }
            }
            Item::Impl(g) => v.visit_item_impl_mut(g),
            _ => {}
        }
    }
    f.items.retain(|i| !matches!(i, Item::Fn(g) if names.contains(&g.sig.ident.to_string())));
}

fn reaches(known: &BTreeMap<String, Helper>, h: &Helper, n: &str, d: usize) -> bool {
    let b = &h.body;
    let mut ids = BTreeSet::new();
    crate::prelow::idents(quote!(#b), &mut ids);
    ids.contains(n) || d == 0 || ids.iter().any(|i| known.get(i).map_or(false, |g| !std::ptr::eq(g, h) && reaches(known, g, n, d - 1)))
}
