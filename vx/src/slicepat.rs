//! Slice patterns: `match (&v[..], x) { ([a, b], p) => .. }` -> `match (vx_slice2(&v), x) { (Some((a, b)), p) => .. }`
//! (vx_slice2 is Some of the two elements iff there are exactly two).
use crate::common::*;
use quote::format_ident;
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Expr, Pat,
};

pub struct SlicePat;

/// `v` of `&v[..]`, `v.as_slice()`
fn slice_of(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Paren(p) => slice_of(&p.expr),
        Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
            Expr::Index(i) if text(&i.index).trim() == ".." => Some((*i.expr).clone()),
            _ => None,
        },
        Expr::MethodCall(m) if m.method == "as_slice" && m.args.is_empty() => Some((*m.receiver).clone()),
        _ => None,
    }
}

/// the length all slice patterns share; rewrites them when `go`
fn fixed(p: &mut Pat, pos: Option<usize>, n: &mut Option<usize>, go: bool) -> bool {
    match p {
        Pat::Or(o) => o.cases.iter_mut().all(|c| fixed(c, pos, n, go)),
        Pat::Paren(q) => fixed(&mut q.pat, pos, n, go),
        Pat::Tuple(t) if pos.is_some() => match t.elems.iter_mut().nth(pos.unwrap()) {
            Some(q) => fixed(q, None, n, go),
            None => false,
        },
        Pat::Wild(_) => true,
        Pat::Slice(s) if pos.is_none() => {
            let has_rest = s.elems.iter().any(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if i.subpat.is_some()));
            if has_rest || n.map_or(false, |k| k != s.elems.len()) {
                return false;
            }
            *n = Some(s.elems.len());
            if go {
                let e: Vec<Pat> = s.elems.iter().cloned().collect();
                *p = parse_quote!(Some((#(#e),*)));
            }
            true
        }
        _ => false,
    }
}

fn rewrite(scrut: &mut Expr, pats: &mut Vec<&mut Pat>) {
    let mut scrut = scrut;
    while let Expr::Paren(p) = scrut {
        scrut = &mut p.expr;
    }
    let many = matches!(scrut, Expr::Tuple(_));
    let parts: Vec<(Option<usize>, &mut Expr)> = match scrut {
        Expr::Tuple(t) => t.elems.iter_mut().enumerate().map(|(i, e)| (Some(i), e)).collect(),
        e => vec![(None, e)],
    };
    let _ = many;
    for (pos, e) in parts {
        if let Some(v) = slice_of(e) {
            let mut n = None;
            if pats.iter_mut().all(|p| fixed(p, pos, &mut n, false)) && n.is_some() {
                for p in pats.iter_mut() {
                    fixed(p, pos, &mut n, true);
                }
                let f = format_ident!("vx_slice{}", n.unwrap());
                *e = parse_quote!(#f(&#v));
            }
        }
    }
}

impl VisitMut for SlicePat {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Match(m) => {
                let mut pats: Vec<&mut Pat> = m.arms.iter_mut().map(|a| &mut a.pat).collect();
                rewrite(&mut m.expr, &mut pats);
            }
            Expr::Let(l) => {
                let mut pats = vec![&mut *l.pat];
                rewrite(&mut l.expr, &mut pats);
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}
}
