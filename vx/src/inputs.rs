//! What `run` reads before it builds the graph: LLVM-IR items, the target, recorded frames, symbols.
//!   while let P = e { .. }             -> loop { match e { P => { .. } _ => break } }
//!   e? / e.map_err(..)?                -> match e { .. Err(_) => return Err(vx_err()) }   (wraplow)
//!   str::from_utf8(e)                  -> vx_from_utf8(e)  (as an Option, where it is mapped)
//!   stack_sizes::analyze_*(e)          -> vx_analyze_*(e)
//!   let x: HashMap<..> = ...collect()  -> the type is put on collect
use crate::common::*;
use quote::quote;
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Expr, Stmt,
};

pub struct InLow;

/// put a type on a final `.collect()`
fn typed_collect(e: &mut Expr, ty: &str) {
    if let Expr::MethodCall(m) = e {
        if m.method == "collect" && m.turbofish.is_none() {
            m.turbofish = Some(match ty {
                "map" => parse_quote!(::<VxMap<_, _>>),
                "set" => parse_quote!(::<VxSet<_>>),
                _ => parse_quote!(::<Vec<_>>),
            });
        }
    }
}

fn kind(t: &str) -> Option<&'static str> {
    if t.contains("Map<") {
        Some("map")
    } else if t.contains("Set<") {
        Some("set")
    } else if t.contains("Vec<") {
        Some("vec")
    } else {
        None
    }
}

impl VisitMut for InLow {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s {
            if let syn::Pat::Type(t) = &l.pat {
                if let (Some(k), Some(i)) = (kind(&text(&t.ty).replace(' ', "")), l.init.as_mut()) {
                    typed_collect(&mut i.expr, k);
                    let p = (*t.pat).clone();
                    l.pat = p;
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Assign(a) = e {
            let l = text(&a.left).replace(' ', "");
            if l.ends_with(".defined") {
                typed_collect(&mut a.right, "map");
            } else if l.ends_with(".undefined") {
                typed_collect(&mut a.right, "set");
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(c) = &*w.cond {
                let (p, x, b, l) = (&c.pat, &c.expr, &w.body, &w.label);
                *e = parse_quote!(#l loop { match #x { #p => #b, _ => break, } });
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                let f = text(&c.func).replace(' ', "");
                if f == "stack_sizes::analyze_object" {
                    c.func = parse_quote!(vx_analyze_object);
                } else if f == "stack_sizes::analyze_executable" {
                    c.func = parse_quote!(vx_analyze_executable);
                } else if f == "str::from_utf8" || f == "std::str::from_utf8" {
                    c.func = parse_quote!(vx_from_utf8);
                }
            }
            Expr::MethodCall(m) if ["map", "map_or", "and_then", "unwrap_or"].contains(&&*m.method.to_string()) => {
                if let Expr::Call(c) = &*m.receiver {
                    if text(&c.func) == "vx_from_utf8" {
                        let r = &m.receiver;
                        m.receiver = Box::new(parse_quote!(#r.ok()));
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn low(b: &mut syn::Block) {
    InLow.visit_block_mut(b);
    crate::wraplow::WrapLow { consts: Default::default(), n: 0 }.visit_block_mut(b);
}

#[allow(unused)]
fn unused() {
    let _ = quote!();
}
