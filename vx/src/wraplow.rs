//! The rustc wrapper: effects become calls on a world parameter `vx_w`, errors lose their text.
//!   const NAME: &str = "lit"            -> the literal, where NAME is used
//!   eprintln!(..)                       -> vx_w.eprintln(format!(..))
//!   env::args() / env::var_os(n)        -> vx_w.args() / vx_w.var_os(n)
//!   c.status() / c.spawn()              -> c.status(vx_w)
//!   process::exit(c)                    -> vx_w.exit(c)
//!   x.ok_or_else(..)? / x.map_err(..)?  -> match x { .. => return Err(vx_err()) }
//!   x.map_or(d, |p| e), x.map(ToString::to_string), x.unwrap_or_default()
//!   c.arg(a).args(b);                   -> c.arg(a); c.args(b);
//!   &mut <iterator>                     -> the collected items
use crate::common::*;
use quote::format_ident;
use std::collections::BTreeMap;
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Block, Expr, Item, Stmt,
};

pub struct WrapLow {
    pub consts: BTreeMap<String, Expr>,
    pub n: usize,
}

pub fn str_consts(items: &[Item]) -> BTreeMap<String, Expr> {
    let mut m = BTreeMap::new();
    for i in items {
        if let Item::Const(c) = i {
            if crate::strlow::lit_of(&c.expr).is_some() {
                m.insert(c.ident.to_string(), (*c.expr).clone());
            }
        }
    }
    m
}

fn builder(e: &Expr) -> Option<(Expr, Vec<syn::ExprMethodCall>)> {
    if let Expr::MethodCall(m) = e {
        if ["arg", "args", "env"].contains(&&*m.method.to_string()) {
            if let Some((r, mut v)) = builder(&m.receiver) {
                v.push(m.clone());
                return Some((r, v));
            }
        }
        return None;
    }
    if let Expr::Path(_) = e {
        return Some((e.clone(), vec![]));
    }
    None
}

impl VisitMut for WrapLow {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local constants
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Const(c)) if crate::strlow::lit_of(&c.expr).is_some() => {
                    self.consts.insert(c.ident.to_string(), (*c.expr).clone());
                }
                Stmt::Macro(m) => {
                    let mac = m.mac;
                    out.push(Stmt::Expr(parse_quote!(#mac), m.semi_token));
                }
                Stmt::Expr(e, Some(semi)) => match builder(&e) {
                    Some((r, v)) if v.len() > 1 => {
                        for mut m in v {
                            m.receiver = Box::new(r.clone());
                            out.push(Stmt::Expr(Expr::MethodCall(m), Some(semi)));
                        }
                    }
                    _ => out.push(Stmt::Expr(e, Some(semi))),
                },
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if let Ok(mut args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                match &*name {
                    "anyhow" => {
                        *e = parse_quote!(vx_err());
                        return;
                    }
                    "bail" => {
                        *e = parse_quote!(return Err(vx_err()));
                        return;
                    }
                    _ => {}
                }
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if name == "eprintln" {
                    *e = parse_quote!(vx_w.eprintln(&format!(#args)));
                } else {
                    m.mac.tokens = quote::quote!(#args);
                }
            }
            return;
        }
        if let Expr::Path(p) = &*e {
            if let Some(s) = p.path.segments.last() {
                if let Some(v) = self.consts.get(&s.ident.to_string()) {
                    *e = v.clone();
                    return;
                }
            }
        }
        // x?
        if let Expr::Try(t) = &*e {
            self.n += 1;
            let y = format_ident!("vx_q{}", self.n);
            let inner = &*t.expr;
            let mut new: Option<Expr> = None;
            if let Expr::MethodCall(m) = inner {
                let (n, r) = (m.method.to_string(), &m.receiver);
                if (n == "ok_or_else" || n == "ok_or") && m.args.len() == 1 {
                    new = Some(parse_quote!((match #r { Some(#y) => #y, None => return Err(vx_err()) })));
                } else if (n == "map_err" || n == "context" || n == "with_context") && m.args.len() == 1 {
                    new = Some(parse_quote!((match #r { Ok(#y) => #y, Err(_) => return Err(vx_err()) })));
                }
            }
            *e = new.unwrap_or_else(|| parse_quote!((match #inner { Ok(#y) => #y, Err(_) => return Err(vx_err()) })));
        }
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match &*e {
            Expr::Call(c) => {
                let f = text(&c.func).replace(' ', "");
                let a = &c.args;
                match &*f {
                    "env::args" | "std::env::args" if a.is_empty() => new = Some(parse_quote!(vx_w.args())),
                    "env::var_os" | "std::env::var_os" => new = Some(parse_quote!(vx_w.var_os(#a))),
                    "process::exit" | "std::process::exit" => new = Some(parse_quote!(vx_w.exit(#a))),
                    "Command::new" => new = Some(parse_quote!(VxCommand::vx_new(#a))),
                    "wrapper::wrapper" | "wrapper" if a.is_empty() => new = Some(parse_quote!(wrapper(vx_w))),
                    "run" if a.is_empty() => new = Some(parse_quote!(run(vx_w))),
                    _ => {}
                }
            }
            Expr::MethodCall(m) => {
                let (n, r) = (m.method.to_string(), &m.receiver);
                match (&*n, m.args.len()) {
                    ("status", 0) => new = Some(parse_quote!(#r.status(vx_w))),
                    ("map_or", 2) => {
                        self.n += 1;
                        let y = format_ident!("vx_q{}", self.n);
                        let d = &m.args[0];
                        if let Expr::Closure(c) = &m.args[1] {
                            if c.inputs.len() == 1 {
                                let (p, b) = (&c.inputs[0], &c.body);
                                new = Some(parse_quote!((match #r { Some(#y) => { let #p = #y; #b } None => #d })));
                            }
                        }
                    }
                    ("map", 1) if ["ToString::to_string", "str::to_string", "String::from", "str::to_owned", "ToOwned::to_owned"].contains(&&*text(&m.args[0]).replace(' ', "")) => {
                        new = Some(parse_quote!(vx_opt_str(#r)));
                    }
                    ("unwrap_or_default", 0) => new = Some(parse_quote!(vx_or_empty(#r))),
                    _ => {}
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::MethodCall(m) = &*r.expr {
                    if ["map", "copied", "cloned", "filter"].contains(&&*m.method.to_string()) {
                        let x = &r.expr;
                        new = Some(parse_quote!(&mut vx_iter_vec(#x.collect::<Vec<_>>())));
                    }
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}
