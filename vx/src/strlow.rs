//! Strings, maps, `write!` and matches on string literals -> the vocabulary of specs/strs.inc.
//! Runs before iterlow.  Every rewrite keeps the meaning given by the std documentation:
//!   "lit"                     -> vx_lit("lit")
//!   &**e                      -> e.vx_str()
//!   Cow::Borrowed(e)/Owned(e) -> e
//!   e.insert(k.into(), v)     -> e.insert(k, v)
//!   write!(w, "a{}b", x)      -> w.write_str("a"), then x.vx_fmt(w), then w.write_str("b"), first error wins
//!   match s { "a" => .. }     -> match s { p if p == "a" => .. }
//!   a == "lit", a == Some(b)  -> vx_eq(a, "lit"), vx_some_eq(a, Some(b))
use crate::common::*;
use quote::{format_ident, quote};
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Expr, Lit, Pat, Type,
};

pub struct StrLow {
    pub n: usize,
    /// variables that are already `&mut` writers
    pub writers: Vec<String>,
    pub err: Option<String>,
}

impl Default for StrLow {
    fn default() -> Self {
        StrLow { n: 0, writers: vec!["f".into(), "stdout".into(), "self.writer".into()], err: None }
    }
}

pub fn lit_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Paren(p) => lit_of(&p.expr),
        Expr::Call(c) if text(&c.func) == "vx_lit" => lit_of(&c.args[0]),
        _ => None,
    }
}

fn derefs(e: &Expr) -> (usize, &Expr) {
    match e {
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
            let (n, x) = derefs(&u.expr);
            (n + 1, x)
        }
        Expr::Paren(p) => derefs(&p.expr),
        _ => (0, e),
    }
}

enum Fp {
    Lit(String),
    Arg(Expr),
}

/// split a format string with only `{}` / `{name}` / `{0}` placeholders
fn fmt_parts(m: &syn::Macro, skip: usize) -> Option<(Vec<Expr>, Vec<Fp>)> {
    let a: Vec<Expr> = m
        .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
        .ok()?
        .into_iter()
        .collect();
    let head = a[..skip].to_vec();
    let fmt = match a.get(skip) {
        Some(e) => lit_of(e)?,
        None => String::new(),
    };
    let args = if a.len() > skip { a[skip + 1..].to_vec() } else { vec![] };
    let mut out = vec![];
    let mut cur = String::new();
    let mut next = 0;
    let mut it = fmt.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                cur.push('{')
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                cur.push('}')
            }
            '{' => {
                let mut s = String::new();
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    s.push(c)
                }
                if !cur.is_empty() {
                    out.push(Fp::Lit(std::mem::take(&mut cur)));
                }
                let e: Expr = if s.is_empty() {
                    next += 1;
                    args.get(next - 1)?.clone()
                } else if let Ok(n) = s.parse::<usize>() {
                    args.get(n)?.clone()
                } else if s.contains(':') {
                    return None;
                } else {
                    syn::parse_str::<Expr>(&s).ok()?
                };
                out.push(Fp::Arg(e));
            }
            '}' => return None,
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(Fp::Lit(cur));
    }
    Some((head, out))
}

impl StrLow {
    fn fresh(&mut self, s: &str) -> syn::Ident {
        self.n += 1;
        format_ident!("vx_{}{}", s, self.n)
    }

    fn write_mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match &*name {
            "write" | "writeln" => {
                let (head, mut parts) = fmt_parts(m, 1)?;
                if name == "writeln" {
                    match parts.last_mut() {
                        Some(Fp::Lit(l)) => l.push('\n'),
                        _ => parts.push(Fp::Lit("\n".into())),
                    }
                }
                let w = &head[0];
                let own = self.writers.contains(&text(w).replace(' ', ""));
                let wa: Expr = if own { w.clone() } else { parse_quote!(&mut #w) };
                let mut e: Option<Expr> = None;
                for p in parts.into_iter().rev() {
                    let step: Expr = match p {
                        Fp::Lit(l) => parse_quote!((#w).write_str(#l)),
                        Fp::Arg(a) => parse_quote!((#a).vx_fmt(#wa)),
                    };
                    e = Some(match e {
                        None => step,
                        Some(rest) => {
                            let x = self.fresh("e");
                            parse_quote!((match #step { Ok(()) => #rest, Err(#x) => Err(#x) }))
                        }
                    });
                }
                e.or_else(|| Some(parse_quote!(Ok(()))))
            }
            "format" => {
                let (_, parts) = fmt_parts(m, 0)?;
                let v = self.fresh("s");
                let st: Vec<syn::Stmt> = parts
                    .into_iter()
                    .map(|p| match p {
                        Fp::Lit(l) => parse_quote!(#v.push_str(#l);),
                        Fp::Arg(a) => parse_quote!((#a).vx_push(&mut #v);),
                    })
                    .collect();
                Some(parse_quote!({ let mut #v = VxStr::vx_new(); #(#st)* #v }))
            }
            _ => None,
        }
    }

    /// replace string literals in a pattern by fresh names; returns the conditions
    fn pat(&mut self, p: &mut Pat) -> Vec<Expr> {
        struct V<'a>(&'a mut StrLow, Vec<Expr>);
        impl<'a> VisitMut for V<'a> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Lit(l) = p {
                    if let Lit::Str(s) = &l.lit {
                        let s = s.clone();
                        let id = self.0.fresh("p");
                        self.1.push(parse_quote!(vx_eq(#id, vx_lit(#s))));
                        *p = parse_quote!(#id);
                        return;
                    }
                }
                if let Pat::Or(o) = p {
                    if has_str(&*o) {
                        // "a" | "b"
                        let all: Option<Vec<syn::LitStr>> = o
                            .cases
                            .iter()
                            .map(|c| match c {
                                Pat::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) => Some(s.clone()),
                                _ => None,
                            })
                            .collect();
                        if let Some(ls) = all {
                            let id = self.0.fresh("p");
                            self.1.push(parse_quote!((#(vx_eq(#id, vx_lit(#ls)))||*)));
                            *p = parse_quote!(#id);
                        } else {
                            self.0.err = Some("string literal inside an or-pattern".into());
                        }
                        return;
                    }
                }
                visit_mut::visit_pat_mut(self, p)
            }
        }
        let mut v = V(self, vec![]);
        v.visit_pat_mut(p);
        v.1
    }
}

impl VisitMut for StrLow {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = self.write_mac(&m.mac.clone()).or_else(|| assert_mac(&m.mac)) {
                *e = n;
            }
        }
        // literals
        if let Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) = e {
            *e = parse_quote!(vx_lit(#s));
            return;
        }
        if let Expr::Call(c) = e {
            if text(&c.func) == "vx_lit" {
                return;
            }
        }
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() {
                let conds = self.pat(&mut a.pat);
                if !conds.is_empty() {
                    let g: Expr = match &a.guard {
                        Some((_, g)) => parse_quote!(#(#conds)&&* && (#g)),
                        None => parse_quote!(#(#conds)&&*),
                    };
                    a.guard = Some((Default::default(), Box::new(g)));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match &*e {
            // &x[a..], &x[..b], &x[a..b]
            Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Index(i) if matches!(&*i.index, Expr::Range(_))) => {
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(g) = &*i.index {
                        let x = &i.expr;
                        if matches!(g.limits, syn::RangeLimits::HalfOpen(_)) {
                            new = match (&g.start, &g.end) {
                                (Some(a), None) => Some(parse_quote!(#x.vx_from(#a))),
                                (None, Some(b)) => Some(parse_quote!(#x.vx_to(#b))),
                                (Some(a), Some(b)) => Some(parse_quote!(#x.vx_range(#a, #b))),
                                _ => None,
                            };
                        }
                    }
                }
            }
            // &**x
            Expr::Reference(r) if r.mutability.is_none() => {
                let (n, x) = derefs(&r.expr);
                if n >= 1 {
                    new = Some(parse_quote!(#x.vx_str()));
                }
            }
            Expr::Call(c) if c.args.len() == 1 => {
                let f = text(&c.func).replace(' ', "");
                if f == "Cow::Borrowed" || f == "Cow::Owned" || f == "String::from" {
                    let a = &c.args[0];
                    new = Some(parse_quote!(#a));
                }
                if f.starts_with("Box::new") {
                    let a = &c.args[0];
                    new = Some(parse_quote!(Box::new(#a)));
                }
            }
            // a number in decimal
            Expr::Call(c) if c.args.len() == 2 && text(&c.func).replace(' ', "") == "u64::from_str_radix" && text(&c.args[1]).trim() == "10" => {
                let a = &c.args[0];
                new = Some(parse_quote!(vx_parse_u64(#a)));
            }
            Expr::Call(c) if c.args.is_empty() => {
                let f = text(&c.func).replace(' ', "");
                for (k, v) in [("HashMap", "VxMap"), ("BTreeMap", "VxMap"), ("HashSet", "VxSet"), ("BTreeSet", "VxSet")] {
                    if f == format!("{}::new", k) || (f.starts_with(&format!("{}::<", k)) && f.ends_with("::new")) {
                        let id = format_ident!("{}", v);
                        new = Some(parse_quote!(#id::new()));
                    }
                }
                if f == "String::new" {
                    new = Some(parse_quote!(VxStr::vx_new()));
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "parse" && m.args.is_empty() && m.turbofish.as_ref().map_or(false, |t| text(t).replace(' ', "") == "::<u64>") {
                    let x = &m.receiver;
                    new = Some(parse_quote!(vx_parse_u64(#x)));
                }
                if n == "get" && m.args.len() == 1 {
                    if let Expr::Range(g) = &m.args[0] {
                        if let (Some(a), None) = (&g.start, &g.end) {
                            let x = &m.receiver;
                            new = Some(parse_quote!(#x.vx_get_from(#a)));
                        }
                    }
                }
                if n == "or_insert" || n == "or_default" || n == "or_insert_with" {
                    if let Expr::MethodCall(k) = &*m.receiver {
                        if k.method == "entry" && k.args.len() == 1 {
                            let (x, key) = (&k.receiver, &k.args[0]);
                            if n == "or_insert" {
                                let v = &m.args[0];
                                new = Some(parse_quote!(#x.vx_entry(#key, #v)));
                            } else if n == "or_default" || n == "or_insert_with" && matches!(m.args.first().map(|a| text(a).replace(' ', "")).as_deref(), Some("HashSet::new" | "Default::default" | "HashSet::default" | "Indirect::default")) {
                                new = Some(parse_quote!(#x.vx_entry_default(#key)));
                            }
                        }
                    }
                }
                if n == "insert" && !m.args.is_empty() {
                    if let Expr::MethodCall(k) = &m.args[0] {
                        if k.method == "into" && k.args.is_empty() {
                            let mut m2 = m.clone();
                            m2.args[0] = (*k.receiver).clone();
                            new = Some(Expr::MethodCall(m2));
                        }
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                let is_some = |e: &Expr| matches!(e, Expr::Call(c) if text(&c.func) == "Some");
                let is_ty = |e: &Expr| text(e).replace(' ', "").starts_with("Type::");
                let q: Option<Expr> = if is_ty(l) || is_ty(r) {
                    Some(parse_quote!((#l).vx_eq(&(#r))))
                } else if lit_of(l).is_some() || lit_of(r).is_some() {
                    Some(parse_quote!(vx_eq(#l, #r)))
                } else if is_some(l) || is_some(r) {
                    Some(parse_quote!(vx_some_eq(#l, #r)))
                } else {
                    None
                };
                if let Some(q) = q {
                    new = Some(if matches!(b.op, syn::BinOp::Eq(_)) { q } else { parse_quote!(!#q) });
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            let semi = m.semi_token;
            if let Some(e) = self.write_mac(&m.mac.clone()).or_else(|| assert_mac(&m.mac)) {
                *s = syn::Stmt::Expr(e, semi);
            }
        }
        // `if let PAT = e` with a string literal inside the pattern is left alone (and will not compile)
        visit_mut::visit_stmt_mut(self, s)
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        *t = vx_type(t);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // fixed slices in patterns: `&[..]` of literals are not strings
        visit_mut::visit_pat_mut(self, p)
    }
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}
}

/// assert!(c, ..) and debug_assert!(c, ..)
fn assert_mac(m: &syn::Macro) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    let f = match &*name {
        "assert" | "assert_eq" | "assert_ne" => format_ident!("vx_assert"),
        "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => format_ident!("vx_debug_assert"),
        _ => return None,
    };
    let a: Vec<Expr> = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?.into_iter().collect();
    let x = a.first()?;
    Some(match &*name {
        "assert" | "debug_assert" => parse_quote!(#f(#x)),
        n => {
            let y = a.get(1)?;
            if n.ends_with("eq") {
                parse_quote!(#f((#x) == (#y)))
            } else {
                parse_quote!(#f((#x) != (#y)))
            }
        }
    })
}

/// types of the code -> types of the contracts (recursively, lifetimes removed)
pub fn vx_type(t: &Type) -> Type {
    let s = text(t).replace(' ', "");
    match &*s {
        "Cow<'a,str>" | "str" | "String" | "Cow<str>" | "Cow<'_,str>" | "std::string::String" => return parse_quote!(VxStr),
        "fmt::Formatter" | "fmt::Formatter<'_>" => return parse_quote!(VxFmt),
        "fmt::Result" => return parse_quote!(Result<(), VxErr>),
        "io::Result<()>" => return parse_quote!(Result<(), VxErr>),
        _ => {}
    }
    match t {
        Type::Reference(r) => {
            let mut r = r.clone();
            r.lifetime = None;
            r.elem = Box::new(match &*r.elem {
                Type::Slice(s) => {
                    let e = vx_type(&s.elem);
                    parse_quote!(Vec<#e>)
                }
                x => vx_type(x),
            });
            Type::Reference(r)
        }
        Type::Path(p) => {
            let mut p = p.clone();
            for s in p.path.segments.iter_mut() {
                let n = s.ident.to_string();
                match &*n {
                    "HashMap" | "BTreeMap" => s.ident = format_ident!("VxMap"),
                    "HashSet" | "BTreeSet" => s.ident = format_ident!("VxSet"),
                    _ => {}
                }
                if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                    let mut keep = syn::punctuated::Punctuated::new();
                    let key = matches!(&*n, "HashMap" | "BTreeMap" | "HashSet" | "BTreeSet");
                    let mut first = true;
                    for g in a.args.iter() {
                        match g {
                            syn::GenericArgument::Lifetime(_) => {}
                            syn::GenericArgument::Type(t) => {
                                let mut t = vx_type(t);
                                // keys are values
                                if key && first {
                                    while let Type::Reference(r) = &t {
                                        t = (*r.elem).clone();
                                    }
                                }
                                first = false;
                                keep.push(syn::GenericArgument::Type(t));
                            }
                            g => keep.push(g.clone()),
                        }
                    }
                    if keep.is_empty() {
                        s.arguments = syn::PathArguments::None;
                    } else {
                        a.args = keep;
                    }
                }
            }
            Type::Path(p)
        }
        Type::Tuple(t) => {
            let e: Vec<Type> = t.elems.iter().map(vx_type).collect();
            match e.len() {
                0 => parse_quote!(()),
                _ => parse_quote!((#(#e,)*)),
            }
        }
        t => t.clone(),
    }
}

#[allow(unused)]
fn unused() {
    let _ = quote!();
}

/// does the pattern mention a string literal?
fn has_str(o: &syn::PatOr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_lit_str(&mut self, _: &'a syn::LitStr) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_pat_or(&mut v, o);
    v.0
}
