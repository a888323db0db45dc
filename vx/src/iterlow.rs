//! Iterator expressions and `for` loops -> explicit `loop { match it.next() .. }` loops, by the
//! documented meaning of the adaptors.  Every source becomes a `VxIter` (std / petgraph iterator under
//! an assumed contract: it yields the items of `rest()` in order).
use crate::common::*;
use quote::{format_ident, quote};
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    Block, Expr, Ident, Pat, Stmt,
};

#[derive(Default)]
pub struct IterLow {
    pub n: usize,
    /// receivers `X` of a method `m` that is an Option rather than an iterator: last method names
    pub option_methods: Vec<String>,
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}

/// `let &p = x` -> `let p = *x`
fn bind(p: &Pat, x: Expr) -> Stmt {
    match p {
        Pat::Reference(r) if r.mutability.is_none() => bind(&r.pat, parse_quote!(*(#x))),
        Pat::Paren(q) => bind(&q.pat, x),
        p => parse_quote!(let #p = #x;),
    }
}

fn closure2(e: &Expr) -> Option<(Pat, Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 2 {
            return Some((c.inputs[0].clone(), c.inputs[1].clone(), (*c.body).clone()));
        }
    }
    None
}

/// apply `f` (closure literal or function path) to an expression
fn apply(f: &Expr, x: Expr) -> Expr {
    if let Some((p, b)) = closure1(f) {
        let l = bind(&p, x);
        return parse_quote!({ #l #b });
    }
    parse_quote!(#f(#x))
}

fn is_range(e: &Expr) -> bool {
    match e {
        Expr::Range(_) => true,
        Expr::Paren(p) => is_range(&p.expr),
        _ => false,
    }
}

impl IterLow {
    pub fn fresh(&mut self, s: &str) -> Ident {
        self.n += 1;
        format_ident!("vx_{}_{}", s, self.n)
    }

    pub fn is_option(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.option_methods.contains(&n) || (n == "ok" && m.args.is_empty()) {
                    return true;
                }
                if ["map", "and_then", "filter", "or_else", "copied", "cloned", "as_ref"].contains(&&*n) {
                    return self.is_option(&m.receiver);
                }
                false
            }
            Expr::Paren(p) => self.is_option(&p.expr),
            _ => false,
        }
    }

    /// `(mut a, b)` -> `(vx_a, b)` and `let mut a = vx_a;`
    fn plain(&mut self, p: &Pat) -> (Pat, Vec<Stmt>) {
        struct V<'a>(&'a mut IterLow, Vec<Stmt>);
        impl<'a> VisitMut for V<'a> {
            fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
                if p.mutability.is_some() && p.by_ref.is_none() && p.subpat.is_none() {
                    let y = self.0.fresh("m");
                    let id = p.ident.clone();
                    p.mutability = None;
                    p.ident = y.clone();
                    self.1.push(parse_quote!(let mut #id = #y;));
                }
            }
        }
        let mut q = p.clone();
        let mut v = V(self, vec![]);
        v.visit_pat_mut(&mut q);
        let st = v.1;
        (q, st)
    }

    /// does the expression build an iterator out of adaptors we know?
    fn is_adaptor(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                ["map", "filter", "filter_map", "flat_map", "chain", "copied", "cloned", "enumerate", "zip"].contains(&&*n) && !self.is_option(&m.receiver)
            }
            Expr::Paren(p) => self.is_adaptor(&p.expr),
            _ => false,
        }
    }

    /// statements that run `sink(item)` for every item of the iterator expression
    pub fn comp(&mut self, e: &Expr, sink: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        if let Expr::Paren(p) = e {
            return self.comp(&p.expr, sink);
        }
        if let Expr::Block(b) = e {
            if let Some(Stmt::Expr(t, None)) = b.block.stmts.last() {
                let mut v = b.block.stmts[..b.block.stmts.len() - 1].to_vec();
                v.extend(self.comp(t, sink));
                return v;
            }
        }
        if let Expr::Call(c) = e {
            // std::iter::once(x)
            if text(&c.func).replace(' ', "").ends_with("iter::once") && c.args.len() == 1 {
                return sink(self, c.args[0].clone());
            }
        }
        if let Expr::MethodCall(m) = e {
            if self.is_adaptor(e) {
                let n = m.method.to_string();
                let r = (*m.receiver).clone();
                match (&*n, m.args.first().cloned()) {
                    ("map", Some(f)) => {
                        return self.comp(&r, &mut |s, x| {
                            let y = s.fresh("x");
                            if let Some((p, b)) = closure1(&f) {
                                let mut v: Vec<Stmt> = vec![bind(&p, x), parse_quote!(let #y = #b;)];
                                v.extend(sink(s, parse_quote!(#y)));
                                v
                            } else {
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = #f(#x);)];
                                v.extend(sink(s, parse_quote!(#y)));
                                v
                            }
                        });
                    }
                    ("filter", Some(f)) => {
                        return self.comp(&r, &mut |s, x| {
                            let y = s.fresh("x");
                            let c = apply(&f, parse_quote!(&#y));
                            let inner = sink(s, parse_quote!(#y));
                            vec![parse_quote!(let #y = #x;), parse_quote!(if #c { #(#inner)* })]
                        });
                    }
                    ("filter_map", Some(f)) => {
                        return self.comp(&r, &mut |s, x| {
                            let y = s.fresh("x");
                            let c = apply(&f, x);
                            let inner = sink(s, parse_quote!(#y));
                            vec![parse_quote!(if let Some(#y) = #c { #(#inner)* })]
                        });
                    }
                    ("flat_map", Some(f)) => {
                        if let Some((p, b)) = closure1(&f) {
                            return self.comp(&r, &mut |s, x| {
                                let mut v: Vec<Stmt> = vec![bind(&p, x)];
                                v.extend(s.comp(&b, sink));
                                v
                            });
                        }
                    }
                    ("chain", Some(o)) => {
                        let mut v = self.comp(&r, sink);
                        v.extend(self.comp(&o, sink));
                        return v;
                    }
                    ("copied", None) | ("cloned", None) => {
                        return self.comp(&r, &mut |s, x| sink(s, parse_quote!((*#x))));
                    }
                    ("zip", Some(o)) => {
                        // (the first iterator runs on when the second is exhausted: no effect but the pulling)
                        let (jt, y) = (self.fresh("jt"), self.fresh("y"));
                        let ob = base(&o);
                        let mut v: Vec<Stmt> = vec![parse_quote!(let mut #jt = #ob;)];
                        v.extend(self.comp(&r, &mut |s, x| {
                            let inner = sink(s, parse_quote!((#x, #y)));
                            vec![parse_quote!(if let Some(#y) = #jt.next() { #(#inner)* })]
                        }));
                        return v;
                    }
                    ("enumerate", None) => {
                        let k = self.fresh("k");
                        let mut v: Vec<Stmt> = vec![parse_quote!(let mut #k: usize = 0;)];
                        v.extend(self.comp(&r, &mut |s, x| {
                            let i = s.fresh("i");
                            let mut w: Vec<Stmt> = vec![parse_quote!(let #i = #k;), parse_quote!(#k = #k + 1;)];
                            w.extend(sink(s, parse_quote!((#i, #x))));
                            w
                        }));
                        return v;
                    }
                    _ => {}
                }
            }
        }
        let it = self.fresh("it");
        let x = self.fresh("x");
        let inner = sink(self, parse_quote!(#x));
        vec![
            { let b = base(e); parse_quote!(let mut #it = #b;) },
            parse_quote!(loop { match #it.next() { Some(#x) => { #(#inner)* } None => break, } }),
        ]
    }

    fn consumer(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                // max_of(<iterator expression>)
                if text(&c.func) == "max_of" && c.args.len() == 1 && !matches!(&c.args[0], Expr::Path(_)) && !text(&c.args[0]).starts_with("vx_iter_vec") {
                    let v = self.fresh("v");
                    let body = self.comp(&c.args[0].clone(), &mut |_, x| vec![parse_quote!(#v.push(#x);)]);
                    return Some(parse_quote!({ let mut #v = Vec::new(); #(#body)* max_of(vx_iter_vec(#v)) }));
                }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = (*m.receiver).clone();
                if self.is_option(&r) {
                    return None;
                }
                match (&*n, m.args.len()) {
                    ("collect", 0) => {
                        let t = m.turbofish.as_ref().map(|t| text(t).split_whitespace().collect::<String>()).unwrap_or_default();
                        let v = self.fresh("v");
                        if t.contains("Vec<") || t.is_empty() && false {
                            let body = self.comp(&r, &mut |_, x| vec![parse_quote!(#v.push(#x);)]);
                            return Some(parse_quote!({ let mut #v = Vec::new(); #(#body)* #v }));
                        }
                        if t.contains("VxMap<") || t.contains("BTreeMap<") || t.contains("HashMap<") {
                            let (k, w) = (self.fresh("k"), self.fresh("w"));
                            let body = self.comp(&r, &mut |_, x| vec![parse_quote!(let (#k, #w) = #x;), parse_quote!(#v.insert(#k, #w);)]);
                            return Some(parse_quote!({ let mut #v = VxMap::new(); #(#body)* #v }));
                        }
                        if t.contains("VxSet<") || t.contains("BTreeSet<") || t.contains("HashSet<") {
                            let body = self.comp(&r, &mut |_, x| vec![parse_quote!(#v.insert(#x);)]);
                            return Some(parse_quote!({ let mut #v = VxSet::new(); #(#body)* #v }));
                        }
                        None
                    }
                    ("any", 1) | ("all", 1) => {
                        let v = self.fresh("b");
                        let f = m.args[0].clone();
                        let any = n == "any";
                        let body = self.comp(&r, &mut |_, x| {
                            let c = apply(&f, x);
                            if any {
                                vec![parse_quote!(if #c { #v = true; })]
                            } else {
                                vec![parse_quote!(if !(#c) { #v = false; })]
                            }
                        });
                        let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                        Some(parse_quote!({ let mut #v = #init; #(#body)* #v }))
                    }
                    ("next", 0) if self.is_adaptor(&r) => {
                        // the first item
                        let v = self.fresh("f");
                        let body = self.comp(&r, &mut |_, x| vec![parse_quote!(if #v.is_none() { #v = Some(#x); })]);
                        Some(parse_quote!({ let mut #v = None; #(#body)* #v }))
                    }
                    ("find", 1) => {
                        let v = self.fresh("f");
                        let f = m.args[0].clone();
                        let y = self.fresh("y");
                        let body = self.comp(&r, &mut |_, x| {
                            let c = apply(&f, parse_quote!(&#y));
                            vec![parse_quote!(if #v.is_none() { let #y = #x; if #c { #v = Some(#y); } })]
                        });
                        Some(parse_quote!({ let mut #v = None; #(#body)* #v }))
                    }
                    ("fold", 2) => {
                        let acc = self.fresh("acc");
                        let init = m.args[0].clone();
                        let f = m.args[1].clone();
                        let body = self.comp(&r, &mut |_, x| {
                            if let Some((a, b, body)) = closure2(&f) {
                                { let lb = bind(&b, x); vec![parse_quote!(#acc = { let #a = #acc; #lb #body };)] }
                            } else {
                                vec![parse_quote!(#acc = #f(#acc, #x);)]
                            }
                        });
                        Some(parse_quote!({ let mut #acc = #init; #(#body)* #acc }))
                    }
                    ("reduce", 1) => {
                        let (acc, it, x) = (self.fresh("acc"), self.fresh("it"), self.fresh("x"));
                        let rb = base(&r);
                        let f = m.args[0].clone();
                        let body: Stmt = if let Some((a, b, body)) = closure2(&f) {
                            parse_quote!(#acc = { let #a = #acc; let #b = #x; #body };)
                        } else {
                            parse_quote!(#acc = #f(#acc, #x);)
                        };
                        Some(parse_quote!({
                            let mut #it = #rb;
                            match #it.next() {
                                Some(#x) => { let mut #acc = #x; loop { match #it.next() { Some(#x) => { #body } None => break, } } Some(#acc) }
                                None => None,
                            }
                        }))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn option(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let r = (*m.receiver).clone();
            if !self.is_option(&r) {
                return None;
            }
            match (&*n, m.args.len()) {
                ("map", 1) => {
                    let y = self.fresh("y");
                    let b = apply(&m.args[0], parse_quote!(#y));
                    return Some(parse_quote!(match #r { Some(#y) => Some(#b), None => None }));
                }
                ("and_then", 1) => {
                    let y = self.fresh("y");
                    let b = apply(&m.args[0], parse_quote!(#y));
                    return Some(parse_quote!(match #r { Some(#y) => #b, None => None }));
                }
                ("or_else", 1) => {
                    if let Expr::Closure(c) = &m.args[0] {
                        let y = self.fresh("y");
                        let b = &c.body;
                        return Some(parse_quote!(match #r { Some(#y) => Some(#y), None => #b }));
                    }
                }
                ("copied", 0) | ("cloned", 0) => {
                    let y = self.fresh("y");
                    return Some(parse_quote!(match #r { Some(#y) => Some(*#y), None => None }));
                }
                ("unwrap_or", 1) => {
                    let y = self.fresh("y");
                    let d = &m.args[0];
                    return Some(parse_quote!(match #r { Some(#y) => #y, None => #d }));
                }
                _ => {}
            }
        }
        None
    }
}

impl VisitMut for IterLow {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Expr(Expr::ForLoop(f), _) if !is_range(&f.expr) => {
                    let (pat, body, label) = (&f.pat, &f.body, &f.label);
                    if let Some(c) = mut_iter(&f.expr) {
                        // for x in c.iter_mut(): by position
                        let (n, i) = (self.fresh("n"), self.fresh("i"));
                        let st = &body.stmts;
                        out.push(parse_quote!(let #n = #c.vx_mut_len();));
                        out.push(parse_quote!(let mut #i: usize = 0;));
                        // (key, value) of a map: the key as a value
                        let get: Vec<Stmt> = match &**pat {
                            Pat::Tuple(t) if t.elems.len() == 2 => {
                                let (k, w) = (&t.elems[0], &t.elems[1]);
                                vec![parse_quote!(let #k = #c.vx_key_at(#i);), parse_quote!(let #w = #c.vx_mut_at(#i);)]
                            }
                            p => vec![parse_quote!(let #p = #c.vx_mut_at(#i);)],
                        };
                        out.push(Stmt::Expr(
                            parse_quote!(#label loop { if #i >= #n { break; } #(#get)* #i = #i + 1; #(#st)* }),
                            None,
                        ));
                    } else if self.is_adaptor(&f.expr) && !uses_jump(body) {
                        let x = f.expr.clone();
                        out.extend(self.comp(&x, &mut |_, x| {
                            let mut v: Vec<Stmt> = vec![bind(pat, x)];
                            v.extend(body.stmts.clone());
                            v
                        }));
                    } else {
                        let it = self.fresh("it");
                        let e = &f.expr;
                        let e2: Expr = if self.is_adaptor(&f.expr) {
                            let v = self.fresh("v");
                            let x = f.expr.clone();
                            let body = self.comp(&x, &mut |_, x| vec![parse_quote!(#v.push(#x);)]);
                            parse_quote!({ let mut #v = Vec::new(); #(#body)* #v })
                        } else {
                            (**e).clone()
                        };
                        let e2 = base(&e2);
                        let (pat, pre) = self.plain(pat);
                        let mut body = body.clone();
                        for (i, s) in pre.into_iter().enumerate() {
                            body.stmts.insert(i, s);
                        }
                        out.push(parse_quote!(let mut #it = #e2;));
                        out.push(Stmt::Expr(parse_quote!(#label loop { match #it.next() { Some(#pat) => #body, None => break, } }), None));
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..8 {
            if let Some(n) = self.consumer(e) {
                *e = n;
            } else if let Some(n) = self.option(e) {
                *e = n;
            } else {
                break;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.args.is_empty() && (m.method == "keys" || m.method == "values") {
                m.method = format_ident!("vx_{}", m.method);
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}
}

/// `c` of `c.node_weights_mut()`, `c.iter_mut()`, `&mut c` is iterated by position
fn mut_iter(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Paren(p) => mut_iter(&p.expr),
        Expr::MethodCall(m) if m.args.is_empty() && ["node_weights_mut", "iter_mut", "values_mut"].contains(&&*m.method.to_string()) => Some((*m.receiver).clone()),
        Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
        _ => None,
    }
}

/// the iterator over a collection
fn base(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => return base(&p.expr),
        Expr::Reference(r) => {
            let x = &r.expr;
            return if r.mutability.is_some() { parse_quote!(#x.vx_it_mut()) } else { parse_quote!(#x.vx_it()) };
        }
        Expr::MethodCall(m) if m.args.is_empty() => {
            let x = &m.receiver;
            match &*m.method.to_string() {
                "iter" => return parse_quote!(#x.vx_it()),
                "iter_mut" => return parse_quote!(#x.vx_it_mut()),
                "into_iter" => return parse_quote!(#x.vx_into_it()),
                "keys" => return parse_quote!(#x.vx_keys()),
                "values" => return parse_quote!(#x.vx_values()),
                _ => {}
            }
        }
        // a slice or an array literal
        Expr::Array(_) => return parse_quote!(vx_array_it(&#e)),
        Expr::Path(_) | Expr::Field(_) | Expr::Block(_) | Expr::Match(_) => return parse_quote!(#e.vx_into_it()),
        _ => {}
    }
    e.clone()
}

/// `break`/`continue` that would leave the loop the body belongs to
pub fn uses_jump(b: &Block) -> bool {
    struct V(bool, usize);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Break(x) if self.1 == 0 || x.label.is_some() => self.0 = true,
                Expr::Continue(x) if self.1 == 0 || x.label.is_some() => self.0 = true,
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                    self.1 += 1;
                    syn::visit::visit_expr(self, e);
                    self.1 -= 1;
                    return;
                }
                _ => {}
            }
            syn::visit::visit_expr(self, e)
        }
    }
    let mut v = V(false, 0);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

#[allow(unused)]
fn unused() {
    let _ = quote!();
}
