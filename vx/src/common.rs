use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use std::{fs, path::Path};
use syn::{
    parse_quote, parse_quote_spanned,
    visit_mut::{self, VisitMut},
    Block, Expr, ImplItem, Item, ItemFn, Pat, Stmt,
};

pub type R<T> = Result<T, String>;

pub fn parse_file(p: &Path) -> R<syn::File> {
    let s = fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?;
    let mut f = syn::parse_file(&s).map_err(|e| format!("{}: {}", p.display(), e))?;
    if p.parent().map_or(true, |d| !d.ends_with("ir")) && !p.ends_with("ir.rs") {
        crate::inline::file(&mut f);
    }
    Matches.visit_file_mut(&mut f);
    from_to_into(&mut f);
    file_consts(&mut f);
    Ok(f)
}

/// `const N: u8 = 13;` outside of functions: `N` -> `13u8`
fn file_consts(f: &mut syn::File) {
    struct C(BTreeMap<String, Expr>);
    impl VisitMut for C {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = &*e {
                if let Some(v) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                    *e = v.clone();
                }
            }
            visit_mut::visit_expr_mut(self, e)
        }
    }
    let mut c = C(BTreeMap::new());
    for i in &f.items {
        if let Item::Const(k) = i {
            if let (Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }), syn::Type::Path(t)) = (&*k.expr, &*k.ty) {
                let t = quote!(#t).to_string();
                let v = if n.suffix().is_empty() { format!("{}{}", n, t) } else { n.to_string() };
                if let Ok(v) = syn::parse_str::<Expr>(&v) {
                    c.0.insert(k.ident.to_string(), v);
                }
            }
        }
    }
    if !c.0.is_empty() {
        c.visit_file_mut(f);
    }
}

/// `impl From<A> for B { fn from(x: A) -> B {..} }` -> `impl Into<B> for A { fn into(self) -> B { let x = self; .. } }`
fn from_to_into(f: &mut syn::File) {
    for i in f.items.iter_mut() {
        let Item::Impl(im) = i else { continue };
        let Some((_, tr, _)) = &im.trait_ else { continue };
        let Some(seg) = tr.segments.last() else { continue };
        if seg.ident != "From" || !im.generics.params.is_empty() || im.items.len() != 1 {
            continue;
        }
        let syn::PathArguments::AngleBracketed(a) = &seg.arguments else { continue };
        let Some(syn::GenericArgument::Type(a)) = a.args.first() else { continue };
        let b = &im.self_ty;
        let ImplItem::Fn(m) = &im.items[0] else { continue };
        let Some(syn::FnArg::Typed(x)) = m.sig.inputs.first() else { continue };
        let (x, body) = (&x.pat, &m.block);
        // `Self` is the other type inside the new impl
        let q = quote!(#body).to_string().replace("Self", &quote!(#b).to_string());
        let Ok(body) = syn::parse_str::<Block>(&q) else { continue };
        let stmts = &body.stmts;
        *im = parse_quote!(impl Into<#b> for #a { fn into(self) -> #b { let #x = self; #(#stmts)* } });
    }
}

/// `matches!(x, p if g)` -> `match x { p if g => true, _ => false }`
struct Matches;
impl VisitMut for Matches {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = &*e {
            if m.mac.path.is_ident("matches") {
                let ts: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
                if let Some(k) = ts.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')) {
                    let x: TokenStream = ts[..k].iter().cloned().collect();
                    let mut arm: Vec<_> = ts[k + 1..].to_vec();
                    if matches!(arm.last(), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == ',') {
                        arm.pop();
                    }
                    let arm: TokenStream = arm.into_iter().collect();
                    if let Ok(n) = syn::parse2::<Expr>(quote!(match #x { #arm => true, _ => false })) {
                        *e = n;
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        // `match x { p if g => a, _ => b }` -> `match x { p => if g { a } else { b }, _ => b }`, where g indexes (the
        // verifier loses the result of an overloaded operator in a guard)
        if let Expr::Match(m) = e {
            let n = m.arms.len();
            if n >= 2 && matches!(m.arms[n - 1].pat, Pat::Wild(_)) && m.arms[n - 1].guard.is_none() {
                let b = (*m.arms[n - 1].body).clone();
                let a = &mut m.arms[n - 2];
                let mut names = vec![];
                syn::visit::Visit::visit_pat(&mut Names(&mut names), &a.pat);
                let text = quote!(#b).to_string();
                let clash = text.contains("loop") || text.contains("while") || text.contains("for") || names.iter().any(|x| text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == x));
                if !clash {
                    if let Some((_, g)) = &a.guard {
                        let mut ix = HasIndex(false);
                        syn::visit::Visit::visit_expr(&mut ix, g);
                        if ix.0 {
                            let y = a.body.clone();
                            let g = g.clone();
                            a.body = Box::new(syn::parse_quote!({ if #g { #y } else { #b } }));
                            a.guard = None;
                        }
                    }
                }
            }
        }
    }
}

struct HasIndex(bool);
impl<'a> syn::visit::Visit<'a> for HasIndex {
    fn visit_expr_index(&mut self, _: &'a syn::ExprIndex) {
        self.0 = true
    }
}
struct Names<'b>(&'b mut Vec<String>);
impl<'a, 'b> syn::visit::Visit<'a> for Names<'b> {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p)
    }
}

pub struct Piece {
    pub name: String,
    pub sig: String, // text up to (not including) the body; the spec is inserted after it
    pub body: Option<String>,
}

#[derive(Default)]
pub struct Out {
    pub pieces: Vec<Piece>,
    pub dropped: Vec<String>,
    pub facts: BTreeMap<String, String>,
}

impl Out {
    pub fn push_fn(&mut self, name: &str, sig: TokenStream, body: &Block) {
        self.pieces.push(Piece {
            name: name.into(),
            sig: sig.to_string(),
            body: Some(pretty_block(body)),
        })
    }
    pub fn push_raw(&mut self, name: &str, text: String) {
        self.pieces.push(Piece {
            name: name.into(),
            sig: text,
            body: None,
        })
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        for p in &self.pieces {
            s += &format!("//@@piece {}\n//@@sig\n{}\n", p.name, p.sig);
            if let Some(b) = &p.body {
                s += "//@@body\n";
                s += b;
                s += "\n";
            }
            s += "//@@end\n";
        }
        for d in &self.dropped {
            s += &format!("//@@dropped {}\n", d.replace('\n', " "));
        }
        for (k, v) in &self.facts {
            s += &format!("//@@fact {} {}\n", k, v.replace('\n', " "));
        }
        s
    }
}

/// token stream -> text, one statement per line (so that verifier spans are useful)
pub fn pretty_block(b: &Block) -> String {
    pretty(b.to_token_stream())
}

pub fn pretty(ts: TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String, ind: usize, in_braces: bool) {
        use proc_macro2::{Delimiter, Spacing, TokenTree};
        let mut it = ts.into_iter().peekable();
        let mut joint = false;
        while let Some(t) = it.next() {
            match t {
                TokenTree::Group(g) => {
                    joint = false;
                    match g.delimiter() {
                        Delimiter::Brace => {
                            out.push_str(" {\n");
                            out.push_str(&"  ".repeat(ind + 1));
                            go(g.stream(), out, ind + 1, true);
                            while out.ends_with(' ') || out.ends_with('\n') {
                                out.pop();
                            }
                            out.push('\n');
                            out.push_str(&"  ".repeat(ind));
                            out.push('}');
                            // newline after a block unless followed by else / . / ? / , / ; / )
                            let nl = match it.peek() {
                                Some(TokenTree::Ident(i)) => i != "else" && i != "as",
                                Some(TokenTree::Punct(_)) => false,
                                _ => true,
                            };
                            if nl && in_braces {
                                out.push('\n');
                                out.push_str(&"  ".repeat(ind));
                            } else {
                                out.push(' ');
                            }
                        }
                        d => {
                            let (o, c) = match d {
                                Delimiter::Parenthesis => ('(', ')'),
                                Delimiter::Bracket => ('[', ']'),
                                _ => (' ', ' '),
                            };
                            out.push(o);
                            go(g.stream(), out, ind, false);
                            while out.ends_with(' ') {
                                out.pop();
                            }
                            out.push(c);
                            out.push(' ');
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    if !joint && matches!(p.as_char(), ';' | ',' | '.' | '?') {
                        while out.ends_with(' ') {
                            out.pop();
                        }
                    }
                    out.push(p.as_char());
                    joint = p.spacing() == Spacing::Joint;
                    if !joint {
                        if (p.as_char() == ';' || p.as_char() == ',') && in_braces {
                            out.push('\n');
                            out.push_str(&"  ".repeat(ind));
                        } else if p.as_char() != '\'' {
                            out.push(' ');
                        }
                    }
                }
                TokenTree::Ident(i) => {
                    joint = false;
                    out.push_str(&i.to_string());
                    out.push(' ');
                }
                TokenTree::Literal(l) => {
                    joint = false;
                    out.push_str(&l.to_string());
                    out.push(' ');
                }
            }
        }
    }
    let mut s = String::new();
    go(ts, &mut s, 0, true);
    s.trim().to_string()
}

pub fn text<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn find_fn(f: &syn::File, name: &str) -> R<ItemFn> {
    for i in &f.items {
        if let Item::Fn(x) = i {
            if x.sig.ident == name {
                return Ok(x.clone());
            }
        }
    }
    Err(format!("lost anchor: fn {}", name))
}

#[allow(unused)]
pub fn find_method(f: &syn::File, ty: &str, tr: Option<&str>, name: &str) -> R<syn::ImplItemFn> {
    for i in &f.items {
        if let Item::Impl(im) = i {
            let st = text(&im.self_ty).replace(' ', "");
            if !st.starts_with(ty) {
                continue;
            }
            let t = im.trait_.as_ref().map(|t| text(&t.1).replace(' ', ""));
            if t.as_deref() != tr {
                continue;
            }
            for it in &im.items {
                if let ImplItem::Fn(m) = it {
                    if m.sig.ident == name {
                        return Ok(m.clone());
                    }
                }
            }
        }
    }
    Err(format!("lost anchor: impl {:?} for {}::{}", tr, ty, name))
}

pub fn find_item<'a>(f: &'a syn::File, kind: &str, name: &str) -> R<Item> {
    for i in &f.items {
        match i {
            Item::Enum(e) if kind == "enum" && e.ident == name => return Ok(i.clone()),
            Item::Struct(e) if kind == "struct" && e.ident == name => return Ok(i.clone()),
            Item::Const(e) if kind == "const" && e.ident == name => return Ok(i.clone()),
            _ => {}
        }
    }
    Err(format!("lost anchor: {} {}", kind, name))
}

/// generic lowering applied to every extracted body
pub struct Lower {
    pub unit: String,
    pub loops: usize,
    pub dropped: Vec<String>,
    /// unit specific rewrite of an expression (called bottom-up)
    pub rewrite: Box<dyn FnMut(&mut Expr, &mut Vec<String>)>,
    pub stmt_rewrite: Box<dyn FnMut(&mut Stmt) -> Option<Vec<Stmt>>>,
}

impl Lower {
    pub fn new(unit: &str) -> Self {
        Lower {
            unit: unit.into(),
            loops: 0,
            dropped: vec![],
            rewrite: Box::new(|_, _| {}),
            stmt_rewrite: Box::new(|_| None),
        }
    }

    fn mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || {
            m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default()
        };
        match &*name {
            "warn" | "error" | "info" | "debug" | "trace" | "eprintln" | "eprint" => {
                self.dropped.push(format!("diagnostic {}!({})", name, m.tokens));
                Some(parse_quote!(()))
            }
            "panic" | "bug" | "unreachable" | "todo" | "unimplemented" => {
                Some(parse_quote!(vx_panic()))
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let f = quote::format_ident!("{}", if name.starts_with("debug") { "vx_debug_assert" } else { "vx_assert" });
                let a = args();
                let x = a.first()?;
                if name.ends_with("_eq") {
                    let y = a.get(1)?;
                    Some(parse_quote!(#f((#x) == (#y))))
                } else if name.ends_with("_ne") {
                    let y = a.get(1)?;
                    Some(parse_quote!(#f((#x) != (#y))))
                } else {
                    Some(parse_quote!(#f(#x)))
                }
            }
            "vec" if m.tokens.is_empty() => Some(parse_quote!(Vec::new())),
            _ => None,
        }
    }

    fn mark(&mut self, body: &mut Block) {
        let id = format!("{}.{}", self.unit, self.loops);
        self.loops += 1;
        body.stmts.insert(0, parse_quote!(__vx_inv!(#id);));
        let end = format!("{}.end", id);
        let top = format!("{}.top", id);
        body.stmts.insert(1, parse_quote!(__vx_proof!(#top);));
        // only when control can fall off the end without a value
        if !matches!(body.stmts.last(), Some(Stmt::Expr(e, None)) if !is_unit_like(e)) {
            body.stmts.push(parse_quote!(__vx_proof!(#end);));
        }
    }
}

pub fn is_unit_like(e: &Expr) -> bool {
    matches!(
        e,
        Expr::If(_) | Expr::Match(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Block(_)
    )
}

fn lit_val(e: &Expr) -> Option<u128> {
    match e {
        Expr::Lit(syn::ExprLit {
            lit: syn::Lit::Int(i),
            ..
        }) if i.suffix().is_empty() => i.base10_parse().ok(),
        Expr::Paren(p) => lit_val(&p.expr),
        _ => None,
    }
}

/// `_`-prefixed closure-less constant folding of unsuffixed integer literals (`1 << 5` -> `32`)
fn fold(e: &Expr) -> Option<Expr> {
    if let Expr::Binary(b) = e {
        let (l, r) = (lit_val(&b.left)?, lit_val(&b.right)?);
        let v = match b.op {
            syn::BinOp::Shl(_) => l.checked_shl(r as u32)?,
            _ => return None,
        };
        let li = proc_macro2::Literal::u128_unsuffixed(v);
        return Some(parse_quote!(#li));
    }
    None
}

impl VisitMut for Lower {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // macro statements
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &s {
                Stmt::Item(Item::Macro(m)) => {
                    self.dropped.push(format!(
                        "local macro {}",
                        m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()
                    ));
                    continue;
                }
                Stmt::Macro(m) => {
                    let semi = m.semi_token;
                    if let Some(e) = self.mac(&m.mac.clone()) {
                        if let Expr::Tuple(_) = e {
                            continue;
                        }
                        s = if semi.is_some() {
                            parse_quote!(#e;)
                        } else {
                            Stmt::Expr(e, None)
                        };
                    }
                }
                _ => {}
            }
            if let Some(v) = (self.stmt_rewrite)(&mut s) {
                out.extend(v);
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let id = match &s {
                Stmt::Expr(e, _) => loop_id(e),
                _ => None,
            };
            let last_value = false;
            if let Some(id) = &id {
                let before = format!("{}.before", id);
                out.push(parse_quote!(__vx_proof!(#before);));
            }
            out.push(s);
            if let (Some(id), false) = (id, last_value) {
                let after = format!("{}.after", id);
                out.push(parse_quote!(__vx_proof!(#after);));
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre: macros, while-let
        match e {
            Expr::Macro(m) => {
                if let Some(n) = self.mac(&m.mac.clone()) {
                    *e = n;
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, body) = (&l.pat, &l.expr, &w.body);
                    let label = &w.label;
                    *e = parse_quote!(#label loop { match #x { #p => #body, _ => break, } });
                }
            }
            _ => {}
        }
        match e {
            Expr::While(w) => {
                self.mark(&mut w.body);
            }
            Expr::Loop(w) => {
                self.mark(&mut w.body);
            }
            Expr::ForLoop(w) => {
                if let Pat::Wild(_) = &*w.pat {
                    let id = quote::format_ident!("vx_n");
                    w.pat = Box::new(parse_quote!(#id));
                }
                self.mark(&mut w.body);
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = fold(e) {
            *e = n;
        }
        let mut d = std::mem::take(&mut self.dropped);
        (self.rewrite)(e, &mut d);
        self.dropped = d;
    }

    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}
}

fn loop_id(e: &Expr) -> Option<String> {
    let body = match e {
        Expr::While(w) => &w.body,
        Expr::Loop(w) => &w.body,
        Expr::ForLoop(w) => &w.body,
        _ => return None,
    };
    match body.stmts.first()? {
        Stmt::Macro(m) if m.mac.path.is_ident("__vx_inv") => {
            let l: syn::LitStr = m.mac.parse_body().ok()?;
            Some(l.value())
        }
        _ => None,
    }
}

/// set of (free) function / method names called in a block, for the structure report
pub fn called(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.push(text(p).replace(' ', ""));
            }
            syn::visit::visit_expr_call(self, c)
        }
        fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
            self.0.push(format!(".{}", c.method));
            syn::visit::visit_expr_method_call(self, c)
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0.sort();
    v.0.dedup();
    v.0
}

pub fn pat_ident(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

#[allow(unused)]
pub fn q(ts: TokenStream) -> Expr {
    parse_quote_spanned!(proc_macro2::Span::call_site()=> #ts)
}

#[allow(unused)]
pub fn strip_attrs(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e)
        }
    }
    V.visit_block_mut(b)
}

#[allow(unused)]
pub fn sig_tokens(sig: &syn::Signature) -> TokenStream {
    // name the return value `ret`
    let mut s = sig.clone();
    let out = s.output.clone();
    s.output = syn::ReturnType::Default;
    match out {
        syn::ReturnType::Default => quote!(#s),
        syn::ReturnType::Type(_, t) => quote!(#s -> (ret: #t)),
    }
}
