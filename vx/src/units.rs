use crate::common::*;
use quote::quote;
use std::collections::BTreeMap;
use std::path::Path;
use syn::{parse_quote, visit_mut::VisitMut, Expr, Item};

pub fn run(src: &Path, unit: &str) -> R<Out> {
    match unit {
        "thumb" => thumb(src),
        "lattice" => lattice(src),
        "maxstack" => maxstack(src),
        "sig" => sig(src),
        "names" => names(src),
        "filter" => filter(src),
        "output" => output(src),
        "edges" => edges(src),
        "fict" => fict(src),
        "nodes" => nodes(src),
        "code" => code(src),
        "wrapper" => wrapper(src),
        "inputs" => inputs(src),
        "parser" => parser(src),
        _ => Err(format!("unknown unit {}", unit)),
    }
}

fn str_lit(e: &Expr) -> Option<String> {
    if let Expr::Lit(syn::ExprLit {
        lit: syn::Lit::Str(s),
        ..
    }) = e
    {
        Some(s.value())
    } else {
        None
    }
}

/// is this a diverging expression (`|| panic!(..)`), after macro lowering?
fn is_panic(e: &Expr) -> bool {
    match e {
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, _) => is_panic(e),
            _ => false,
        },
        _ => text(e).replace(' ', "") == "vx_panic()",
    }
}

pub fn common_rewrite(e: &mut Expr) {
    let mut new = None;
    if let Expr::Call(c) = &*e {
        // lossless integer conversions
        let f = text(&c.func).replace(' ', "");
        if c.args.len() == 1 {
            let a = &c.args[0];
            new = match &*f {
                "u16::from" => Some(parse_quote!(((#a) as u16))),
                "u32::from" => Some(parse_quote!(((#a) as u32))),
                "u64::from" => Some(parse_quote!(((#a) as u64))),
                "i32::from" => Some(parse_quote!(((#a) as i32))),
                "i64::from" => Some(parse_quote!(((#a) as i64))),
                _ => None,
            };
        }
    }
    if let Expr::Call(c) = &*e {
        let f = text(&c.func).replace(' ', "");
        if c.args.len() == 2 {
            let (a, b) = (&c.args[0], &c.args[1]);
            new = match &*f {
                "cmp::max" | "core::cmp::max" | "std::cmp::max" | "Ord::max" | "u64::max" => Some(parse_quote!(vx_cmp_max(#a, #b))),
                "cmp::min" | "core::cmp::min" | "std::cmp::min" | "Ord::min" | "u64::min" => Some(parse_quote!(vx_cmp_min(#a, #b))),
                _ => new,
            };
        }
    }
    if let Expr::MethodCall(m) = &*e {
        let name = m.method.to_string();
        if m.args.len() == 1 && (name == "max" || name == "min") {
            let (a, b) = (&m.receiver, &m.args[0]);
            new = Some(if name == "max" { parse_quote!(vx_cmp_max(#a, #b)) } else { parse_quote!(vx_cmp_min(#a, #b)) });
        }
        if name == "unwrap_or_else" && m.args.len() == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                if is_panic(&c.body) {
                    let r = &m.receiver;
                    new = Some(parse_quote!(vx_expect(#r)));
                }
            }
        }
        if (name == "expect" && m.args.len() == 1) || (name == "unwrap" && m.args.is_empty()) {
            let r = &m.receiver;
            new = Some(parse_quote!(vx_expect(#r)));
        }
    }
    if let Some(n) = new {
        *e = n;
    }
}

fn thumb(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("thumb.rs"))?;
    let mut out = Out::default();
    // ---- enum Tag
    let mut tag = find_item(&f, "enum", "Tag")?;
    if let Item::Enum(e) = &mut tag {
        e.attrs.clear();
    }
    out.push_raw(
        "Tag",
        format!("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n{}", text(&tag)),
    );

    // ---- analyze
    let mut an = find_fn(&f, "analyze")?;
    let pats = std::rc::Rc::new(std::cell::RefCell::new(BTreeMap::<String, usize>::new()));
    let pats2 = pats.clone();
    let raws = std::rc::Rc::new(std::cell::RefCell::new(std::collections::BTreeSet::<String>::new()));
    let raws2 = raws.clone();
    let mut lw = Lower::new("analyze");
    lw.rewrite = Box::new(move |e, dropped| {
        common_rewrite(e);
        let mut new: Option<Expr> = None;
        match &*e {
            Expr::Call(c) if text(&c.func) == "matches" && c.args.len() == 2 => {
                if let Some(l) = str_lit(&c.args[1]) {
                    let key = l[2.min(l.len())..].replace('_', "");
                    let n = pats2.borrow().len();
                    let k = *pats2.borrow_mut().entry(key.clone()).or_insert(n);
                    let _ = k;
                    raws2.borrow_mut().insert(l.clone());
                    let id = quote::format_ident!("vx_pat_{}", key);
                    let a = &c.args[0];
                    new = Some(parse_quote!(#id(#a)));
                }
            }
            Expr::MethodCall(m) if m.method == "zip" => {
                if let Expr::MethodCall(c) = &*m.receiver {
                    let arg = text(&m.args[0]).replace(' ', "");
                    if c.method == "chunks_exact"
                        && text(&c.args[0]) == "2"
                        && (arg == "0i32.." || arg == "0_i32..")
                    {
                        let b = &c.receiver;
                        new = Some(parse_quote!(vx_halfwords(#b)));
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "binary_search_by" && m.args.len() == 1 => {
                if let Some(x) = search_first(m) {
                    let t = &m.receiver;
                    new = Some(parse_quote!(vx_bsearch(#t, #x)));
                }
            }
            Expr::MethodCall(m) if m.method == "binary_search_by_key" && m.args.len() == 2 => {
                if let Some(x) = search_key(m) {
                    let t = &m.receiver;
                    new = Some(parse_quote!(vx_bsearch(#t, #x)));
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
        let _ = dropped;
    });
    lw.visit_item_fn_mut(&mut an);
    let mut leaves = 0;
    struct Leaf<'a>(&'a mut usize, &'a str);
    impl<'a> Leaf<'a> {
        fn is_pat(e: &Expr) -> bool {
            matches!(e, Expr::If(i) if text(&i.cond).contains("vx_pat_"))
        }
        fn mark(&mut self, b: &mut syn::Block) {
            // a nested chain is marked arm by arm
            if let Some(syn::Stmt::Expr(e, _)) = b.stmts.last_mut() {
                if Self::is_pat(e) {
                    self.visit_expr_mut(e);
                    return;
                }
            }
            let id = format!("{}.{}", self.1, self.0);
            *self.0 += 1;
            b.stmts.insert(0, parse_quote!(__vx_leaf!(#id);));
        }
    }
    impl<'a> VisitMut for Leaf<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if Self::is_pat(e) {
                if let Expr::If(i) = e {
                    self.mark(&mut i.then_branch);
                    match i.else_branch.as_mut().map(|(_, e)| &mut **e) {
                        Some(Expr::Block(b)) => self.mark(&mut b.block),
                        Some(e) => self.visit_expr_mut(e),
                        None => {}
                    }
                }
                return;
            }
            syn::visit_mut::visit_expr_mut(self, e)
        }
    }
    Leaf(&mut leaves, "analyze").visit_item_fn_mut(&mut an);
    out.facts.insert("leaves.analyze".into(), leaves.to_string());
    out.facts.insert("loops.analyze".into(), lw.loops.to_string());
    out.facts.insert("calls.analyze".into(), called(&an.block).into_iter().filter(|c| !c.starts_with("vx_pat_")).collect::<Vec<_>>().join(" "));
    out.dropped.extend(lw.dropped);
    let s = sig_tokens(&an.sig);
    out.push_fn("analyze", s, &an.block);

    // one contract per distinct pattern literal
    let mut ptxt = String::new();
    for key in pats.borrow().keys() {
        if key.len() != 16 || !key.chars().all(|c| matches!(c, '0' | '1' | 'x')) {
            return Err(format!("pattern literal {:?} is not 16 characters of 0/1/x", key));
        }
        let mut conj = vec![];
        for (n, c) in key.chars().enumerate() {
            let bit = 15 - n;
            match c {
                '1' => conj.push(format!("hb(b@, {})", bit)),
                '0' => conj.push(format!("!hb(b@, {})", bit)),
                _ => {}
            }
        }
        if conj.is_empty() {
            conj.push("true".into());
        }
        ptxt += &format!(
            "#[verifier::external_body]\nfn vx_pat_{key}(b: &[u8]) -> (r: bool)\n    requires b@.len() == 2,\n    ensures r == ({})\n{{ unimplemented!() }}\n",
            conj.join(" && ")
        );
    }
    out.push_raw("patterns", ptxt);
    out.facts.insert(
        "patterns".into(),
        pats.borrow().keys().cloned().collect::<Vec<_>>().join(" "),
    );

    out.facts.insert("literals".into(), raws.borrow().iter().cloned().collect::<Vec<_>>().join(" "));
    let mut chains = crate::orchain::Chains::default();
    syn::visit::Visit::visit_block(&mut chains, &an.block);

    // ---- helpers
    for name in ["sign_extend", "thumb_expand_imm"] {
        let mut h = find_fn(&f, name)?;
        let mut lw = Lower::new(name);
        lw.rewrite = Box::new(|e, _| common_rewrite(e));
        lw.visit_item_fn_mut(&mut h);
        out.facts.insert(format!("loops.{}", name), lw.loops.to_string());
        out.facts.insert(format!("calls.{}", name), called(&h.block).join(" "));
        out.dropped.extend(lw.dropped);
        let s = sig_tokens(&h.sig);
        out.push_fn(name, s, &h.block);
    }
    out.push_raw("orchains", chains.render(true));
    let _ = quote!();
    Ok(out)
}

// ------------------------------------------------------------------------------------------------

/// remove lifetimes from a type
struct NoLife;
impl VisitMut for NoLife {
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        t.lifetime = None;
        syn::visit_mut::visit_type_reference_mut(self, t)
    }
}

/// lower a body: iterators, then the generic rewrites
fn lower(out: &mut Out, name: &str, b: &mut syn::Block, opts: &[&str], mut rw: Box<dyn FnMut(&mut Expr)>) {
    let mut il = crate::iterlow::IterLow::default();
    il.option_methods = ["next", "first", "last", "get", "pop", "strip_prefix", "vx_get_from"].iter().chain(opts).map(|s| s.to_string()).collect();
    il.visit_block_mut(b);
    let mut lw = Lower::new(name);
    lw.rewrite = Box::new(move |e, _| {
        common_rewrite(e);
        rw(e);
    });
    lw.visit_block_mut(b);
    out.facts.insert(format!("loops.{}", name), lw.loops.to_string());
    out.facts.insert(format!("calls.{}", name), called(b).join(" "));
    out.dropped.extend(lw.dropped);
}

/// enum / struct without attributes, with the given derives
fn item_piece(out: &mut Out, f: &syn::File, kind: &str, name: &str, derive: &str) -> R<()> {
    let mut it = find_item(f, kind, name)?;
    match &mut it {
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.ty = field_type(&f.ty);
                }
            }
        }
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            if name == "Node" {
                s.generics = Default::default();
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
                f.ty = if name == "Node" || name == "Indirect" { vx_type(&f.ty) } else { field_type(&f.ty) };
            }
        }
        _ => {}
    }
    out.push_raw(name, format!("{}\n{}", derive, text(&it)));
    Ok(())
}

pub use crate::strlow::vx_type;

/// field types: as vx_type, but borrows keep their lifetimes
fn field_type(t: &syn::Type) -> syn::Type {
    struct F;
    impl VisitMut for F {
        fn visit_type_mut(&mut self, t: &mut syn::Type) {
            let s = text(&*t).replace(' ', "");
            match &*s {
                "Cow<'a,str>" | "str" | "String" | "Cow<str>" => *t = parse_quote!(VxStr),
                _ => syn::visit_mut::visit_type_mut(self, t),
            }
        }
    }
    let mut t = t.clone();
    F.visit_type_mut(&mut t);
    t
}

/// `impl Iterator<Item = T>` -> `VxIter<T>`
fn iter_param(sig: &mut syn::Signature) {
    for a in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Type::ImplTrait(i) = &*t.ty {
                let s = text(&i.bounds).replace(' ', "");
                if let Some(x) = s.strip_prefix("Iterator<Item=").and_then(|s| s.strip_suffix('>')) {
                    if let Ok(ty) = syn::parse_str::<syn::Type>(x) {
                        t.ty = parse_quote!(VxIter<#ty>);
                    }
                }
            }
        }
    }
}

fn push_lowered_fn(out: &mut Out, f: &syn::File, name: &str) -> R<()> {
    let mut h = find_fn(f, name)?;
    h.sig.generics = if text(&h.sig.generics.params).trim().is_empty() { h.sig.generics } else { h.sig.generics };
    iter_param(&mut h.sig);
    lower(out, name, &mut h.block, &[], Box::new(|_| {}));
    let s = sig_tokens(&h.sig);
    out.push_fn(name, s, &h.block);
    Ok(())
}

/// a method of a trait impl, emitted whole as an impl of the same trait
fn push_impl(out: &mut Out, f: &syn::File, piece: &str, ty: &str, tr: &str, name: &str) -> R<()> {
    for i in &f.items {
        if let Item::Impl(im) = i {
            let st = text(&im.self_ty).replace(' ', "");
            let t = im.trait_.as_ref().map(|t| text(&t.1).replace(' ', ""));
            if st == ty && t.as_deref() == Some(tr) {
                let mut im = im.clone();
                im.attrs.clear();
                for it in im.items.iter_mut() {
                    if let syn::ImplItem::Fn(m) = it {
                        lower(out, &format!("{}.{}", piece, name), &mut m.block, &[], Box::new(|_| {}));
                    }
                }
                out.push_raw(piece, pretty(quote!(#im)));
                return Ok(());
            }
        }
    }
    Err(format!("lost anchor: impl {} for {}", tr, ty))
}

fn lattice_pieces(out: &mut Out, f: &syn::File) -> R<()> {
    item_piece(out, f, "enum", "Local", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(out, f, "enum", "Max", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    push_impl(out, f, "impl_into", "Local", "Into<Max>", "into")?;
    push_impl(out, f, "impl_add_local", "Max", "ops::Add<Local>", "add")?;
    push_impl(out, f, "impl_add_max", "Max", "ops::Add<Max>", "add")?;
    Ok(())
}

fn lattice(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let mut out = Out::default();
    lattice_pieces(&mut out, &f)?;
    push_lowered_fn(&mut out, &f, "max")?;
    push_lowered_fn(&mut out, &f, "max_of")?;
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// blocks of `run`

/// top-level statements of `run`
fn run_stmts(f: &syn::File) -> R<Vec<syn::Stmt>> {
    Ok(find_fn(f, "run")?.block.stmts)
}

/// index of the only statement whose text (without blanks) contains every needle
fn anchor(st: &[syn::Stmt], what: &str, needles: &[&str]) -> R<usize> {
    let hits: Vec<usize> = st
        .iter()
        .enumerate()
        .filter(|(_, s)| {
            let t = text(*s).replace(' ', "");
            needles.iter().all(|n| t.contains(n))
        })
        .map(|(i, _)| i)
        .collect();
    match hits.len() {
        1 => Ok(hits[0]),
        n => Err(format!("lost anchor: {} ({} statements of run contain {:?})", what, n, needles)),
    }
}

/// the statement `let mut NAME ..`
fn binding(st: &[syn::Stmt], name: &str) -> R<usize> {
    let hits: Vec<usize> = st
        .iter()
        .enumerate()
        .filter(|(_, s)| matches!(s, syn::Stmt::Local(l) if pat_ident(&l.pat).as_deref() == Some(name)))
        .map(|(i, _)| i)
        .collect();
    match hits.len() {
        1 => Ok(hits[0]),
        n => Err(format!("lost anchor: {} bindings of `{}` in run", n, name)),
    }
}

/// statements of run that mention the variable
fn mentions(st: &[syn::Stmt], var: &str) -> Vec<usize> {
    use proc_macro2::{TokenStream, TokenTree};
    fn has(ts: TokenStream, var: &str) -> bool {
        ts.into_iter().any(|t| match t {
            TokenTree::Group(g) => has(g.stream(), var),
            TokenTree::Ident(i) => i == var,
            _ => false,
        })
    }
    st.iter().enumerate().filter(|(_, s)| has(quote!(#s), var)).map(|(i, _)| i).collect()
}

fn push_block(out: &mut Out, name: &str, stmts: Vec<syn::Stmt>, tail: Expr, sig: proc_macro2::TokenStream, opts: &[&str], rw: Box<dyn FnMut(&mut Expr)>) {
    let mut b: syn::Block = parse_quote!({ #(#stmts)* });
    b.stmts.push(syn::Stmt::Expr(tail, None));
    lower(out, name, &mut b, opts, rw);
    out.push_fn(name, sig, &b);
}

fn maxstack(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let mut out = Out::default();
    lattice_pieces(&mut out, &f)?;
    item_piece(&mut out, &f, "struct", "Node", "")?;
    let st = run_stmts(&f)?;
    let a = binding(&st, "cycles")?;
    let b = anchor(&st, "max stack analysis", &["kosaraju_scc"])?;
    if !(a < b && b - a <= 3) {
        return Err("lost anchor: the maximum stack analysis is not one block".into());
    }
    push_block(
        &mut out,
        "block_maxstack",
        st[a..=b].to_vec(),
        parse_quote!((g, cycles)),
        quote!(fn block_maxstack(mut g: DiGraph<Node, ()>, has_stack_usage_info: bool) -> (ret: (DiGraph<Node, ()>, Vec<Vec<NodeIndex>>))),
        &[],
        Box::new(|_| {}),
    );
    Ok(out)
}

/// signature: contract types, no lifetimes
fn vx_sig(sig: &syn::Signature) -> syn::Signature {
    let mut s = sig.clone();
    for a in s.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            t.ty = Box::new(vx_type(&t.ty));
        }
    }
    if let syn::ReturnType::Type(_, t) = &mut s.output {
        **t = vx_type(t);
    }
    s.generics = Default::default();
    s
}

/// strings, then iterators, then the rest
fn lower_str(out: &mut Out, name: &str, b: &mut syn::Block, opts: &[&str], rw: Box<dyn FnMut(&mut Expr)>) -> R<()> {
    let mut sl = crate::strlow::StrLow::default();
    sl.visit_block_mut(b);
    if let Some(e) = sl.err {
        return Err(format!("{}: {}", name, e));
    }
    lower(out, name, b, opts, rw);
    Ok(())
}

/// does the type still derive its equality?
fn derives_eq(f: &syn::File, kind: &str, name: &str) -> R<()> {
    derives(f, kind, name, "PartialEq")
}

fn derives(f: &syn::File, kind: &str, name: &str, what: &str) -> R<()> {
    let it = find_item(f, kind, name)?;
    let attrs = match &it {
        Item::Enum(e) => &e.attrs,
        Item::Struct(e) => &e.attrs,
        _ => return Err("derives_eq".into()),
    };
    let t: String = attrs.iter().map(|a| text(a)).collect();
    if t.contains(what) {
        Ok(())
    } else {
        Err(format!("lost anchor: {} {} no longer derives {}", kind, name, what))
    }
}

fn sig(src: &Path) -> R<Out> {
    let ir = parse_file(&src.join("ir.rs"))?;
    let ty = parse_file(&src.join("ir/ty.rs"))?;
    let mut out = Out::default();
    derives_eq(&ty, "enum", "Type")?;
    derives_eq(&ir, "struct", "FnSig")?;
    item_piece(&mut out, &ty, "enum", "Type", "")?;
    item_piece(&mut out, &ir, "struct", "FnSig", "")?;
    let eqs = || {
        Box::new(|e: &mut Expr| {
            let mut new: Option<Expr> = None;
            match &*e {
                Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_)) => {
                    let (l, r) = (&b.left, &b.right);
                    new = Some(parse_quote!(vx_same(#l, #r)));
                }
                Expr::Call(c) if text(&c.func).replace(' ', "").ends_with("mem::discriminant") => {
                    let a = &c.args[0];
                    new = Some(parse_quote!(vx_discriminant(#a)));
                }
                _ => {}
            }
            if let Some(n) = new {
                *e = n;
            }
        }) as Box<dyn FnMut(&mut Expr)>
    };
    for (f, t, tr, name, piece) in [
        (&ty, "Type", None, "loosely_equal", "Type_loosely_equal"),
        (&ir, "FnSig", None, "loosely_equal", "FnSig_loosely_equal"),
        (&ty, "Type", Some("fmt::Display"), "fmt", "Type_fmt"),
        (&ir, "FnSig", Some("fmt::Display"), "fmt", "FnSig_fmt"),
    ] {
        let mut m = find_method(f, t, tr, name)?;
        lower_str(&mut out, piece, &mut m.block, &[], if tr.is_none() { eqs() } else { Box::new(|_| {}) })?;
        let mut s = vx_sig(&m.sig);
        if tr.is_some() {
            s.ident = quote::format_ident!("vx_fmt");
        }
        let st = sig_tokens(&s);
        out.push_fn(piece, quote!(pub #st), &m.block);
    }
    // helpers of the printers (whatever free functions take a formatter)
    let mut helpers = vec![];
    for f in [&ty, &ir] {
        for i in &f.items {
            if let Item::Fn(h) = i {
                if text(&h.sig).contains("Formatter") {
                    let mut h = h.clone();
                    let name = h.sig.ident.to_string();
                    lower_str(&mut out, &name, &mut h.block, &[], Box::new(|_| {}))?;
                    let s = sig_tokens(&vx_sig(&h.sig));
                    out.push_fn(&name, quote!(#s), &h.block);
                    helpers.push(name);
                }
            }
        }
    }
    out.facts.insert("calls.helpers".into(), helpers.join(" "));
    Ok(out)
}

fn push_str_block(out: &mut Out, name: &str, stmts: Vec<syn::Stmt>, tail: Expr, sig: proc_macro2::TokenStream, opts: &[&str], rw: Box<dyn FnMut(&mut Expr)>) -> R<()> {
    let mut b: syn::Block = parse_quote!({ #(#stmts)* });
    b.stmts.push(syn::Stmt::Expr(tail, None));
    lower_str(out, name, &mut b, opts, rw)?;
    out.push_fn(name, sig, &b);
    Ok(())
}

/// a free function over strings
fn push_str_fn(out: &mut Out, f: &syn::File, name: &str) -> R<()> {
    let mut h = find_fn(f, name)?;
    lower_str(out, name, &mut h.block, &[], Box::new(|_| {}))?;
    let s = sig_tokens(&vx_sig(&h.sig));
    out.push_fn(name, quote!(#s), &h.block);
    Ok(())
}

/// C13: dehash, the count of equal paths, the shortening of names
fn names(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let mut out = Out::default();
    item_piece(&mut out, &f, "enum", "Local", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(&mut out, &f, "enum", "Max", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(&mut out, &f, "struct", "Node", "")?;
    push_str_fn(&mut out, &f, "dehash")?;
    let st = run_stmts(&f)?;
    // the counts are made once, from every node, before the graph is filtered, and read once, after
    let used = mentions(&st, "ambiguous");
    let b = binding(&st, "ambiguous")?;
    let fl = anchor(&st, "the start point filter", &["args.start", "Dfs"])?;
    if used.len() != 3 || used[0] != b || used[1] > fl || used[2] < fl {
        return Err("lost anchor: the uses of `ambiguous` in run".into());
    }
    let (c, s) = (used[1], used[2]);
    push_str_block(
        &mut out,
        "block_count",
        vec![st[b].clone(), st[c].clone()],
        parse_quote!(ambiguous),
        quote!(fn block_count(g: &DiGraph<Node, ()>) -> (ret: VxMap<VxStr, u32>)),
        &[],
        Box::new(|_| {}),
    )?;
    push_str_block(
        &mut out,
        "block_shorten",
        vec![st[s].clone()],
        parse_quote!(g),
        quote!(fn block_shorten(mut g: DiGraph<Node, ()>, ambiguous: VxMap<VxStr, u32>) -> (ret: DiGraph<Node, ()>)),
        &[],
        Box::new(|_| {}),
    )?;
    Ok(out)
}

/// C08: the start point filter
fn filter(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let mut out = Out::default();
    item_piece(&mut out, &f, "enum", "Local", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(&mut out, &f, "enum", "Max", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(&mut out, &f, "struct", "Node", "")?;
    derives(&f, "struct", "Node", "Clone")?;
    let st = run_stmts(&f)?;
    let fl = anchor(&st, "the start point filter", &["args.start", "Dfs"])?;
    // every statement that fills the graph lies before the filter, and only reads or the maximum stack analysis and the shortening behind it
    push_str_block(
        &mut out,
        "block_filter",
        vec![st[fl].clone()],
        parse_quote!((g, indices)),
        quote!(fn block_filter(mut g: DiGraph<Node, ()>, mut indices: VxMap<VxStr, NodeIndex>, args: &Args) -> (ret: (DiGraph<Node, ()>, VxMap<VxStr, NodeIndex>))),
        &["get"],
        Box::new(|e| {
            // neighbours to be walked edge by edge
            if let Expr::MethodCall(m) = e {
                if m.method == "detach" {
                    if let Expr::MethodCall(r) = &mut *m.receiver {
                        if r.method == "neighbors" {
                            r.method = quote::format_ident!("vx_neighbors");
                        }
                    }
                }
            }
        }),
    )?;
    Ok(out)
}

/// target kinds and the test for Thumb
fn target_pieces(out: &mut Out, f: &syn::File) -> R<()> {
    item_piece(out, f, "enum", "Target", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    let mut m = find_method(f, "Target", None, "is_thumb")?;
    lower_str(out, "Target_is_thumb", &mut m.block, &[], Box::new(|_| {}))?;
    let st = sig_tokens(&vx_sig(&m.sig));
    out.push_fn("Target_is_thumb", quote!(pub #st), &m.block);
    Ok(())
}

fn node_pieces(out: &mut Out, f: &syn::File) -> R<()> {
    item_piece(out, f, "enum", "Local", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(out, f, "enum", "Max", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(out, f, "struct", "Node", "")?;
    // fn Node<S: Into<Cow<str>>>(name: S, ..)
    let mut h = find_fn(f, "Node")?;
    lower_str(
        out,
        "fn_Node",
        &mut h.block,
        &["stack"],
        Box::new(|e| {
            let mut new: Option<Expr> = None;
            if let Expr::MethodCall(m) = &*e {
                let n = m.method.to_string();
                if n == "into" && m.args.is_empty() {
                    let r = &m.receiver;
                    new = Some(parse_quote!(*#r.vx_str()));
                }
                // stack.map(Local::Exact).unwrap_or(d)
                if n == "unwrap_or" {
                    if let Expr::MethodCall(q) = &*m.receiver {
                        if q.method == "map" && q.args.len() == 1 {
                            let (o, f, d) = (&q.receiver, &q.args[0], &m.args[0]);
                            new = Some(parse_quote!(match #o { Some(vx_y) => #f(vx_y), None => #d }));
                        }
                    }
                }
            }
            if let Some(n) = new {
                *e = n;
            }
        }),
    )?;
    out.push_fn("fn_Node", quote!(fn Node<S: VxAsStr>(name: S, stack: Option<u64>, dashed: bool) -> (ret: Node)), &h.block);
    Ok(())
}

/// C11, C17, C18: the edges that come from the LLVM-IR
fn edges(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let de = parse_file(&src.join("ir/define.rs"))?;
    let mut out = Out::default();
    node_pieces(&mut out, &f)?;
    target_pieces(&mut out, &f)?;
    item_piece(&mut out, &f, "struct", "Indirect", "")?;
    derives(&f, "struct", "Indirect", "Default")?;
    item_piece(&mut out, &de, "struct", "Define", "")?;
    item_piece(&mut out, &de, "enum", "Stmt", "")?;
    let st = run_stmts(&f)?;
    let a = binding(&st, "fns_containing_asm")?;
    let b = anchor(&st, "the edges from the LLVM-IR", &["Stmt::DirectCall"])?;
    if !(a < b && b - a <= 5) {
        return Err("lost anchor: the edges from the LLVM-IR are not one block".into());
    }
    let mut stmts = st[a..=b].to_vec();
    let mut bl: syn::Block = parse_quote!({ #(#stmts)* });
    let mut pl = crate::prelow::PreLow { consts: crate::prelow::file_arrays(&f), ..Default::default() };
    pl.visit_block_mut(&mut bl);
    stmts = bl.stmts;
    let mut bl: syn::Block = parse_quote!({ #(#stmts)* });
    bl.stmts.push(syn::Stmt::Expr(parse_quote!((g, indices, indirects, edges, defined, fns_containing_asm)), None));
    lower_str(&mut out, "block_edges", &mut bl, &[], Box::new(|_| {}))?;
    crate::slices::after_ifs(&mut bl, "add_edge", "block_edges.link");
    crate::slices::leaves(&mut bl, "block_edges");
    out.push_fn(
        "block_edges",
        quote!(fn block_edges<'a>(
            mut g: DiGraph<Node, ()>,
            mut indices: VxMap<VxStr, NodeIndex>,
            mut indirects: VxMap<FnSig<'a>, Indirect>,
            aliases: &VxMap<VxStr, &'a VxStr>,
            defines: &'a VxMap<VxStr, Define<'a>>,
            symbols: &Symbols,
            has_untyped_symbols: bool,
            target_: Target
        ) -> (ret: (DiGraph<Node, ()>, VxMap<VxStr, NodeIndex>, VxMap<FnSig<'a>, Indirect>, VxMap<NodeIndex, VxSet<NodeIndex>>, VxSet<VxStr>, VxSet<VxStr>))),
        &bl,
    );
    Ok(out)
}

/// the statements that concern the given variables, and what those need
/// (what is left out mentions none of them: it can stop the tool, nothing else)
fn concerning(st: &[syn::Stmt], vars: &[&str]) -> Vec<syn::Stmt> {
    use std::collections::BTreeSet;
    let lets: BTreeSet<String> = st
        .iter()
        .filter_map(|s| match s {
            syn::Stmt::Local(l) => pat_ident(&l.pat),
            _ => None,
        })
        .collect();
    let mut need: BTreeSet<String> = vars.iter().map(|s| s.to_string()).collect();
    let mut out = vec![];
    for s in st.iter().rev() {
        let mut ids = BTreeSet::new();
        crate::prelow::idents(quote!(#s), &mut ids);
        let keep = match s {
            syn::Stmt::Local(l) => pat_ident(&l.pat).map_or(true, |n| need.contains(&n)) || vars.iter().any(|v| ids.contains(*v)),
            _ => ids.iter().any(|i| need.contains(i)),
        };
        if keep {
            need.extend(ids.intersection(&lets).cloned());
            out.push(s.clone());
        }
    }
    out.reverse();
    out
}

/// C19, C20: one node per address
fn nodes(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let ir = parse_file(&src.join("ir.rs"))?;
    let ty = parse_file(&src.join("ir/ty.rs"))?;
    let de = parse_file(&src.join("ir/define.rs"))?;
    let item = parse_file(&src.join("ir/item.rs"))?;
    let mut out = Out::default();
    node_pieces(&mut out, &f)?;
    target_pieces(&mut out, &f)?;
    item_piece(&mut out, &f, "struct", "Indirect", "")?;
    derives(&f, "struct", "Indirect", "Default")?;
    derives_eq(&ty, "enum", "Type")?;
    derives_eq(&ir, "struct", "FnSig")?;
    item_piece(&mut out, &ty, "enum", "Type", "")?;
    item_piece(&mut out, &ir, "struct", "FnSig", "")?;
    item_piece(&mut out, &de, "struct", "Define", "")?;
    item_piece(&mut out, &de, "enum", "Stmt", "")?;
    item_piece(&mut out, &item, "struct", "Declare", "")?;
    let st = run_stmts(&f)?;
    let a = binding(&st, "indirects")?;
    let b = anchor(&st, "the nodes", &["symbols.defined", ".add_node(", "addr2name.insert("])?;
    if !(a < b && b - a <= 12) {
        return Err("lost anchor: the nodes are not one block".into());
    }
    push_str_fn(&mut out, &f, "is_outlined_function")?;
    let stmts = concerning(&st[a..=b], &["indirects", "fmts", "aliases", "has_stack_usage_info", "has_untyped_symbols", "addr2name", "g", "indices"]);
    let mut bl: syn::Block = parse_quote!({ #(#stmts)* (g, indices, indirects, fmts, aliases, addr2name, has_stack_usage_info, has_untyped_symbols) });
    crate::prelow::PreLow { consts: crate::prelow::file_arrays(&f), ..Default::default() }.visit_block_mut(&mut bl);
    crate::slicepat::SlicePat.visit_block_mut(&mut bl);
    lower_str(&mut out, "block_nodes", &mut bl, &[], Box::new(|_| {}))?;
    out.push_fn(
        "block_nodes",
        quote!(fn block_nodes<'a>(
            mut g: DiGraph<Node, ()>,
            mut indices: VxMap<VxStr, NodeIndex>,
            symbols: &'a Symbols<'a>,
            stack_sizes: &VxMap<VxStr, u64>,
            defines: &'a VxMap<VxStr, Define<'a>>,
            declares: &'a VxMap<VxStr, Declare<'a>>,
            target_: Target
        ) -> (ret: (DiGraph<Node, ()>, VxMap<VxStr, NodeIndex>, VxMap<FnSig<'a>, Indirect>, VxSet<NodeIndex>, VxMap<VxStr, &'a VxStr>, VxMap<u64, &'a VxStr>, bool, bool))),
        &bl,
    );
    Ok(out)
}

/// C01, C02, C19, C17: what the machine code adds to the graph
fn code(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let th = parse_file(&src.join("thumb.rs"))?;
    let mut out = Out::default();
    node_pieces(&mut out, &f)?;
    target_pieces(&mut out, &f)?;
    item_piece(&mut out, &th, "enum", "Tag", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    let an = find_fn(&th, "analyze")?;
    let want = "(bytes:&[u8],address:u32,v7:bool,tags:&[(u32,Tag)])->(Vec<i32>,Vec<i32>,bool,bool,Option<u64>)";
    let (i, o) = (&an.sig.inputs, &an.sig.output);
    let have = text(&quote!((#i) #o)).replace(' ', "").replace(",)", ")");
    if have != want {
        return Err(format!("lost anchor: analyze{}", have));
    }
    push_str_fn(&mut out, &f, "is_outlined_function")?;
    let st = run_stmts(&f)?;
    let a = anchor(&st, "the machine code", &["thumb::analyze("])?;
    let stmts = st[a..=a].to_vec();
    let mut bl: syn::Block = parse_quote!({ #(#stmts)* Ok((g, edges)) });
    let orders = lift_orders(&mut bl)?;
    if orders.len() > 1 {
        return Err("lost anchor: several sorts".into());
    }
    for (a, b, body) in orders {
        push_order(&mut out, "code_order", quote!(fn code_order(vx_a: &(u32, Tag), vx_b: &(u32, Tag)) -> (ret: core::cmp::Ordering)), a, b, body)?;
    }
    CodeLow.visit_block_mut(&mut bl);
    crate::prelow::PreLow { consts: crate::prelow::file_arrays(&f), ..Default::default() }.visit_block_mut(&mut bl);
    lower_str(&mut out, "block_code", &mut bl, &[], Box::new(|_| {}))?;
    out.push_fn(
        "block_code",
        quote!(fn block_code<'a>(
            mut g: DiGraph<Node, ()>,
            mut edges: VxMap<NodeIndex, VxSet<NodeIndex>>,
            indices: &VxMap<VxStr, NodeIndex>,
            aliases: &VxMap<VxStr, &'a VxStr>,
            addr2name: &VxMap<u64, &'a VxStr>,
            symbols: &Symbols<'a>,
            fns_containing_asm: &VxSet<VxStr>,
            defined: &VxSet<VxStr>,
            target_: Target,
            elf: Vec<u8>
        ) -> (ret: Result<(DiGraph<Node, ()>, VxMap<NodeIndex, VxSet<NodeIndex>>), VxErr>)),
        &bl,
    );
    Ok(out)
}

/// `x as i32`, `x as u32` (which may wrap), `&s[a..b]`, `.map_err(..)?`, binary search by the first component
struct CodeLow;
impl VisitMut for CodeLow {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match &*e {
            Expr::Cast(c) => {
                let x = &c.expr;
                match &*text(&c.ty) {
                    "i32" => new = Some(parse_quote!((#x).vx_i32())),
                    "u32" => new = Some(parse_quote!((#x).vx_u32())),
                    "u64" => new = Some(parse_quote!((#x).vx_u64())),
                    _ => {}
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(syn::ExprRange { start: Some(a), end: Some(b), limits: syn::RangeLimits::HalfOpen(_), .. }) = &*i.index {
                        let x = &i.expr;
                        new = Some(parse_quote!(vx_range(#x, #a, #b)));
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "map_err" => new = Some((*m.receiver).clone()),
            Expr::MethodCall(m) if m.method == "binary_search_by_key" && m.args.len() == 2 => {
                if let Some(x) = search_key(m) {
                    let t = &m.receiver;
                    new = Some(parse_quote!(vx_bsearch(&#t, #x)));
                }
            }
            Expr::MethodCall(m) if m.method == "binary_search_by" && m.args.len() == 1 => {
                if let Some(x) = search_first(m) {
                    let t = &m.receiver;
                    new = Some(parse_quote!(vx_bsearch(&#t, #x)));
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// `tags.binary_search_by_key(&X, |tag| tag.0)`: X
fn search_key(m: &syn::ExprMethodCall) -> Option<Expr> {
    if let (Expr::Reference(x), Expr::Closure(c)) = (&m.args[0], &m.args[1]) {
        let p = c.inputs.first().map(|p| text(p).replace(' ', "")).unwrap_or_default();
        let b = text(&c.body).replace(' ', "");
        if b == format!("{}.0", p) || p == format!("({},_)", b) || p == format!("&({},_)", b) {
            return Some((*x.expr).clone());
        }
    }
    None
}

/// `tags.binary_search_by(|(addr, _)| addr.cmp(&X))`: X
fn search_first(m: &syn::ExprMethodCall) -> Option<Expr> {
    if let Expr::Closure(c) = &m.args[0] {
        let p = c.inputs.first().map(|p| text(p).replace(' ', "")).unwrap_or_default();
        if let Expr::MethodCall(cm) = &*c.body {
            let recv = text(&cm.receiver).replace(' ', "");
            let fst = (p == format!("({},_)", recv) || p == format!("&({},_)", recv)) || recv == format!("{}.0", p);
            if fst && cm.method == "cmp" {
                if let Expr::Reference(r) = &cm.args[0] {
                    return Some((*r.expr).clone());
                }
            }
        }
    }
    None
}

/// `v.sort_by(|a, b| ..)` -> `vx_sort(&mut v)`; the comparator
fn lift_orders(b: &mut syn::Block) -> R<Vec<(syn::Pat, syn::Pat, Expr)>> {
    struct S(Vec<(syn::Pat, syn::Pat, Expr)>);
    impl VisitMut for S {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::MethodCall(m) = &*e {
                let name = m.method.to_string();
                if m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        let r = &m.receiver;
                        let new: Expr = parse_quote!(vx_sort(&mut #r));
                        if ["sort_by", "sort_unstable_by"].contains(&&*name) && c.inputs.len() == 2 {
                            self.0.push((c.inputs[0].clone(), c.inputs[1].clone(), (*c.body).clone()));
                            *e = new;
                            return;
                        }
                        if ["sort_by_key", "sort_unstable_by_key"].contains(&&*name) && c.inputs.len() == 1 {
                            let (p, k) = (&c.inputs[0], &c.body);
                            let body: Expr = parse_quote!({ let vx_ka = { let #p = vx_a; #k }; let vx_kb = { let #p = vx_b; #k }; vx_ka.cmp(&vx_kb) });
                            self.0.push((parse_quote!(vx_a), parse_quote!(vx_b), body));
                            *e = new;
                            return;
                        }
                    }
                }
            }
            syn::visit_mut::visit_expr_mut(self, e)
        }
    }
    let mut sv = S(vec![]);
    sv.visit_block_mut(b);
    Ok(sv.0)
}

fn push_order(out: &mut Out, piece: &str, sig: proc_macro2::TokenStream, a: syn::Pat, b: syn::Pat, body: Expr) -> R<()> {
    let mut bl: syn::Block = match body {
        Expr::Block(b) => b.block,
        x => parse_quote!({ #x }),
    };
    for (p, x) in [(b, "vx_b"), (a, "vx_a")] {
        if text(&p) != x {
            let x = quote::format_ident!("{}", x);
            bl.stmts.insert(0, parse_quote!(let #p = #x;));
        }
    }
    lower_str(
        out,
        piece,
        &mut bl,
        &[],
        Box::new(|e| {
            let mut new: Option<Expr> = None;
            if let Expr::MethodCall(m) = &*e {
                if m.method == "cmp" && m.args.len() == 1 {
                    if let Expr::Reference(r) = &m.args[0] {
                        let (x, y) = (&m.receiver, &r.expr);
                        new = Some(parse_quote!(vx_cmp(#x, #y)));
                    }
                }
                if m.method == "reverse" && m.args.is_empty() {
                    let x = &m.receiver;
                    new = Some(parse_quote!(vx_reverse(#x)));
                }
            }
            if let Some(n) = new {
                *e = n;
            }
        }),
    )?;
    out.push_fn(piece, sig, &bl);
    Ok(())
}

/// C10: the nodes of function pointers
fn fict(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let ir = parse_file(&src.join("ir.rs"))?;
    let ty = parse_file(&src.join("ir/ty.rs"))?;
    let mut out = Out::default();
    node_pieces(&mut out, &f)?;
    item_piece(&mut out, &f, "struct", "Indirect", "")?;
    derives_eq(&ty, "enum", "Type")?;
    item_piece(&mut out, &ty, "enum", "Type", "")?;
    item_piece(&mut out, &ir, "struct", "FnSig", "")?;
    let st = run_stmts(&f)?;
    let a = binding(&st, "all_maybe_void")?;
    let b = anchor(&st, "the nodes of function pointers", &["inindirects{", ".callers"])?;
    if !(a < b && b - a <= 4) {
        return Err("lost anchor: the nodes of function pointers are not one block".into());
    }
    let stmts = st[a..=b].to_vec();
    let mut bl: syn::Block = parse_quote!({ #(#stmts)* g });
    crate::prelow::PreLow { consts: crate::prelow::file_arrays(&f), ..Default::default() }.visit_block_mut(&mut bl);
    crate::slicepat::SlicePat.visit_block_mut(&mut bl);
    lower_str(&mut out, "block_fict", &mut bl, &[], Box::new(|_| {}))?;
    out.push_fn(
        "block_fict",
        quote!(fn block_fict<'a>(
            mut g: DiGraph<Node, ()>,
            indirects: VxMap<FnSig<'a>, Indirect>,
            fmts: VxSet<NodeIndex>,
            has_untyped_symbols: bool
        ) -> (ret: DiGraph<Node, ()>)),
        &bl,
    );
    Ok(out)
}

/// `(|| -> T { .. })()` : the closure becomes a method of its own
fn lift_iife(b: &mut syn::Block, call: Expr) -> Option<syn::Block> {
    struct V(Option<syn::Block>, usize, Expr);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Call(c) = &*e {
                if c.args.is_empty() {
                    let mut f = &*c.func;
                    while let Expr::Paren(p) = f {
                        f = &p.expr;
                    }
                    if let Expr::Closure(cl) = f {
                        if cl.inputs.is_empty() {
                            let x = &cl.body;
                            self.0 = Some(match &**x {
                                Expr::Block(b) => b.block.clone(),
                                _ => parse_quote!({ #x }),
                            });
                            self.1 += 1;
                            *e = self.2.clone();
                            return;
                        }
                    }
                }
            }
            syn::visit_mut::visit_expr_mut(self, e)
        }
    }
    let mut v = V(None, 0, call);
    v.visit_block_mut(b);
    if v.1 == 1 {
        v.0
    } else {
        None
    }
}

/// string constants of the file, by value
fn inline_str_consts(f: &syn::File, b: &mut syn::Block) {
    struct V(BTreeMap<String, Expr>);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = &*e {
                if let Some(i) = p.path.get_ident() {
                    if let Some(v) = self.0.get(&i.to_string()) {
                        *e = v.clone();
                        return;
                    }
                }
            }
            if let Expr::Macro(m) = e {
                // arguments of write!
                if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    let mut args = args;
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    m.mac.tokens = quote!(#args);
                }
            }
            syn::visit_mut::visit_expr_mut(self, e)
        }
    }
    let mut m = BTreeMap::new();
    for i in &f.items {
        if let Item::Const(c) = i {
            if str_lit(&c.expr).is_some() {
                m.insert(c.ident.to_string(), (*c.expr).clone());
            }
        }
    }
    let mut v = V(m);
    v.visit_block_mut(b);
}

/// `let stdout = io::stdout(); let mut stdout = stdout.lock();` : the locked stdout becomes a parameter
fn stdout_param(h: &mut syn::ItemFn) -> R<()> {
    let n = h.block.stmts.len();
    h.block.stmts.retain(|s| {
        let t = text(s).replace(' ', "");
        !(t == "letstdout=io::stdout();" || t == "letmutstdout=stdout.lock();" || t == "letmutstdout=io::stdout().lock();" || t == "letmutstdout=io::stdout();")
    });
    if h.block.stmts.len() == n || text(&h.block).contains("io :: stdout") {
        return Err(format!("{}: lost anchor: stdout", h.sig.ident));
    }
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if text(&*e).replace(' ', "") == "&mutstdout" {
                *e = parse_quote!(&mut *stdout);
                return;
            }
            syn::visit_mut::visit_expr_mut(self, e)
        }
    }
    V.visit_block_mut(&mut h.block);
    h.sig.inputs.insert(0, parse_quote!(stdout: &mut VxFmt));
    Ok(())
}

/// C14, C15: the printers
fn output(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let mut out = Out::default();
    item_piece(&mut out, &f, "enum", "Local", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(&mut out, &f, "enum", "Max", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]")?;
    item_piece(&mut out, &f, "struct", "Node", "")?;
    derives(&f, "struct", "Node", "Clone")?;
    for t in ["Local", "Max"] {
        let mut m = find_method(&f, t, Some("fmt::Display"), "fmt")?;
        let piece = format!("{}_fmt", t);
        lower_str(&mut out, &piece, &mut m.block, &[], Box::new(|_| {}))?;
        let mut s = vx_sig(&m.sig);
        s.ident = quote::format_ident!("vx_fmt");
        let st = sig_tokens(&s);
        out.push_fn(&piece, quote!(pub #st), &m.block);
    }
    // Escaper<W>, used with W = &mut stdout
    let mut it = find_item(&f, "struct", "Escaper")?;
    if let Item::Struct(s) = &mut it {
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        s.generics = parse_quote!(<'a>);
        for f in s.fields.iter_mut() {
            f.vis = parse_quote!(pub);
            f.ty = if text(&f.ty) == "W" { parse_quote!(&'a mut VxFmt) } else { vx_type(&f.ty) };
        }
    }
    out.push_raw("Escaper", text(&it));
    let mut m = find_method(&f, "Escaper", None, "new")?;
    lower_str(&mut out, "Escaper_new", &mut m.block, &[], Box::new(|_| {}))?;
    for a in m.sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            if text(&t.ty) == "W" {
                t.ty = parse_quote!(&'a mut VxFmt);
            }
        }
    }
    let st = sig_tokens(&m.sig);
    out.push_fn("Escaper_new", quote!(pub #st), &m.block);
    let mut m = find_method(&f, "Escaper", Some("fmt::Write"), "write_str")?;
    lower_str(&mut out, "Escaper_write_str", &mut m.block, &[], Box::new(|_| {}))?;
    let st = sig_tokens(&vx_sig(&m.sig));
    out.push_fn("Escaper_write_str", quote!(pub #st), &m.block);
    let mut m = find_method(&f, "Escaper", Some("fmt::Write"), "write_char")?;
    let cl = lift_iife(&mut m.block, parse_quote!(self.write_char_closure(c)));
    if let Some(mut b) = cl {
        lower_str(&mut out, "Escaper_write_char_closure", &mut b, &[], Box::new(|_| {}))?;
        out.push_fn("Escaper_write_char_closure", quote!(fn write_char_closure(&mut self, c: char) -> (ret: Result<(), VxErr>)), &b);
    }
    lower_str(
        &mut out,
        "Escaper_write_char",
        &mut m.block,
        &[],
        Box::new(|e| {
            if text(&*e).replace(' ', "") == "fmt::Error" {
                *e = parse_quote!(vx_fmt_error());
            }
        }),
    )?;
    let st = sig_tokens(&vx_sig(&m.sig));
    out.push_fn("Escaper_write_char", quote!(pub #st), &m.block);
    for name in ["dot", "top"] {
        let mut h = find_fn(&f, name)?;
        h.vis = syn::Visibility::Inherited;
        stdout_param(&mut h)?;
        inline_str_consts(&f, &mut h.block);
        // nodes.sort_by(|a, b| ..): the order becomes a function of its own
        let orders = lift_orders(&mut h.block)?;
        if orders.len() > 1 {
            return Err("lost anchor: several sorts".into());
        }
        for (a, b, body) in orders {
            let piece = format!("{}_order", name);
            let id = quote::format_ident!("{}", piece);
            push_order(&mut out, &piece, quote!(fn #id(vx_a: &Node, vx_b: &Node) -> (ret: core::cmp::Ordering)), a, b, body)?;
        }
        lower_str(&mut out, name, &mut h.block, &[], Box::new(|_| {}))?;
        let s = sig_tokens(&vx_sig(&h.sig));
        out.push_fn(name, quote!(#s), &h.block);
    }
    Ok(out)
}

/// C16: the rustc wrapper, and how main gets there
fn wrapper(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("wrapper.rs"))?;
    let m = parse_file(&src.join("main.rs"))?;
    let mut out = Out::default();
    item_piece(&mut out, &f, "struct", "RustcArgs", "")?;
    item_piece(&mut out, &f, "struct", "Extern", "")?;
    let consts = crate::wraplow::str_consts(&f.items);
    let low = |b: &mut syn::Block| crate::wraplow::WrapLow { consts: consts.clone(), n: 0 }.visit_block_mut(b);
    let mut p = find_method(&f, "RustcArgs", None, "parse")?;
    low(&mut p.block);
    lower_str(&mut out, "parse", &mut p.block, &["splitn", "split_once"], Box::new(|_| {}))?;
    // (a dyn Iterator cannot do more than yield its items)
    let a = match (p.sig.inputs.len(), p.sig.inputs.first()) {
        (1, Some(syn::FnArg::Typed(t))) if text(&t.ty).replace(' ', "") == "&mutdynIterator<Item=&str>" => t.pat.clone(),
        _ => return Err("lost anchor: the argument of RustcArgs::parse".into()),
    };
    out.push_fn("parse", quote!(fn parse(#a: &mut VxIter<&VxStr>) -> (ret: Result<RustcArgs, VxErr>)), &p.block);
    let mut h = find_fn(&f, "wrapper")?;
    low(&mut h.block);
    lower_str(&mut out, "wrapper", &mut h.block, &["code"], Box::new(|_| {}))?;
    out.push_fn("wrapper", quote!(fn wrapper(vx_w: &mut VxWorld) -> (ret: Result<i32, VxErr>)), &h.block);
    // the first statement of run, and main
    let st = run_stmts(&m)?;
    let first = st.first().ok_or("lost anchor: run")?.clone();
    let mut b: syn::Block = parse_quote!({ #first vx_rest_of_run(vx_w) });
    low(&mut b);
    lower_str(&mut out, "run", &mut b, &[], Box::new(|_| {}))?;
    out.push_fn("run", quote!(fn run(vx_w: &mut VxWorld) -> (ret: Result<i32, VxErr>)), &b);
    let mut h = find_fn(&m, "main")?;
    low(&mut h.block);
    lower_str(&mut out, "main", &mut h.block, &[], Box::new(|_| {}))?;
    out.push_fn("main", quote!(fn vx_main(vx_w: &mut VxWorld)), &h.block);
    Ok(out)
}

/// C01, C11, C19, C20: what run reads before it builds the graph
fn inputs(src: &Path) -> R<Out> {
    let f = parse_file(&src.join("main.rs"))?;
    let ir = parse_file(&src.join("ir.rs"))?;
    let ty = parse_file(&src.join("ir/ty.rs"))?;
    let de = parse_file(&src.join("ir/define.rs"))?;
    let item = parse_file(&src.join("ir/item.rs"))?;
    let mut out = Out::default();
    target_pieces(&mut out, &f)?;
    item_piece(&mut out, &ty, "enum", "Type", "")?;
    item_piece(&mut out, &ir, "struct", "FnSig", "")?;
    item_piece(&mut out, &de, "struct", "Define", "")?;
    item_piece(&mut out, &de, "enum", "Stmt", "")?;
    item_piece(&mut out, &item, "struct", "Declare", "")?;
    item_piece(&mut out, &item, "enum", "Item", "")?;
    let st = run_stmts(&f)?;
    let pos = |n: &str| binding(&st, n);
    // from the first of the bindings to the last statement, before `end`, that mentions one of the variables
    let part = |vars: &[&str], end: usize| -> R<Vec<syn::Stmt>> {
        let a = vars.iter().map(|v| pos(v)).collect::<R<Vec<_>>>()?.into_iter().min().unwrap();
        if a >= end {
            return Err(format!("lost anchor: {:?} is bound too late in run", vars));
        }
        Ok(concerning(&st[a..end], vars))
    };
    let (t, sy, g) = (pos("target_")?, pos("symbols")?, pos("g")?);
    let mut emit = |name: &str, stmts: Vec<syn::Stmt>, tail: Expr, sig: proc_macro2::TokenStream| -> R<()> {
        let mut b: syn::Block = parse_quote!({ #(#stmts)* #tail });
        crate::inputs::low(&mut b);
        lower_str(&mut out, name, &mut b, &[], Box::new(|_| {}))?;
        out.push_fn(name, sig, &b);
        Ok(())
    };
    emit(
        "block_items",
        part(&["defines", "declares"], t)?,
        parse_quote!((defines, declares)),
        quote!(fn block_items<'a>(items: Vec<Item<'a>>, compiler_builtins_items: Vec<Item<'a>>) -> (ret: (VxMap<VxStr, Define<'a>>, VxMap<VxStr, Declare<'a>>))),
    )?;
    emit("block_target", vec![st[t].clone()], parse_quote!(target_), quote!(fn block_target(target: &VxStr) -> (ret: Target)))?;
    emit(
        "block_sizes",
        part(&["stack_sizes"], sy)?,
        parse_quote!(Ok(stack_sizes)),
        quote!(fn block_sizes(obj: Vec<u8>, compiler_builtins_rlib_path: VxStr) -> (ret: Result<VxMap<VxStr, u64>, VxErr>)),
    )?;
    emit(
        "block_symbols",
        part(&["symbols"], g)?,
        parse_quote!(Ok(symbols)),
        quote!(fn block_symbols<'a>(elf: Vec<u8>, target_: Target) -> (ret: Result<Symbols<'a>, VxErr>)),
    )?;
    // nothing changes them afterwards
    for (v, from) in [("defines", t), ("declares", t), ("stack_sizes", sy), ("target_", t + 1), ("symbols", g)] {
        for i in mentions(&st, v) {
            if i < from {
                continue;
            }
            let s = text(&st[i]).replace(' ', "");
            for w in [format!("&mut{}", v), format!("{}.insert(", v), format!("{}.remove(", v), format!("{}.clear(", v), format!("{}.retain(", v), format!("{}.entry(", v)] {
                if s.contains(&w) {
                    return Err(format!("lost anchor: {} is changed later in run", v));
                }
            }
        }
    }
    Ok(out)
}

/// the LLVM-IR parser
fn parser(src: &Path) -> R<Out> {
    use crate::nomlow::{functions, Module, World};
    let w = World::new(vec![
        Module { tag: "ir", path: &[], file: parse_file(&src.join("ir.rs"))? },
        Module { tag: "ty", path: &["ty"], file: parse_file(&src.join("ir/ty.rs"))? },
        Module { tag: "def", path: &["define"], file: parse_file(&src.join("ir/define.rs"))? },
        Module { tag: "item", path: &["item"], file: parse_file(&src.join("ir/item.rs"))? },
    ]);
    let mut out = Out::default();
    for (m, kind, name) in [
        (1, "enum", "Type"),
        (0, "struct", "FnSig"),
        (2, "struct", "Define"),
        (2, "enum", "Stmt"),
        (3, "struct", "Declare"),
        (3, "enum", "Item"),
        (0, "struct", "Comment"),
        (0, "struct", "Ident"),
        (0, "struct", "Global"),
        (0, "struct", "Local"),
        (0, "struct", "Null"),
        (0, "struct", "Attribute"),
        (0, "struct", "Bitcast"),
        (0, "struct", "GetElementPtr"),
        (0, "struct", "Function"),
        (0, "struct", "Alias"),
        (2, "struct", "Parameter"),
        (2, "struct", "Argument"),
    ] {
        item_piece(&mut out, &w.mods[m].file, kind, name, "")?;
    }
    let mut ir = w.mods[0].file.clone();
    for i in ir.items.iter_mut() {
        if let Item::Struct(s) = i {
            if s.ident == "String" {
                s.ident = quote::format_ident!("IrString");
            }
        }
    }
    item_piece(&mut out, &ir, "struct", "IrString", "")?;
    for (name, sig, mut b) in functions(&w)? {
        lower_str(&mut out, &name, &mut b, &[], Box::new(|_| {}))?;
        out.push_fn(&name, sig, &b);
    }
    // constructors are no calls
    for (k, v) in out.facts.iter_mut() {
        if k.starts_with("calls.") {
            *v = v.split(' ').filter(|c| !c.rsplit("::").next().unwrap_or("").starts_with(char::is_uppercase) && *c != "Box::new").collect::<Vec<_>>().join(" ");
        }
    }
    Ok(out)
}
