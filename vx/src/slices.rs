//! `__vx_leaf!(ID)` markers at exclusive points of a function: on every path from the head of a
//! loop (or the entry) the markers met form a chain of nested IDs (`a`, `a.0`, `a.0.2`), so the
//! proof can be cut into slices that each keep some markers with everything above and below them.
use syn::{parse_quote, Block, Expr, Stmt};

pub fn leaves(b: &mut Block, id: &str) {
    let mut n = 0;
    block(b, id, &mut n, false);
}

fn diverges(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Continue(_) | Expr::Break(_) | Expr::Return(_), _)))
}

fn block_of(e: &mut Expr) -> Option<&mut Block> {
    match e {
        Expr::Block(b) if b.label.is_none() => Some(&mut b.block),
        _ => None,
    }
}

fn mark(b: &mut Block, id: &str, n: &mut usize, tail: bool) {
    let me = format!("{}.{}", id, *n);
    *n += 1;
    let mut k = 0;
    block(b, &me, &mut k, tail);
    b.stmts.insert(0, parse_quote!(__vx_leaf!(#me);));
}

/// tail: nothing follows this block on a path to the back edge of its loop
fn block(b: &mut Block, id: &str, n: &mut usize, tail: bool) {
    let mut i = 0;
    while i < b.stmts.len() {
        // what follows the last statement (markers and other loops aside) is the back edge
        let last = tail && b.stmts[i + 1..].iter().all(|s| matches!(s, Stmt::Macro(_)));
        if let Stmt::Expr(e, _) = &mut b.stmts[i] {
            let mut cut = false;
            stmt(e, id, n, last, &mut cut);
            if cut && !last && i + 1 < b.stmts.len() {
                let mut r: Block = parse_quote!({});
                r.stmts = b.stmts.split_off(i + 1);
                mark(&mut r, id, n, tail);
                b.stmts.extend(r.stmts);
                return;
            }
        }
        i += 1;
    }
}

fn stmt(e: &mut Expr, id: &str, n: &mut usize, last: bool, cut: &mut bool) {
    match e {
        Expr::Loop(l) => block(&mut l.body, id, n, true),
        Expr::If(i) if i.else_branch.is_none() && diverges(&i.then_branch) => {
            mark(&mut i.then_branch, id, n, true);
            *cut = true;
        }
        Expr::If(i) if last => {
            mark(&mut i.then_branch, id, n, true);
            if let Some((_, e)) = &mut i.else_branch {
                match block_of(e) {
                    Some(b) => mark(b, id, n, true),
                    None => stmt(e, id, n, last, cut),
                }
            }
        }
        Expr::Match(m) if last => {
            for a in &mut m.arms {
                if let Some(b) = block_of(&mut a.body) {
                    mark(b, id, n, true);
                }
            }
        }
        Expr::Block(x) if x.label.is_none() && last => block(&mut x.block, id, n, true),
        _ => {}
    }
}

/// `__vx_proof!(ID)` behind every `if` that may call the method `what`
pub fn after_ifs(b: &mut Block, what: &str, id: &str) {
    struct V<'a>(&'a str, &'a str);
    impl<'a> syn::visit_mut::VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            syn::visit_mut::visit_block_mut(self, b);
            let id = self.1;
            let mut out = Vec::new();
            for s in b.stmts.drain(..) {
                let hit = matches!(&s, Stmt::Expr(Expr::If(i), _) if !diverges(&i.then_branch)
                    && quote::ToTokens::to_token_stream(i).to_string().contains(&format!(". {} (", self.0)));
                out.push(s);
                if hit {
                    out.push(parse_quote!(__vx_proof!(#id);));
                }
            }
            b.stmts = out;
        }
    }
    syn::visit_mut::VisitMut::visit_block_mut(&mut V(what, id), b);
}
