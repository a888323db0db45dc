//! `(a << 24) | (b << 23) | c` chains: for every distinct shape in the extracted code, emit one
//! lemma (proved by the bit-vector back end) that reads the chain as a sum.
use crate::common::text;
use std::collections::BTreeMap;
use syn::{visit::Visit, BinOp, Expr};

#[derive(Default)]
pub struct Chains(pub BTreeMap<String, Vec<u32>>);

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn shape(e: &Expr, shifts: &mut Vec<u32>) -> Option<String> {
    let e = strip(e);
    if let Expr::Binary(b) = e {
        if let BinOp::BitOr(_) = b.op {
            let l = shape(&b.left, shifts)?;
            let r = shape(&b.right, shifts)?;
            return Some(format!("({} | {})", l, r));
        }
        if let BinOp::Shl(_) = b.op {
            let k: u32 = text(strip(&b.right)).parse().ok()?;
            shifts.push(k);
            return Some(format!("(a{} << {})", shifts.len() - 1, k));
        }
    }
    shifts.push(0);
    Some(format!("a{}", shifts.len() - 1))
}

impl<'a> Visit<'a> for Chains {
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        if let BinOp::BitOr(_) = b.op {
            let mut v = vec![];
            if let Some(s) = shape(&Expr::Binary(b.clone()), &mut v) {
                self.0.insert(s, v);
                // maximal chains only: continue below the chain's own nodes
                fn below<'a>(c: &mut Chains, e: &'a Expr) {
                    match strip(e) {
                        Expr::Binary(b) if matches!(b.op, BinOp::BitOr(_)) => {
                            below(c, &b.left);
                            below(c, &b.right);
                        }
                        e => c.visit_expr(e),
                    }
                }
                below(self, &b.left);
                below(self, &b.right);
                return;
            }
        }
        syn::visit::visit_expr_binary(self, b)
    }
}

fn pop(x: &str) -> String {
    (0..16).map(|k| format!("((({x}) >> {k}u16) & 1)")).collect::<Vec<_>>().join(" + ")
}

impl Chains {
    pub fn render(&self, with_pop: bool) -> String {
        let mut out = String::new();
        let mut names = vec![];
        for (n, (s, sh)) in self.0.iter().enumerate() {
            for (ty, bits) in [("u8", 8u32), ("u16", 16), ("u32", 32), ("i32", 31)] {
                let mut order: Vec<usize> = (0..sh.len()).collect();
                order.sort_by_key(|&j| std::cmp::Reverse(sh[j]));
                let mut ok = true;
                let mut top = bits;
                let mut bounds = vec![0u64; sh.len()];
                for &j in &order {
                    if sh[j] >= top {
                        ok = false;
                        break;
                    }
                    bounds[j] = 1u64 << (top - sh[j]);
                    top = sh[j];
                }
                if !ok {
                    continue;
                }
                let params = (0..sh.len()).map(|j| format!("a{j}: {ty}")).collect::<Vec<_>>().join(", ");
                let bnd = |j: usize, max: u64| if bounds[j] > max { format!("0 <= a{j}") } else { format!("0 <= a{j} < {}", bounds[j]) };
                let max = match ty { "u8" => 255, "u16" => 65535, "u32" => u32::MAX as u64, _ => i32::MAX as u64 };
                let req: Vec<String> = (0..sh.len()).map(|j| bnd(j, max)).collect();
                let sum = (0..sh.len()).map(|j| if sh[j] == 0 { format!("a{j}") } else { format!("a{j} * {}", 1u64 << sh[j]) }).collect::<Vec<_>>().join(" + ");
                let breq = req.join(" && ");
                out += &format!("pub broadcast proof fn orc_{n}_{ty}({params}) requires {} ensures #[trigger] {s} == {sum} {{ assert({s} == {sum}) by (bit_vector) requires {breq}; }}\n", req.join(", "));
                names.push(format!("orc_{n}_{ty}"));
                if with_pop && ty == "u16" {
                    let psum = (0..sh.len()).map(|j| format!("pop16(a{j})")).collect::<Vec<_>>().join(" + ");
                    let bsum = (0..sh.len()).map(|j| format!("({})", pop(&format!("a{j}")))).collect::<Vec<_>>().join(" + ");
                    out += &format!("pub broadcast proof fn orp_{n}_{ty}({params}) requires {} ensures #[trigger] pop16({s}) == {psum} {{ reveal(pop16); assert({} == {bsum}) by (bit_vector) requires {breq}; }}\n", req.join(", "), pop(s));
                    names.push(format!("orp_{n}_{ty}"));
                }
            }
        }
        out += &format!("pub open spec fn vx_id(x: u8) -> u8 {{ x }}\npub broadcast group orchains {{ vx_no_chain, {} }}\npub broadcast proof fn vx_no_chain(x: u8) ensures #[trigger] vx_id(x) == x {{}}\n", names.join(", "));
        out
    }
}
