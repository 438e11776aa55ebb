//! Rewriting of a helper body with early exits (`return`, `?`) into one without, so that the helper can be inlined:
//! the statements after an exit are moved into the branches that do not exit. Pure restructuring, no change of order.
use crate::passes::{last_seg, rg};
use std::collections::BTreeSet;
use syn::visit::Visit;

pub struct HasExit(pub bool);
impl<'ast> Visit<'ast> for HasExit {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
fn exits_e(e: &syn::Expr) -> bool {
    let mut h = HasExit(false);
    h.visit_expr(e);
    h.0
}
fn exits_s(s: &syn::Stmt) -> bool {
    let mut h = HasExit(false);
    h.visit_stmt(s);
    h.0
}
fn exits_b(b: &syn::Block) -> bool {
    let mut h = HasExit(false);
    h.visit_block(b);
    h.0
}

#[derive(Clone)]
enum K {
    Id,
    Let(String, String), // let PAT = v; REST
    Stmt(String),        // v; REST
}

struct D<'a> {
    src: &'a str,
    opt: Option<bool>, // Some(true): Option, Some(false): Result
    dup: usize,
}

fn words(s: &str) -> BTreeSet<String> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}

struct Names(BTreeSet<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

impl<'a> D<'a> {
    fn t<T: syn::spanned::Spanned>(&self, x: &T) -> String {
        self.src[rg(x)].to_string()
    }
    fn apply(&mut self, k: &K, v: &str) -> String {
        match k {
            K::Id => v.to_string(),
            K::Let(p, r) => {
                self.dup += 1;
                format!("let {p} = {v}; {r}")
            }
            K::Stmt(r) => {
                self.dup += 1;
                if v == "()" { r.clone() } else { format!("{v}; {r}") }
            }
        }
    }
    /// the continuation is moved under these binders: it must not mention them
    fn capture(&self, k: &K, names: &BTreeSet<String>) -> Option<()> {
        let mut r = match k {
            K::Id => return Some(()),
            K::Let(_, r) | K::Stmt(r) => words(r),
        };
        if let K::Let(p, _) = k {
            // bound again before the rest
            if let Ok(syn::Stmt::Local(l)) = syn::parse_str::<syn::Stmt>(&format!("let {p} = 0;")) {
                let mut n = Names(BTreeSet::new());
                n.visit_pat(&l.pat);
                r.retain(|w| !n.0.contains(w));
            }
        }
        if names.iter().any(|n| r.contains(n)) { None } else { Some(()) }
    }
    fn seq(&mut self, st: &[syn::Stmt], k: &K) -> Option<String> {
        let Some((s, rest)) = st.split_first() else { return Some(self.apply(k, "()")) };
        if !exits_s(s) {
            if rest.is_empty() {
                if let syn::Stmt::Expr(e, None) = s {
                    return self.expr(e, k);
                }
            }
            return Some(format!("{} {}", self.t(s), self.seq(rest, k)?));
        }
        match s {
            syn::Stmt::Expr(e, semi) => {
                if rest.is_empty() && semi.is_none() {
                    return self.expr(e, k);
                }
                let r = self.seq(rest, k)?;
                self.join(e, K::Stmt(r))
            }
            syn::Stmt::Local(l) => {
                let i = l.init.as_ref()?;
                let r = self.seq(rest, k)?;
                match &i.diverge {
                    None => self.join(&i.expr, K::Let(self.t(&l.pat), r)),
                    Some((_, d)) => {
                        if exits_e(&i.expr) {
                            return None;
                        }
                        let d = self.expr(d, &K::Stmt("unreachable!()".into()))?;
                        Some(format!("match {} {{ {} => {{ {r} }} _ => {{ {d} }} }}", self.t(&i.expr), self.t(&l.pat)))
                    }
                }
            }
            _ => None,
        }
    }
    /// as expr, refusing to duplicate a continuation with a loop in it
    fn join(&mut self, e: &syn::Expr, k: K) -> Option<String> {
        let before = self.dup;
        let out = self.expr(e, &k)?;
        let r = match &k {
            K::Id => "",
            K::Let(_, r) | K::Stmt(r) => r,
        };
        let w = words(r);
        if self.dup > before + 1 && ["loop", "while", "for"].iter().any(|x| w.contains(*x)) {
            return None;
        }
        Some(out)
    }
    fn block(&mut self, b: &syn::Block, k: &K) -> Option<String> {
        let mut n = Names(BTreeSet::new());
        for s in &b.stmts {
            if let syn::Stmt::Local(l) = s {
                n.visit_pat(&l.pat);
            }
        }
        self.capture(k, &n.0)?;
        self.seq(&b.stmts, k)
    }
    fn expr(&mut self, e: &syn::Expr, k: &K) -> Option<String> {
        match e {
            syn::Expr::Return(r) => match &r.expr {
                None => Some("()".into()),
                Some(x) => self.expr(x, &K::Id),
            },
            syn::Expr::Macro(m) if ["panic", "unreachable", "unimplemented", "todo"].contains(&last_seg(&m.mac.path).as_str()) => Some(self.t(e)),
            _ if !exits_e(e) && (matches!(k, K::Id) || !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_))) => {
                let v = self.t(e);
                Some(self.apply(k, &v))
            }
            _ if !exits_e(e) => {
                let v = self.t(e);
                Some(self.apply(k, &v))
            }
            syn::Expr::Paren(p) => self.expr(&p.expr, k),
            syn::Expr::Block(b) if b.label.is_none() => self.block(&b.block, k),
            syn::Expr::If(i) => {
                if exits_e(&i.cond) {
                    return None;
                }
                let mut n = Names(BTreeSet::new());
                n.visit_expr(&i.cond);
                self.capture(k, &n.0)?;
                let a = self.block(&i.then_branch, k)?;
                let b = match &i.else_branch {
                    Some((_, x)) => self.expr(x, k)?,
                    None => self.apply(k, "()"),
                };
                Some(format!("if {} {{ {a} }} else {{ {b} }}", self.t(&*i.cond)))
            }
            syn::Expr::Match(m) => {
                if exits_e(&m.expr) {
                    return None;
                }
                let mut out = format!("match {} {{ ", self.t(&*m.expr));
                for arm in &m.arms {
                    let mut n = Names(BTreeSet::new());
                    n.visit_pat(&arm.pat);
                    let leaves = matches!(&*arm.body, syn::Expr::Return(_)) || matches!(&*arm.body, syn::Expr::Macro(_));
                    if !leaves {
                        self.capture(k, &n.0)?;
                    }
                    let g = match &arm.guard {
                        Some((_, g)) if exits_e(g) => return None,
                        Some((_, g)) => format!(" if {}", self.t(&**g)),
                        None => String::new(),
                    };
                    let b = self.expr(&arm.body, k)?;
                    out.push_str(&format!("{}{g} => {{ {b} }} ", self.t(&arm.pat)));
                }
                out.push('}');
                Some(out)
            }
            syn::Expr::Try(x) => {
                if exits_e(&x.expr) {
                    return None;
                }
                let b = self.apply(k, "__q");
                let v = self.t(&*x.expr);
                match self.opt? {
                    true => Some(format!("match {v} {{ Some(__q) => {{ {b} }} None => {{ None }} }}")),
                    false => Some(format!("match {v} {{ Ok(__q) => {{ {b} }} Err(__e) => {{ Err(__e) }} }}")),
                }
            }
            // Some(x?)
            syn::Expr::Call(c) if c.args.len() == 1 && !exits_e(&c.func) => {
                let v = format!("{}(__w)", self.t(&*c.func));
                let r = self.apply(k, &v);
                self.expr(&c.args[0], &K::Let("__w".into(), r))
            }
            _ => None,
        }
    }
}

/// `ret` is the return type of the helper
pub fn deret(body: &str, ret: &str) -> Option<String> {
    let b: syn::Block = syn::parse_str(body).ok()?;
    if !exits_b(&b) {
        return Some(body.to_string());
    }
    let opt = if ret.starts_with("Option") { Some(true) } else if ret.starts_with("Result") { Some(false) } else { None };
    let mut d = D { src: body, opt, dup: 0 };
    let s = d.seq(&b.stmts, &K::Id)?;
    if s.len() > 40 * body.len() {
        return None;
    }
    let out = format!("{{ {s} }}");
    syn::parse_str::<syn::Block>(&out).ok().map(|_| out)
}
