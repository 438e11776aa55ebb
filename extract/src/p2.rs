//! P2/P3: rendering of function bodies in the verifier's subset, and injection of the contracts.
use crate::engine::*;
use crate::passes::*;
use crate::sidecar::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::{Expr, Pat, Stmt};

#[derive(Clone, Copy, PartialEq, Debug)]
enum RetKind {
    Opt,
    Res,
    Other,
}

pub struct FnReport {
    pub key: String,
    pub module: String,
    pub contract: bool,
    pub problems: Vec<String>,
    pub loops: usize,
    pub line: usize,
    pub external: bool,
}

pub struct P2<'a, 'b> {
    ed: Editor<'a>,
    counts: &'b mut Counts,
    problems: Vec<String>,
    // current fn
    touch: Vec<String>, // names of `&mut` token params
    shadow: usize,
    ret: RetKind,
    mut_self: bool,
    ret_ty: String,
    loops: usize,
    closures: usize,
    ranges: BTreeSet<String>,
    contract: Option<FnContract>,
    explicit_loops: bool,
    arr: usize,
    ret_slice: bool,
    punct_fields: &'b BTreeSet<String>,
}

fn is_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn str_lit(e: &Expr) -> bool {
    matches!(strip_paren(e), Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))
}

fn iterish(e: &Expr, ranges: &BTreeSet<String>) -> bool {
    match strip_paren(e) {
        Expr::MethodCall(m) => [
            "iter", "into_iter", "items", "map", "filter", "filter_map", "cloned", "punct", "iter_mut", "rev", "take", "skip", "chain", "enumerate", "zip", "chars", "bytes", "char_indices", "split",
            "get_type_params", "get_lifetime_params", "get_const_params",
        ]
        .contains(&m.method.to_string().as_str()),
        Expr::Range(_) => true,
        e => is_ident(e).map_or(false, |i| ranges.contains(&i)),
    }
}

struct HasGuard(bool);
impl<'ast> Visit<'ast> for HasGuard {
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if a.guard.is_some() {
            self.0 = true;
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

impl<'a, 'b> P2<'a, 'b> {
    fn s(&self, r: Range<usize>) -> Seg {
        Seg::S(r.start, r.end)
    }
    fn se<T: Spanned>(&self, x: &T) -> Seg {
        let r = rg(x);
        Seg::S(r.start, r.end)
    }
    fn bump(&mut self, k: &str) {
        bump(self.counts, k);
    }
    fn touches(&self) -> String {
        if self.shadow > 0 {
            return String::new();
        }
        self.touch.iter().map(|t| format!("{t}.touch(); ")).collect()
    }
    fn problem(&mut self, s: impl Into<String>) {
        self.problems.push(s.into());
    }

    fn closure_parts<'x>(&self, e: &'x Expr) -> Option<(Vec<&'x Pat>, &'x Expr)> {
        match strip_paren(e) {
            Expr::Closure(c) => Some((c.inputs.iter().collect(), &c.body)),
            _ => None,
        }
    }

    /// array patterns inside a pattern: replaced by a variable; returns `let` bindings
    fn arrays_in_pat(&mut self, p: &Pat) -> String {
        struct F<'x>(Vec<&'x syn::PatSlice>);
        impl<'x> Visit<'x> for F<'x> {
            fn visit_pat_slice(&mut self, p: &'x syn::PatSlice) {
                self.0.push(p);
            }
        }
        let mut f = F(vec![]);
        f.visit_pat(p);
        let mut out = String::new();
        for ps in f.0 {
            let n = self.arr;
            self.arr += 1;
            self.bump("array_pattern");
            self.ed.push(rg(ps), vec![t(format!("__arr{n}"))]);
            for (i, el) in ps.elems.iter().enumerate() {
                match el {
                    Pat::Ident(id) if id.subpat.is_none() => {
                        out.push_str(&format!("let {} = __arr{n}[{i}].vclone(); ", id.ident));
                    }
                    Pat::Wild(_) => {}
                    _ => self.problem("array pattern"),
                }
            }
        }
        out
    }

    fn macro_edit(&mut self, m: &syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let r = rg(m);
        match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.bump("panic_macro");
                self.ed.push(r, vec![t("vpanic()")]);
            }
            "write" => {
                // write!(f, "{}", x)
                if let Ok(args) = m.parse_body_with(
                    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                ) {
                    let plain = matches!(args.iter().nth(1), Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) if s.value() == "{}");
                    if plain && args.len() == 3 {
                        self.visit_expr(&args[0]);
                        self.visit_expr(&args[2]);
                        self.bump("write_macro");
                        let (f, x) = (self.se(&args[0]), self.se(&args[2]));
                        self.ed.push(r, vec![t("("), f, t(").write_str(&("), x, t(").v_to_string())")]);
                    }
                }
            }
            "assert" | "debug_assert" => {
                if let Ok(args) = m.parse_body_with(
                    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                ) {
                    if let Some(a) = args.first() {
                        self.visit_expr(a);
                        self.bump("assert_macro");
                        let s = self.se(a);
                        self.ed.push(r, vec![t("if !("), s, t(") { vpanic() }")]);
                    }
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                if let Ok(args) = m.parse_body_with(
                    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                ) {
                    if args.len() >= 2 {
                        self.visit_expr(&args[0]);
                        self.visit_expr(&args[1]);
                        self.bump("assert_macro");
                        let (a, b) = (self.se(&args[0]), self.se(&args[1]));
                        let (x, y) = if name == "assert_ne" { ("if (", " == ") } else { ("if !(", " == ") };
                        self.ed.push(r, vec![t(x), a, t(y), b, t(") { vpanic() }")]);
                    }
                }
            }
            "matches" => {
                if let Some((e, p, g)) = parse_matches(m) {
                    // string scrutinee
                    if let Expr::MethodCall(mc) = &e {
                        if mc.method == "as_str" {
                            if let Some(lits) = str_alts(&p) {
                                let recv = strip_to_string(&mc.receiver);
                                let rt = self.ed.src[rg(recv)].to_string();
                                let c: Vec<String> = lits.iter().map(|l| format!("{rt}.v_is({l})")).collect();
                                self.bump("string_match");
                                self.ed.push(r, vec![t(format!("({})", c.join(" || ")))]);
                                return;
                            }
                        }
                    }
                    self.visit_expr(&e);
                    self.visit_pat(&p);
                    let mut segs = vec![t("(match "), self.se(&e), t(" { "), self.se(&p)];
                    if let Some(g) = &g {
                        self.visit_expr(g);
                        segs.push(t(" if "));
                        segs.push(self.se(g));
                    }
                    segs.push(t(" => true, _ => false })"));
                    self.bump("matches_macro");
                    self.ed.push(r, segs);
                } else {
                    self.problem("matches!");
                }
            }
            "vec" => {
                if m.tokens.is_empty() {
                    self.ed.push(r, vec![t("Vec::new()")]);
                } else if let Ok(args) = m.parse_body_with(
                    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                ) {
                    let mut segs = vec![t("{ let mut __v = Vec::new(); ")];
                    for a in &args {
                        self.visit_expr(a);
                        segs.push(t("__v.push("));
                        segs.push(self.se(a));
                        segs.push(t("); "));
                    }
                    segs.push(t("__v }"));
                    self.bump("vec_macro");
                    self.ed.push(r, segs);
                } else {
                    self.problem("vec!");
                }
            }
            "format" => {
                self.bump("format_macro");
                self.ed.push(r, vec![t("v_format()")]);
            }
            _ => self.problem(format!("macro {name}!")),
        }
    }

    fn loop_spec(&mut self) -> String {
        self.loops += 1;
        let n = self.loops;
        match &self.contract {
            Some(c) => match c.loops.get(&n) {
                Some(l) => l.render(),
                None => {
                    self.problem(format!("loop {n} has no invariant"));
                    " decreases 0int ".to_string()
                }
            },
            None => {
                self.problem(format!("loop {n} in a function without contract"));
                " decreases 0int ".into()
            }
        }
    }
    fn loop_attr(&self) -> &'static str {
        "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] "
    }

    fn slice_tail(&mut self, e: &Expr) {
        // tail expressions of a function returning a slice
        match e {
            Expr::Match(m) => {
                for a in &m.arms {
                    self.slice_tail(&a.body);
                }
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last() {
                    self.slice_tail(e);
                }
                if let Some((_, e)) = &i.else_branch {
                    self.slice_tail(e);
                }
            }
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last() {
                    self.slice_tail(e);
                }
            }
            Expr::Reference(r) => {
                if let Expr::Array(a) = &*r.expr {
                    if a.elems.is_empty() {
                        self.bump("empty_slice");
                        self.ed.push(rg(e), vec![t("v_empty()")]);
                        return;
                    }
                }
                if let Expr::Index(_) = &*r.expr {
                    return; // range index, handled elsewhere
                }
                self.bump("slice_coercion");
                let s = self.se(&*r.expr);
                self.ed.push(rg(e), vec![t("("), s, t(if r.mutability.is_some() { ").as_mut_slice()" } else { ").v_slice()" })]);
            }
            Expr::Path(_) | Expr::Field(_) => {
                self.bump("slice_coercion");
                let s = self.se(e);
                self.ed.push(rg(e), vec![t("("), s, t(").v_slice()")]);
            }
            _ => {}
        }
    }

    fn visit_closure_body_param(&mut self, pats: &[&Pat]) {
        for p in pats {
            self.visit_pat(p);
        }
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) {
        // source
        let whole = rg(f);
        let src = strip_paren(&f.expr);
        // kind: borrow of a Vec/slice, or VIter
        let (base, by_ref): (Range<usize>, bool) = match src {
            Expr::Reference(r) => (rg(&*r.expr), true),
            Expr::MethodCall(m) if m.method == "iter" => (rg(&*m.receiver), true),
            _ => (rg(src), false),
        };
        let inner_src: &Expr = match src {
            Expr::Reference(r) => &r.expr,
            Expr::MethodCall(m) if m.method == "iter" => &m.receiver,
            e => e,
        };
        // print-one bodies
        let pat_id = match &*f.pat {
            Pat::Ident(i) => Some(i.ident.to_string()),
            _ => None,
        };
        if let (Some(id), 1, false) = (&pat_id, f.body.stmts.len(), self.explicit_for(&self.ed.src[base.clone()].to_string())) {
            if let Stmt::Expr(Expr::MethodCall(m), _) = &f.body.stmts[0] {
                let tgt: Option<Range<usize>> = if m.method == "to_tokens"
                    && is_ident(&m.receiver).as_deref() == Some(id)
                    && m.args.len() == 1
                {
                    Some(rg(&m.args[0]))
                } else if m.method == "append" && m.args.len() == 1 {
                    match &m.args[0] {
                        Expr::MethodCall(c)
                            if c.method == "clone" && is_ident(&c.receiver).as_deref() == Some(id) =>
                        {
                            Some(rg(&*m.receiver))
                        }
                        _ => None,
                    }
                } else {
                    None
                };
                if let Some(tg) = tgt {
                    self.visit_expr(inner_src);
                    self.bump("for_print_all");
                    let amp = if by_ref { "&" } else { "" };
                    // a place which is already a reference derefs by auto-ref in print_all
                    let segs = vec![
                        t(format!("{{ print_all(({amp}")),
                        self.s(base),
                        t(").v_slice(), "),
                        self.s(tg),
                        t("); }"),
                    ];
                    self.ed.push(whole, segs);
                    return;
                }
            }
        }
        self.visit_expr(inner_src);
        self.bump("for_index_loop");
        let k = self.loops + 1;
        let spec = self.loop_spec().replace(" decreases 0int ", &format!(" decreases __src{k}@.len() - __i{k} "));
        let attr = self.loop_attr();
        let pre = self.arrays_in_pat(&f.pat);
        self.visit_block(&f.body);
        let br = rg(&f.body);
        let (amp, get) = if by_ref { ("&", format!("&__src{k}[__i{k}]")) } else { ("", format!("__src{k}.v_at(__i{k})")) };
        let extra = self.contract.as_ref().and_then(|c| c.loops.get(&k)).map(|l| l.body_start.clone()).unwrap_or_default();
        let extra_end = self.contract.as_ref().and_then(|c| c.loops.get(&k)).map(|l| l.body_end.clone()).unwrap_or_default();
        for c in continues_of(&f.body) {
            self.ed.push(c, vec![t(format!("{{ __i{k} = __i{k} + 1; {extra_end} continue }}"))]);
        }
        let segs = vec![
            t(format!("{{ let __src{k} = {amp}")),
            self.s(base),
            t(format!("; let mut __i{k}: usize = 0; {attr}while __i{k} < __src{k}.len(){spec} {{ {extra} let ")),
            self.se(&*f.pat),
            t(format!(" = {get}; {pre}")),
            self.s(br.start + 1..br.end - 1),
            t(format!(" __i{k} = __i{k} + 1; {extra_end} }} }}")),
        ];
        self.ed.push(whole, segs);
    }

    fn explicit_for(&self, base: &str) -> bool {
        self.explicit_loops && base.ends_with("members")
    }

    fn method_call(&mut self, e: &Expr, m: &syn::ExprMethodCall) {
        let name = m.method.to_string();
        let whole = rg(e);
        let rename = |s: &mut Self, to: &str| {
            s.ed.push(rg(&m.method), vec![t(to)]);
            s.bump(&format!("method_{name}"));
        };
        match name.as_str() {
            "unwrap" => rename(self, "v_unwrap"),
            "expect" => {
                self.visit_expr(&m.receiver);
                let s = self.se(&*m.receiver);
                self.bump("method_expect");
                self.ed.push(whole, vec![s, t(".v_unwrap()")]);
                return;
            }
            "clone" => rename(self, "vclone"),
            "insert" if m.args.len() == 2 => rename(self, "v_insert"),
            "into" => rename(self, "v_into"),
            "into_iter" => rename(self, "v_into_iter"),
            "iter" => rename(self, "v_iter"),
            "cloned" => rename(self, "v_cloned"),
            "collect" => rename(self, "v_collect"),
            "to_string" => rename(self, "v_to_string"),
            "extend" => rename(self, "v_extend"),
            "append_all" => {
                for a in &m.args {
                    self.visit_expr(a);
                }
                self.visit_expr(&m.receiver);
                let segs = vec![t("print_all(("), self.se(&m.args[0]), t(").v_slice(), "), self.se(&*m.receiver), t(")")];
                self.bump("append_all");
                self.ed.push(whole, segs);
                return;
            }
            "map" | "filter" | "filter_map" if iterish(&m.receiver, &self.ranges) => {
                rename(self, &format!("v_{name}"));
                self.visit_expr(&m.receiver);
                for a in &m.args {
                    self.iter_closure(a);
                }
                return;
            }
            "any" | "all" | "position" | "find" if m.args.len() == 1 && self.closure_parts(&m.args[0]).is_some() => {
                rename(self, &format!("v_{name}"));
                self.visit_expr(&m.receiver);
                self.default_closure(&m.args[0], "");
                return;
            }
            "retain" if m.args.len() == 1 => {
                rename(self, "v_retain");
                self.visit_expr(&m.receiver);
                self.default_closure(&m.args[0], "");
                return;
            }
            "sort_by_key" | "sort_by" | "sort_unstable_by_key" | "sort_unstable_by" | "sort_by_cached_key" if m.args.len() == 1 && self.closure_parts(&m.args[0]).is_some() => {
                // any permutation; the order of the elements is not looked at
                self.visit_expr(&m.receiver);
                self.bump("sorted");
                let segs = vec![self.se(&*m.receiver), t(".v_sorted(0u8)")];
                self.ed.push(whole, segs);
                return;
            }
            "dedup_by_key" | "dedup_by" if m.args.len() == 1 && self.closure_parts(&m.args[0]).is_some() => {
                self.visit_expr(&m.receiver);
                self.bump("deduped");
                let segs = vec![self.se(&*m.receiver), t(".v_deduped(0u8)")];
                self.ed.push(whole, segs);
                return;
            }
            "take" | "skip" | "chain" | "zip" if m.args.len() == 1 => rename(self, &format!("v_{name}")),
            "or" if m.args.len() == 1 => {
                self.visit_expr(&m.receiver);
                self.visit_expr(&m.args[0]);
                self.bump("option_combinator");
                let segs = vec![t("v_or("), self.se(&*m.receiver), t(", "), self.se(&m.args[0]), t(")")];
                self.ed.push(whole, segs);
                return;
            }
            "is_uppercase" | "is_lowercase" | "is_alphanumeric" | "is_alphabetic" | "is_numeric" | "is_whitespace" | "is_ascii" | "is_ascii_digit" | "is_ascii_alphabetic"
            | "is_ascii_alphanumeric" | "is_ascii_uppercase" | "is_ascii_lowercase" | "is_ascii_punctuation" | "is_power_of_two"
                if m.args.is_empty() =>
            {
                self.visit_expr(&m.receiver);
                self.bump("opaque_predicate");
                let k: u32 = name.bytes().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32));
                let segs = vec![t("v_pred("), self.se(&*m.receiver), t(format!(", {k}u32)"))];
                self.ed.push(whole, segs);
                return;
            }
            "parse" if m.args.is_empty() => rename(self, "v_parse"),
            "chars" | "bytes" | "char_indices" if m.args.is_empty() => rename(self, &format!("v_{name}")),
            "split" if m.args.len() == 1 => rename(self, &format!("v_{name}")),
            "max" | "min" | "sum" if m.args.is_empty() => rename(self, &format!("v_{name}")),
            "rev" | "enumerate" if m.args.is_empty() => rename(self, &format!("v_{name}")),
            "reverse" if m.args.is_empty() => rename(self, "v_reverse"),
            "swap" if m.args.len() == 2 => rename(self, "v_swap"),
            "rotate_left" => rename(self, "v_rotate_left"),
            "starts_with" | "ends_with" | "eq_ignore_ascii_case" | "trim" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase"
            | "trim_start_matches" | "trim_end_matches" | "strip_prefix" | "strip_suffix" | "contains" => rename(self, &format!("v_{}", name.replace("to_ascii", "to"))),
            "find" if m.args.len() == 1 && !matches!(strip_paren(&m.args[0]), Expr::Closure(_)) => rename(self, "v_find_text"),
            "then" | "then_some" if m.args.len() == 1 => {
                let body = match (name.as_str(), self.closure_parts(&m.args[0])) {
                    ("then", Some((pats, body))) if pats.is_empty() => Some(body),
                    ("then_some", _) => Some(&m.args[0]),
                    _ => None,
                };
                if let Some(body) = body {
                    self.visit_expr(&m.receiver);
                    self.visit_expr(body);
                    self.bump("bool_then");
                    let segs = vec![t("(if "), self.se(&*m.receiver), t(" { Some("), self.se(body), t(") } else { None })")];
                    self.ed.push(whole, segs);
                    return;
                }
                self.problem(format!("method {name}"));
            }
            "unwrap_or_else" | "unwrap_or" | "map_or_else" | "map_or" | "unwrap_or_default" | "map" | "and_then"
            | "filter" | "or_else" | "is_some_and" | "ok_or" | "ok_or_else" => {
                if self.opt_combinator(e, m) {
                    return;
                }
                self.problem(format!("method {name}"));
            }
            _ => {}
        }
        self.visit_expr(&m.receiver);
        if let Some(tf) = &m.turbofish {
            self.visit_angle_bracketed_generic_arguments(tf);
        }
        for a in &m.args {
            self.visit_expr(a);
        }
    }

    /// a closure without contract: its result is the value of its body, which has to be an expression the specification language has too
    fn default_closure(&mut self, a: &Expr, ty: &str) {
        let Some((pats, body)) = self.closure_parts(a) else {
            self.problem("closure argument");
            return;
        };
        if pats.len() != 1 {
            self.problem("closure arity");
            return;
        }
        self.visit_expr(body);
        self.bump("default_closure");
        let ty = if ty.is_empty() { String::new() } else { format!(": {ty}") };
        let (p, bind): (Vec<Seg>, Vec<Seg>) = match pats[0] {
            Pat::Ident(i) if i.subpat.is_none() => (vec![self.se(&i.ident)], vec![]),
            Pat::Type(x) => (vec![self.se(x)], vec![]),
            x => (vec![t("__p")], vec![t("let "), self.se(x), t(" = __p; ")]),
        };
        let mut segs = vec![t("|")];
        segs.extend(p);
        segs.push(t(format!("{ty}| -> (__b: _) ensures same(__b, {{ ")));
        segs.extend(bind.clone());
        segs.extend([self.se(body), t(" }) { ")]);
        segs.extend(bind);
        segs.extend([self.se(body), t(" }")]);
        self.ed.push(rg(a), segs);
    }
    /// closures given to iterator adaptors: the sidecar has their contract
    fn iter_closure(&mut self, a: &Expr) {
        self.closures += 1;
        let n = self.closures;
        let spec = self.contract.as_ref().and_then(|c| c.closures.get(&n).cloned());
        let Some((pats, body)) = self.closure_parts(a) else {
            // a path such as ErrorMessage::to_compile_error
            if let (Expr::Path(_), Some(sp)) = (strip_paren(a), &spec) {
                let s = self.se(a);
                self.ed.push(rg(a), vec![t(format!("|__p: {}| -> (__r: {}) {} {{ ", sp.param, sp.ret, sp.spec)), s, t("(__p) }")]);
                return;
            }
            self.problem("closure argument");
            return;
        };
        let Some(sp) = spec else {
            self.default_closure(a, "");
            return;
        };
        if pats.len() != 1 {
            self.problem("closure arity");
            return;
        }
        self.visit_expr(body);
        let pat = pats[0];
        let pr = match pat {
            Pat::Type(pt) => rg(&*pt.pat),
            p => rg(p),
        };
        let segs = vec![
            t(format!("|__p: {}| -> (__r: {}) {} {{ let ", sp.param, sp.ret, sp.spec)),
            self.s(pr),
            t(" = __p; "),
            self.se(body),
            t(" }"),
        ];
        self.bump("closure_contract");
        self.ed.push(rg(a), segs);
    }

    fn opt_combinator(&mut self, e: &Expr, m: &syn::ExprMethodCall) -> bool {
        let name = m.method.to_string();
        let whole = rg(e);
        let args: Vec<&Expr> = m.args.iter().collect();
        // a closure or path applied to `v`
        let mut apply = |s: &mut Self, f: &Expr, v: Option<&str>| -> Option<Vec<Seg>> {
            match s.closure_parts(f) {
                Some((pats, body)) => {
                    s.visit_expr(body);
                    let b = s.se(body);
                    match (v, pats.len()) {
                        (None, 0) => Some(vec![b]),
                        (Some(v), 1) => {
                            let p = s.se(pats[0]);
                            Some(vec![t("{ let "), p, t(format!(" = {v}; ")), b, t(" }")])
                        }
                        _ => None,
                    }
                }
                None => match strip_paren(f) {
                    Expr::Path(_) => {
                        s.visit_expr(f);
                        let p = s.se(f);
                        Some(vec![p, t(format!("({})", v.unwrap_or("")))])
                    }
                    _ => None,
                },
            }
        };
        let (some, none): (Vec<Seg>, Vec<Seg>) = match (name.as_str(), args.len()) {
            ("unwrap_or_else", 1) => {
                let Some(b) = apply(self, args[0], None) else { return false };
                (vec![t("__v")], b)
            }
            ("unwrap_or", 1) => {
                self.visit_expr(args[0]);
                (vec![t("__v")], vec![self.se(args[0])])
            }
            ("unwrap_or_default", 0) => (vec![t("__v")], vec![t("Default::default()")]),
            ("map_or_else", 2) => {
                let Some(n) = apply(self, args[0], None) else { return false };
                let Some(s) = apply(self, args[1], Some("__v")) else { return false };
                (s, n)
            }
            ("map_or", 2) => {
                self.visit_expr(args[0]);
                let n = vec![self.se(args[0])];
                let Some(s) = apply(self, args[1], Some("__v")) else { return false };
                (s, n)
            }
            ("is_some_and", 1) => {
                let Some(s) = apply(self, args[0], Some("__v")) else { return false };
                (s, vec![t("false")])
            }
            ("map", 1) => {
                let Some(s) = apply(self, args[0], Some("__v")) else { return false };
                let mut x = vec![t("Some(")];
                x.extend(s);
                x.push(t(")"));
                (x, vec![t("None")])
            }
            ("filter", 1) => {
                let Some(s) = apply(self, args[0], Some("&__v")) else { return false };
                let mut x = vec![t("if ")];
                x.extend(s);
                x.push(t(" { Some(__v) } else { None }"));
                (x, vec![t("None")])
            }
            ("and_then", 1) => {
                let Some(s) = apply(self, args[0], Some("__v")) else { return false };
                (s, vec![t("None")])
            }
            _ => return false,
        };
        self.visit_expr(&m.receiver);
        self.bump("option_combinator");
        let mut segs = vec![t("(match "), self.se(&*m.receiver), t(" { Some(__v) => ")];
        segs.extend(some);
        segs.push(t(", None => "));
        segs.extend(none);
        segs.push(t(" })"));
        self.ed.push(whole, segs);
        true
    }

    fn string_match(&mut self, m: &syn::ExprMatch) -> bool {
        let Expr::MethodCall(mc) = strip_paren(&m.expr) else { return false };
        if mc.method != "as_str" {
            return false;
        }
        let mut segs = vec![];
        let mut closed = false;
        let recv = strip_to_string(&mc.receiver);
        let rt = self.ed.src[rg(recv)].to_string();
        let is_string = std::ptr::eq(recv, &*mc.receiver);
        for a in &m.arms {
            self.visit_expr(&a.body);
            if a.guard.is_some() {
                return false;
            }
            if let Some(lits) = str_alts(&a.pat) {
                let c: Vec<String> = lits
                    .iter()
                    .map(|l| if is_string { format!("v_str_is(&{rt}, {l})") } else { format!("{rt}.v_is({l})") })
                    .collect();
                segs.push(t(format!("if {} {{ ", c.join(" || "))));
                segs.push(self.se(&*a.body));
                segs.push(t(" } else "));
            } else {
                let bind = match &a.pat {
                    Pat::Ident(i) => format!("let {} = {rt}.as_str(); ", i.ident),
                    Pat::Wild(_) => String::new(),
                    _ => return false,
                };
                segs.push(t(format!("{{ {bind}")));
                segs.push(self.se(&*a.body));
                segs.push(t(" }"));
                closed = true;
            }
        }
        if !closed {
            return false;
        }
        self.bump("string_match");
        let mut s2 = vec![t("(")];
        s2.extend(segs);
        s2.push(t(")"));
        self.ed.push(rg(m), s2);
        true
    }

    fn slice_match(&mut self, m: &syn::ExprMatch) -> bool {
        if !m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) {
            return false;
        }
        if m.arms.len() != 2 {
            self.problem("slice match");
            return true;
        }
        let (Pat::Slice(ps), Pat::Wild(_)) = (&m.arms[0].pat, &m.arms[1].pat) else {
            self.problem("slice match");
            return true;
        };
        if ps.elems.len() != 1 {
            self.problem("slice match");
            return true;
        }
        self.visit_expr(&m.expr);
        self.visit_expr(&m.arms[0].body);
        self.visit_expr(&m.arms[1].body);
        let mut segs = vec![t("{ let __sl = "), self.se(&*m.expr), t("; if __sl.len() == 1 { match &__sl[0] { "), self.se(&ps.elems[0])];
        if let Some((_, g)) = &m.arms[0].guard {
            self.visit_expr(g);
            segs.push(t(" if "));
            segs.push(self.se(&**g));
        }
        segs.push(t(" => "));
        segs.push(self.se(&*m.arms[0].body));
        segs.push(t(", _ => "));
        segs.push(self.se(&*m.arms[1].body));
        segs.push(t(" } } else { "));
        segs.push(self.se(&*m.arms[1].body));
        segs.push(t(" } }"));
        self.bump("slice_match");
        self.ed.push(rg(m), segs);
        true
    }
}

fn strip_to_string(e: &Expr) -> &Expr {
    match strip_paren(e) {
        Expr::MethodCall(m) if m.method == "to_string" && m.args.is_empty() => &m.receiver,
        _ => e,
    }
}

fn str_alts(p: &Pat) -> Option<Vec<String>> {
    match p {
        Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(vec![s.token().to_string()]),
            _ => None,
        },
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_alts(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => str_alts(&p.pat),
        _ => None,
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for P2<'a, 'b> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.macro_edit(m);
    }
    fn visit_type(&mut self, ty: &'ast syn::Type) {
        match ty {
            syn::Type::Path(p) if last_seg(&p.path) == "Peekable" => {
                self.ed.push(rg(ty), vec![t("Peekable<IntoIter>")]);
                return;
            }
            syn::Type::ImplTrait(it) => {
                for b in &it.bounds {
                    if let syn::TypeParamBound::Trait(tb) = b {
                        let seg = tb.path.segments.last().unwrap();
                        let n = seg.ident.to_string();
                        if n == "FnMut" || n == "FnOnce" {
                            self.bump("fnmut_as_fn");
                            self.ed.push(rg(&seg.ident), vec![t("Fn")]);
                        }
                        if n == "Iterator" || n == "IntoIterator" {
                            if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                                if let Some(syn::GenericArgument::AssocType(at)) = ab.args.first() {
                                    let s = self.se(&at.ty);
                                    self.bump("impl_iterator");
                                    let h = if n == "Iterator" { "VIter<" } else { "Vec<" };
                                    self.ed.push(rg(ty), vec![t(h), s, t(">")]);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        visit::visit_type(self, ty);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let saved = self.shadow;
        for s in &b.stmts {
            self.visit_stmt(s);
            if let Stmt::Local(l) = s {
                if let Pat::Ident(i) = &l.pat {
                    let n = i.ident.to_string();
                    if self.touch.contains(&n) {
                        self.shadow += 1;
                    }
                }
            }
            // guarded matches lose the final value of `tokens` otherwise
            if !self.touch.is_empty() && self.shadow == 0 {
                let semi = matches!(s, Stmt::Local(_)) || matches!(s, Stmt::Expr(_, Some(_)));
                if semi {
                    let mut g = HasGuard(false);
                    g.visit_stmt(s);
                    if g.0 {
                        let at = rg(s).end;
                        let tt = self.touches();
                        self.ed.push(at..at, vec![t(format!(" {tt}"))]);
                    }
                }
            }
        }
        self.shadow = saved;
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let Expr::Range(_) = strip_paren(&init.expr) {
                self.ranges.insert(i.ident.to_string());
            }
        }
        if let (Pat::Type(pt), Some(init)) = (&l.pat, &l.init) {
            let ts = self.ed.src[rg(&*pt.ty)].replace(' ', "");
            if ts.starts_with("&[") {
                self.slice_tail(&init.expr);
                if ts == "&[_]" {
                    let s = self.se(&*pt.pat);
                    self.ed.push(rg(pt), vec![s]);
                }
            }
        }
        visit::visit_local(self, l);
        if let Pat::Slice(_) = &l.pat {
            self.problem("slice pattern in let");
        }
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Macro(m) => self.macro_edit(&m.mac),
            Expr::MethodCall(m) => self.method_call(e, m),
            Expr::Path(p) if self.mut_self && p.path.is_ident("self") => {
                self.ed.push(rg(e), vec![t("__self")]);
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, syn::BinOp::Eq(_));
                let ne = matches!(b.op, syn::BinOp::Ne(_));
                if eq || ne {
                    let lit: Option<Range<usize>> = if str_lit(&b.right) {
                        Some(rg(strip_paren(&b.right)))
                    } else {
                        let r = match strip_paren(&b.right) {
                            Expr::Reference(r) => strip_paren(&r.expr),
                            x => x,
                        };
                        match r {
                            Expr::Call(c)
                                if c.args.len() == 2
                                    && str_lit(&c.args[0])
                                    && matches!(&*c.func, Expr::Path(p) if last_seg(&p.path)=="new" && p.path.segments.len()>=2 && p.path.segments[p.path.segments.len()-2].ident=="Ident") =>
                            {
                                Some(rg(&c.args[0]))
                            }
                            _ => None,
                        }
                    };
                    if let Some(lit) = lit {
                        let l = strip_to_string(strip_paren(&b.left));
                        let l = match l {
                            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => &*u.expr,
                            x => x,
                        };
                        self.visit_expr(l);
                        self.bump("ident_eq_literal");
                        let segs = vec![t(if ne { "!" } else { "" }), self.se(l), t(".v_is("), self.s(lit), t(")")];
                        self.ed.push(rg(e), segs);
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Try(tr) => {
                self.visit_expr(&tr.expr);
                let tt = self.touches();
                let s = self.se(&*tr.expr);
                self.bump("question_mark");
                match self.ret {
                    RetKind::Opt => self.ed.push(
                        rg(e),
                        vec![t("(match "), s, t(format!(" {{ Some(__v) => __v, None => {{ {tt}return None; }} }})"))],
                    ),
                    RetKind::Res => self.ed.push(
                        rg(e),
                        vec![t("(match "), s, t(format!(" {{ Ok(__v) => __v, Err(__e) => {{ {tt}return Err(__e); }} }})"))],
                    ),
                    RetKind::Other => self.problem("? in other return type"),
                }
            }
            Expr::Return(r) => {
                let tt = self.touches();
                if let Some(x) = &r.expr {
                    self.visit_expr(x);
                    if self.ret_slice {
                        self.slice_tail(x);
                    }
                    let s = self.se(&**x);
                    let ann = self.ret_ann();
                    self.ed.push(rg(e), vec![t(format!("{{ let __ret{ann} = ")), s, t(format!("; {tt}return __ret; }}"))]);
                } else {
                    self.ed.push(rg(e), vec![t(format!("{{ {tt}return; }}"))]);
                }
                self.bump("return_touch");
            }
            Expr::Closure(c) => {
                // a predicate
                if c.inputs.len() == 1 {
                    self.visit_expr(&c.body);
                    let p = match &c.inputs[0] {
                        Pat::Type(pt) => rg(&*pt.pat),
                        p => rg(p),
                    };
                    let segs = vec![
                        t("|"),
                        self.s(p),
                        t(": &TokenTree| -> (__b: bool) ensures __b == ("),
                        self.se(&*c.body),
                        t(") { "),
                        self.se(&*c.body),
                        t(" }"),
                    ];
                    self.bump("predicate_closure");
                    self.ed.push(rg(e), segs);
                } else {
                    self.problem("closure");
                }
            }
            Expr::Loop(l) => {
                let n = self.loops + 1;
                let spec = self.loop_spec();
                let attr = self.loop_attr();
                self.visit_block(&l.body);
                let br = rg(&l.body);
                let ls = self.contract.as_ref().and_then(|c| c.loops.get(&n)).cloned().unwrap_or_default();
                let segs = vec![
                    t(format!("{}{attr}loop{spec} {{ {} ", ls.before, ls.body_start)),
                    self.s(br.start + 1..br.end - 1),
                    t(format!(" {} }} {}", ls.body_end, ls.after)),
                ];
                self.ed.push(rg(e), segs);
            }
            Expr::While(w) => {
                let n = self.loops + 1;
                let mut spec = self.loop_spec();
                if let Expr::Let(el) = &*w.cond {
                    // `while let Some(..) = x.next()`
                    if let Expr::MethodCall(m) = strip_paren(&el.expr) {
                        if let (true, Some(x)) = (m.method == "next", is_ident(&m.receiver)) {
                            spec = spec.replace(" decreases 0int ", &format!(" decreases {x}@.len() "));
                        }
                    }
                }
                let attr = self.loop_attr();
                self.visit_block(&w.body);
                let br = rg(&w.body);
                let ls = self.contract.as_ref().and_then(|c| c.loops.get(&n)).cloned().unwrap_or_default();
                self.bump("while_as_loop");
                let mut segs = vec![t(format!("{}{attr}loop{spec} {{ {} if ", ls.before, ls.body_start))];
                if let Expr::Let(el) = &*w.cond {
                    let pre = self.arrays_in_pat(&el.pat);
                    self.visit_expr(&el.expr);
                    segs = vec![t(format!("{}{attr}loop{spec} {{ {} match ", ls.before, ls.body_start)), self.se(&*el.expr), t(" { "), self.se(&*el.pat), t(format!(" => {{ {pre}")),
                        self.s(br.start + 1..br.end - 1), t(" }, _ => break }")];
                } else {
                    self.visit_expr(&w.cond);
                    segs.push(t("!("));
                    segs.push(self.se(&*w.cond));
                    segs.push(t(") { break; } "));
                    segs.push(self.s(br.start + 1..br.end - 1));
                }
                segs.push(t(format!(" {} }} {}", ls.body_end, ls.after)));
                self.ed.push(rg(e), segs);
            }
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::If(i) => {
                if let Expr::Let(el) = &*i.cond {
                    if matches!(&*el.pat, Pat::Slice(_)) {
                        self.problem("array pattern");
                    }
                    let pre = self.arrays_in_pat(&el.pat);
                    if !pre.is_empty() {
                        let at = rg(&i.then_branch).start + 1;
                        self.ed.push(at..at, vec![t(format!(" {pre}"))]);
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Match(m) => {
                if self.string_match(m) || self.slice_match(m) {
                    return;
                }
                for a in &m.arms {
                    let pre = self.arrays_in_pat(&a.pat);
                    if !pre.is_empty() {
                        self.visit_expr(&a.body);
                        let s = self.se(&*a.body);
                        self.ed.push(rg(&*a.body), vec![t(format!("{{ {pre}")), s, t(" }")]);
                    } else {
                        self.visit_expr(&a.body);
                    }
                    if let Some((_, g)) = &a.guard {
                        self.visit_expr(g);
                    }
                }
                self.visit_expr(&m.expr);
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    self.visit_expr(&ix.expr);
                    let base = self.se(&*ix.expr);
                    let mut segs = vec![t("v_subslice(("), base, t(").v_slice(), ")];
                    match &r.start {
                        Some(s) => {
                            self.visit_expr(s);
                            segs.push(self.se(&**s));
                        }
                        None => segs.push(t("0")),
                    }
                    segs.push(t(", "));
                    match &r.end {
                        Some(s) => {
                            self.visit_expr(s);
                            segs.push(self.se(&**s));
                        }
                        None => {
                            segs.push(t("("));
                            segs.push(self.se(&*ix.expr));
                            segs.push(t(").len()"));
                        }
                    }
                    segs.push(t(")"));
                    self.bump("range_index");
                    self.ed.push(rg(e), segs);
                    return;
                }
                if let Expr::Field(f) = &*ix.expr {
                    if let syn::Member::Named(n) = &f.member {
                        if self.punct_fields.contains(&n.to_string()) {
                            let at = rg(&*ix.expr).end;
                            self.bump("punctuated_deref");
                            self.ed.push(at..at, vec![t(".v_deref()")]);
                        }
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Reference(r) => {
                // `&x[a..b]` : the helper already returns a reference
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(_) = &*ix.index {
                        self.visit_expr(&r.expr);
                        let s = self.se(&*r.expr);
                        self.ed.push(rg(e), vec![s]);
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Range(r) => {
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    self.visit_expr(a);
                    self.visit_expr(b);
                    let segs = vec![t("v_range("), self.se(&**a), t(", "), self.se(&**b), t(")")];
                    self.bump("range");
                    self.ed.push(rg(e), segs);
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if last_seg(&p.path) == "from_iter" {
                        let seg = p.path.segments.last().unwrap();
                        self.ed.push(rg(&seg.ident), vec![t("v_from_iter")]);
                        self.bump("from_iter");
                    }
                    let l = last_seg(&p.path);
                    if p.path.segments.len() > 1 && p.path.segments.iter().any(|s| s.ident == "cmp") && (l == "min" || l == "max") {
                        self.ed.push(rg(&*c.func), vec![t(format!("v_{l}"))]);
                        self.bump("cmp_min_max");
                    }
                }
                visit::visit_expr(self, e);
            }
            _ => visit::visit_expr(self, e),
        }
    }
}

impl<'a, 'b> P2<'a, 'b> {
    fn ret_ann(&self) -> String {
        if self.ret_ty.contains("impl ") || self.ret_ty == "()" || self.ret_ty.contains('&') {
            String::new()
        } else {
            format!(": {}", self.ret_ty)
        }
    }

    fn function(
        &mut self,
        key: &str,
        sig: &'a syn::Signature,
        block: &'a syn::Block,
        side: &Sidecar,
        external: bool,
        in_trait_impl: bool,
    ) -> (bool, usize) {
        let mut contract = side.fns.get(key).cloned();
        // parameter names
        let mut actual = vec![];
        let mut pre = String::new();
        self.mut_self = false;
        self.touch.clear();
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(r) => {
                    actual.push("self".to_string());
                    if r.reference.is_none() && r.mutability.is_some() {
                        self.bump("mut_self");
                        self.mut_self = true;
                        self.ed.push(rg(r), vec![t("self")]);
                        pre.push_str("let mut __self = self; ");
                    }
                }
                syn::FnArg::Typed(p) => {
                    let n = match &*p.pat {
                        Pat::Ident(i) => {
                            let n = i.ident.to_string();
                            n
                        }
                        _ => {
                            self.problem("pattern parameter");
                            "_".into()
                        }
                    };
                    let ts = self.ed.src[rg(&*p.ty)].to_string();
                    if ts.starts_with("&mut") && (ts.contains("TokenIter") || ts.contains("Peekable") || ts.contains("TokenStream")) {
                        self.touch.push(n.clone());
                    }
                    actual.push(n);
                    self.visit_type(&p.ty);
                }
            }
        }
        let ret_text = match &sig.output {
            syn::ReturnType::Default => "()".to_string(),
            syn::ReturnType::Type(_, ty) => {
                self.ed.src[rg(&**ty)].to_string()
            }
        };
        self.ret_ty = ret_text.clone();
        self.ret_slice = ret_text.replace(' ', "").starts_with("&[") || ret_text.replace(' ', "").starts_with("&mut[");
        self.ret = if ret_text.starts_with("Option<") {
            RetKind::Opt
        } else if ret_text.starts_with("Result<") {
            RetKind::Res
        } else {
            RetKind::Other
        };
        self.loops = 0;
        self.closures = 0;
        self.shadow = 0;
        self.ranges.clear();
        self.explicit_loops = false;
        // roles
        if let Some(c) = &mut contract {
            let mut map = BTreeMap::new();
            if !c.params.is_empty() {
                if c.params.len() != actual.len() {
                    self.problem(format!("parameters of {key} changed"));
                } else {
                    for (a, b) in c.params.iter().zip(&actual) {
                        if a != b {
                            map.insert(a.clone(), b.clone());
                        }
                    }
                }
            }
            if !c.roles.is_empty() {
                let locals = collect_locals(block, self.ed.src);
                for (role, pat, nth) in &c.roles {
                    if locals.iter().any(|(n, _)| n == role) {
                        continue;
                    }
                    let c: Vec<&(String, String)> = locals.iter().filter(|(_, i)| i.replace(' ', "").contains(&pat.replace(' ', ""))).collect();
                    match c.get(*nth) {
                        Some((n, _)) => {
                            map.insert(role.clone(), n.clone());
                        }
                        None => self.problem(format!("role {role} not found")),
                    }
                }
            }
            if !map.is_empty() {
                c.rename(&map);
            }
            self.explicit_loops = c.explicit_loops;
        }
        self.contract = contract.clone();
        if let Some(c) = &contract {
            for n in c.loops.keys() {
                let _ = n;
            }
        }
        // generics bounds: Display -> VDisplay
        for g in sig.generics.type_params() {
            for b in &g.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    if last_seg(&tb.path) == "Display" {
                        self.ed.push(rg(&tb.path), vec![t("VDisplay")]);
                        self.bump("display_bound");
                    }
                }
            }
        }
        let mut s = String::new();
        s.push_str(" ");
        let fn_start = rg(sig).start;
        let mut attrs = format!("\n// @@FN {key}\n");
        if let Some(c) = &contract {
            attrs.push_str(&c.attrs);
        }
        let _ = fn_start;
        let _ = in_trait_impl;
        if let syn::ReturnType::Type(_, ty) = &sig.output {
            if let syn::Type::Never(_) = &**ty {
            } else {
                let x = self.se(&**ty);
                let r = contract.as_ref().map(|c| c.ret.clone()).unwrap_or_else(|| "r".into());
                self.ed.push(rg(&**ty), vec![t(format!("({r}: ")), x, t(")")]);
                self.visit_type(ty);
            }
        }
        let spec = contract.as_ref().map(|c| c.render_spec()).unwrap_or_default();
        // body
        let br = rg(block);
        if external {
            self.ed.push(br, vec![t(format!("{spec} {{ crate::proc_macro2::vx_aside() }}"))]);
            return (contract.is_some(), 0);
        }
        self.visit_block(block);
        let (mut start, end) = contract.as_ref().map(|c| (c.start.clone(), c.end.clone())).unwrap_or_default();
        if contract.is_some() {
            // the names of the types the body builds or takes apart (`Item::Struct(x)` is neither)
            let text = &self.ed.src[br.clone()];
            let mut words: std::collections::BTreeSet<&str> = Default::default();
            let mut at = 0;
            for w in text.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                let before = &text[..at];
                at = w.as_ptr() as usize - text.as_ptr() as usize;
                let before = if before.len() <= at { &text[..at] } else { before };
                if !before.ends_with("::") || before.ends_with("types::") {
                    words.insert(w);
                }
            }
            for w in words {
                if side.opaque(w) && !key.ends_with("::to_tokens") {
                    start.push_str(&format!(" proof {{ reveal(toks_{w}); }}"));
                }
            }
        }
        if let Some(ty) = key.strip_prefix('<').and_then(|k| k.strip_suffix(" as ToTokens>::to_tokens")) {
            if side.opaque(ty) {
                start.push_str(&format!(" proof {{ reveal(toks_{ty}); }}"));
            }
        }
        let tt = self.touches();
        let mut segs = vec![t(format!("{spec} {{ {start} {pre}"))];
        match block.stmts.last() {
            Some(Stmt::Expr(e, None)) if ret_text != "()" => {
                if self.ret_slice {
                    self.slice_tail(e);
                }
                let er = rg(e);
                segs.push(self.s(br.start + 1..er.start));
                let ann = self.ret_ann();
                segs.push(t(format!(" let __ret{ann} = ")));
                segs.push(self.s(er.clone()));
                segs.push(t(format!("; {tt} {end} __ret ")));
                segs.push(self.s(er.end..br.end - 1));
            }
            Some(Stmt::Macro(m)) if m.semi_token.is_none() && ret_text != "()" => {
                let er = rg(m);
                segs.push(self.s(br.start + 1..er.start));
                segs.push(t(" let __ret = "));
                segs.push(self.s(er.clone()));
                segs.push(t(format!("; {tt} {end} __ret ")));
                segs.push(self.s(er.end..br.end - 1));
            }
            Some(Stmt::Expr(e, None)) => {
                let er = rg(e);
                segs.push(self.s(br.start + 1..er.end));
                segs.push(t(format!("; {tt} {end} ")));
                segs.push(self.s(er.end..br.end - 1));
            }
            _ => {
                segs.push(self.s(br.start + 1..br.end - 1));
                segs.push(t(format!(" {tt} {end} ")));
            }
        }
        segs.push(t("}"));
        self.ed.push(br, segs);
        if let Some(c) = &contract {
            let n = self.loops;
            if c.loops.len() > n {
                self.problem(format!("{} loops expected, {} found", c.loops.len(), n));
            }
        }
        (contract.is_some(), self.loops)
    }
}

fn collect_locals(b: &syn::Block, src: &str) -> Vec<(String, String)> {
    struct L<'s>(Vec<(String, String)>, &'s str);
    impl<'s, 'ast> Visit<'ast> for L<'s> {
        fn visit_local(&mut self, l: &'ast syn::Local) {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let Pat::Ident(i) = p {
                let init = l.init.as_ref().map(|x| self.1[rg(&*x.expr)].to_string()).unwrap_or_default();
                self.0.push((i.ident.to_string(), init));
            }
            visit::visit_local(self, l);
        }
    }
    let mut l = L(vec![], src);
    l.visit_block(b);
    l.0
}

pub fn pass_render(
    m: &Module,
    side: &Sidecar,
    external: &BTreeSet<String>,
    drop: &BTreeSet<String>,
    punct_fields: &BTreeSet<String>,
    counts: &mut Counts,
    reports: &mut Vec<FnReport>,
) -> Result<String, String> {
    let f: &'static syn::File = Box::leak(Box::new(syn::parse_file(&m.src).map_err(|e| format!("{}: {e}", m.name))?));
    let mut p = P2 {
        ed: Editor::new(Box::leak(m.src.clone().into_boxed_str())),
        counts,
        problems: vec![],
        touch: vec![],
        shadow: 0,
        ret: RetKind::Other,
        mut_self: false,
        ret_ty: String::new(),
        loops: 0,
        closures: 0,
        ranges: BTreeSet::new(),
        contract: None,
        explicit_loops: false,
        arr: 0,
        ret_slice: false,
        punct_fields,
    };
    let one = |p: &mut P2, key: String, sig: &'static syn::Signature, block: &'static syn::Block, whole: Range<usize>, tr: bool, reports: &mut Vec<FnReport>| {
        if drop.contains(&key) {
            p.ed.push(whole, vec![]);
            return;
        }
        p.problems.clear();
        let ext = external.contains(&key);
        let (mut c, loops) = p.function(&key, sig, block, side, ext, tr);
        // the contract is the one of the trait
        c |= key.ends_with(" as VClone>::vclone");
        let mut problems: Vec<String> = std::mem::take(&mut p.problems);
        problems.retain(|x| x != "MUTSELF");
        let at = whole.start;
        let mut attrs = format!("\n// @@FN {key}\n");
        if let Some(c) = side.fns.get(&key) {
            attrs.push_str(&c.attrs);
            attrs.push(' ');
        }
        p.ed.push(at..at, vec![t(attrs)]);
        let line = m.src[..whole.start].matches('\n').count() + 1;
        reports.push(FnReport { key, module: m.name.clone(), contract: c, problems, loops, line, external: ext });
    };
    for it in &f.items {
        match it {
            syn::Item::Fn(x) => one(&mut p, x.sig.ident.to_string(), &x.sig, &x.block, rg(it), false, reports),
            syn::Item::Impl(i) => {
                let ty = ty_name(&i.self_ty);
                let tr = i.trait_.as_ref().map(|(_, p, _)| last_seg(p));
                if tr.as_deref() == Some("ToTokens") {
                    let at = rg(&i.brace_token.span.open()).end;
                    match side.toks.get(&ty) {
                        Some(s) if side.opaque(&ty) => {
                            let is = rg(it).start;
                            let (_, g, _) = i.generics.split_for_impl();
                            let _ = g;
                            let body = crate::passes::replace_word(s, "self", "s_");
                            p.ed.push(is..is, vec![t(format!("#[verifier::opaque] pub open spec fn toks_{ty}(s_: &{ty}) -> Seq<TokenTree> {{ {body} }}\n"))]);
                            p.ed.push(at..at, vec![t(format!("\n open spec fn toks(&self) -> Seq<TokenTree> {{ toks_{ty}(self) }}\n"))]);
                        }
                        Some(s) => p.ed.push(
                            at..at,
                            vec![t(format!("\n open spec fn toks(&self) -> Seq<TokenTree> {{ {s} }}\n"))],
                        ),
                        None => p.ed.push(at..at, vec![t("\n uninterp spec fn toks(&self) -> Seq<TokenTree>;\n")]),
                    }
                }
                for ii in &i.items {
                    if let syn::ImplItem::Fn(x) = ii {
                        let k = fn_key(Some(&ty), tr.as_deref(), &x.sig.ident.to_string());
                        one(&mut p, k, &x.sig, &x.block, rg(ii), tr.is_some(), reports);
                    }
                }
            }
            syn::Item::Use(u) => {
                let mut leaves = vec![];
                use_leaves(&u.tree, String::new(), &mut leaves);
                let vis = if matches!(u.vis, syn::Visibility::Inherited) { "" } else { "pub " };
                let mut o = String::new();
                for l in leaves {
                    let name = l.rsplit("::").next().unwrap_or("").to_string();
                    if !drop.contains(&name) {
                        o.push_str(&format!("{vis}use {l}; "));
                    }
                }
                p.ed.push(rg(it), vec![t(o)]);
            }
            syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Type(_) => {
                p.visit_item(it);
            }
            _ => {}
        }
    }
    let _ = str_lit;
    Ok(p.ed.render_all())
}

fn use_leaves(u: &syn::UseTree, pre: String, out: &mut Vec<String>) {
    match u {
        syn::UseTree::Path(p) => use_leaves(&p.tree, format!("{pre}{}::", p.ident), out),
        syn::UseTree::Name(n) => out.push(format!("{pre}{}", n.ident)),
        syn::UseTree::Rename(n) => out.push(format!("{pre}{} as {}", n.ident, n.rename)),
        syn::UseTree::Glob(_) => out.push(format!("{pre}*")),
        syn::UseTree::Group(g) => {
            for x in &g.items {
                use_leaves(x, pre.clone(), out);
            }
        }
    }
}

/// The `continue`s of the loop with this body (none of a nested loop or closure).
fn continues_of(b: &syn::Block) -> Vec<Range<usize>> {
    struct C(Vec<Range<usize>>);
    impl<'a> Visit<'a> for C {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Continue(c) if c.label.is_none() => self.0.push(rg(e)),
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut c = C(vec![]);
    c.visit_block(b);
    c.0
}
