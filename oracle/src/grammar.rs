//! GENERATED by tools/mkgrammar.py from verus/strict/grammar.rs and verus/specs.rs; do not edit.
#![allow(dead_code, unused_parens)]
use proc_macro2::{Delimiter, TokenStream, TokenTree};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    Group,
    Ident,
    Punct,
    Literal,
}
/// a token tree, with its contents in place
pub struct TT {
    k: K,
    txt: String,
    ch: char,
    joint: bool,
    delim: Delimiter,
    kids: Vec<TT>,
    w: usize,
}
impl TT {
    fn is(&self, k: K) -> bool {
        self.k == k
    }
    fn s_is(&self, s: &str) -> bool {
        self.txt == s
    }
    fn inner(&self) -> S<'_> {
        S(&self.kids)
    }
}
pub fn trees(ts: impl IntoIterator<Item = TokenTree>) -> Vec<TT> {
    ts.into_iter()
        .map(|t| {
            let mut x = TT { k: K::Literal, txt: String::new(), ch: '\0', joint: false, delim: Delimiter::None, kids: vec![], w: 1 };
            match t {
                TokenTree::Group(g) => {
                    x.k = K::Group;
                    x.delim = g.delimiter();
                    x.kids = trees(g.stream());
                    x.w = 1 + x.kids.iter().map(|y| y.w).sum::<usize>();
                }
                TokenTree::Ident(i) => {
                    x.k = K::Ident;
                    x.txt = i.to_string();
                }
                TokenTree::Punct(p) => {
                    x.k = K::Punct;
                    x.ch = p.as_char();
                    x.joint = p.spacing() == proc_macro2::Spacing::Joint;
                }
                TokenTree::Literal(_) => (),
            }
            x
        })
        .collect()
}
#[derive(Clone, Copy)]
pub struct S<'a>(pub &'a [TT]);
impl<'a> S<'a> {
    pub fn len(self) -> usize {
        self.0.len()
    }
    fn skip(self, n: usize) -> S<'a> {
        S(&self.0[n.min(self.0.len())..])
    }
}
type Pr = fn(&TT) -> bool;
fn hd(s: S<'_>) -> &TT {
    &s.0[0]
}
fn weight(s: S<'_>) -> usize {
    s.0.iter().map(|x| x.w).sum()
}
/// (tokens left, an enum value of several tokens is met), or None when it is not a supported declaration
pub fn accepts(ts: &TokenStream) -> Option<(usize, bool)> {
    let v = trees(ts.clone());
    g_item(S(&v)).map(|(r, c)| (r.len(), c))
}
pub fn is_p(t: &TT, c: char) -> bool { t.is(K::Punct) && t.ch == c }
pub fn is_i(t: &TT, s: &str) -> bool { t.is(K::Ident) && t.s_is(s) }
pub fn is_g(t: &TT, d: Delimiter) -> bool { t.is(K::Group) && t.delim == d }
pub fn p0(s: S<'_>, c: char) -> bool { s.len() > 0 && is_p(hd(s), c) }
pub fn i0(s: S<'_>, w: &str) -> bool { s.len() > 0 && is_i(hd(s), w) }
pub fn g0(s: S<'_>, d: Delimiter) -> bool { s.len() > 0 && is_g(hd(s), d) }
pub fn colon2(s: S<'_>) -> bool {
    s.len() >= 2 && is_p(hd(s), ':') && hd(s).joint && is_p(hd(s.skip(1)), ':')
}
pub fn scan(s: S<'_>, p: Pr, depth: i64, dash: bool) -> usize {
    if s.len() == 0 { 0 } else {
        let t = hd(s);
        let rest = s.skip(1);
        if is_p(t, '<') { 1 + scan(rest, p, depth + 1, false) }
        else if is_p(t, '>') && dash { 1 + scan(rest, p, depth, false) }
        else if is_p(t, '>') { if depth - 1 < 0 { 0 } else { 1 + scan(rest, p, depth - 1, false) } }
        else if is_p(t, '-') { 1 + scan(rest, p, depth, true) }
        else if p(t) && depth == 0 { 0 }
        else { 1 + scan(rest, p, depth, false) }
    }
}
pub fn scan0(s: S<'_>, p: Pr) -> usize { scan(s, p, 0, false) }
pub fn lhs_len(s: S<'_>) -> usize {
    let k = scan0(s, pr_colon());
    if k + 2 <= s.len() && colon2(s.skip(k)) { k + 2 + lhs_len(s.skip(k + 2)) } else { k }
}
pub fn vis_restr(g: &TT) -> bool {
    g.delim == Delimiter::Parenthesis && g.inner().len() > 0 && (is_i(hd(g.inner()), "in")
        || (g.inner().len() == 1 && (is_i(hd(g.inner()), "crate") || is_i(hd(g.inner()), "self") || is_i(hd(g.inner()), "super"))))
}
pub fn vis0(s: S<'_>) -> bool { i0(s, "pub") || (i0(s, "crate") && !colon2(s.skip(1))) }
pub fn pr_comma() -> Pr { |t: &TT| is_p(t, ',') }
pub fn pr_comma_gt() -> Pr { |t: &TT| is_p(t, ',') || is_p(t, '>') }
pub fn pr_colon() -> Pr { |t: &TT| is_p(t, ':') }
pub fn pr_semi() -> Pr { |t: &TT| is_p(t, ';') }
pub fn pr_eq_semi() -> Pr { |t: &TT| is_p(t, '=') || is_p(t, ';') }
pub fn pr_where_end() -> Pr { |t: &TT| is_p(t, ',') || is_g(t, Delimiter::Brace) || is_p(t, ';') }
pub fn pr_ret_end() -> Pr { |t: &TT| is_g(t, Delimiter::Brace) || is_i(t, "where") || is_p(t, ';') }
pub fn pr_for_where() -> Pr { |t: &TT| is_g(t, Delimiter::Brace) || is_i(t, "for") || is_i(t, "where") }
pub fn pr_where() -> Pr { |t: &TT| is_g(t, Delimiter::Brace) || is_i(t, "where") }
// ---- the supported grammar --------------------------------------------------------------------
// Each `g_x(s)` is the rest of `s` after one `x` at its front, or None when `s` does not start with a supported `x`.
// `ok_x(s)` says that all of `s` is an `x`.  The comparisons of lengths or weights in front of recursive calls always
// hold (a part is shorter than the whole); they are there for the termination of the definitions.
pub fn id0(s: S<'_>) -> bool { s.len() > 0 && hd(s).is(K::Ident) }
pub fn lit0(s: S<'_>) -> bool { s.len() > 0 && hd(s).is(K::Literal) }
pub fn in0(s: S<'_>) -> S<'_> { hd(s).inner() }
pub fn opt<'a>(s: S<'a>, w: &str) -> S<'a> { if i0(s, w) { s.skip(1) } else { s } }
pub fn optp(s: S<'_>, c: char) -> S<'_> { if p0(s, c) { s.skip(1) } else { s } }
/// the rest after a scan which has to end at a separator
pub fn g_until(s: S<'_>, p: Pr) -> Option<S<'_>> {
    let w = after(s, p);
    if w.len() > 0 && p(hd(w)) && !is_p(hd(w), '>') { Some(w) } else { None }
}
pub fn after(s: S<'_>, p: Pr) -> S<'_> { s.skip(scan0(s, p)) }

/// contents of the brackets of an attribute: a path, then nothing, one group, or `=` and anything
pub fn ok_attr(s: S<'_>) -> bool {
    if s.len() == 0 { true }
    else if hd(s).is(K::Group) { s.len() == 1 }
    else if is_p(hd(s), '=') { true }
    else if hd(s).is(K::Ident) || is_p(hd(s), ':') { ok_attr(s.skip(1)) }
    else { false }
}
pub fn g_attrs(s: S<'_>, inner: bool) -> Option<S<'_>> {
    if !p0(s, '#') { Some(s) }
    else if inner {
        let t = s.skip(1);
        if p0(t, '!') {
            let u = t.skip(1);
            if g0(u, Delimiter::Bracket) && ok_attr(in0(u)) { g_attrs(u.skip(1), inner) } else { None }
        } else if g0(t, Delimiter::Bracket) { Some(s) } else { None }
    } else {
        let t = s.skip(1);
        if g0(t, Delimiter::Bracket) && ok_attr(in0(t)) { g_attrs(t.skip(1), inner) } else { None }
    }
}
pub fn g_vis(s: S<'_>) -> S<'_> {
    if i0(s, "pub") {
        let t = s.skip(1);
        if t.len() > 0 && hd(t).is(K::Group) && vis_restr(hd(t)) { t.skip(1) } else { t }
    } else if vis0(s) { s.skip(1) } else { s }
}
/// generic parameters after `<`, with the closing `>`
pub fn g_gparams(s: S<'_>) -> Option<S<'_>> {
    if s.len() == 0 { None }
    else if p0(s, '>') { Some(s.skip(1)) }
    else {
        let t = if p0(s, '\'') || i0(s, "const") { s.skip(1) } else { s };
        let u = t.skip(1);
        if !id0(t) || u.len() == 0 { None }
        else {
            match g_bound(u, pr_comma_gt()) {
                None => None,
                Some(w) =>
                    if p0(w, ',') { if w.skip(1).len() < s.len() { g_gparams(w.skip(1)) } else { None } }
                    else if p0(w, '>') { Some(w.skip(1)) }
                    else { None },
            }
        }
    }
}
pub fn g_generics(s: S<'_>) -> Option<S<'_>> { if p0(s, '<') { g_gparams(s.skip(1)) } else { Some(s) } }
pub fn g_preds(s: S<'_>) -> Option<S<'_>> {
    if s.len() == 0 { None }
    else if g0(s, Delimiter::Brace) || p0(s, ';') { Some(s) }
    else {
        let u = s.skip(lhs_len(s));
        if !p0(u, ':') { None } else {
            match g_until(u.skip(1), pr_where_end()) {
                None => None,
                Some(w) => if p0(w, ',') { if w.skip(1).len() < s.len() { g_preds(w.skip(1)) } else { None } } else { Some(w) },
            }
        }
    }
}
pub fn g_where(s: S<'_>) -> Option<S<'_>> { if i0(s, "where") { g_preds(s.skip(1)) } else { Some(s) } }
/// `:` and a bound up to one of the separators, or a separator right away
pub fn g_bound(s: S<'_>, p: Pr) -> Option<S<'_>> {
    if p0(s, ':') { Some(after(s.skip(1), p)) } else if s.len() > 0 && p(hd(s)) { Some(s) } else { None }
}
pub fn list_end(e: S<'_>) -> bool { e.len() == 0 || p0(e, ',') }
pub fn ok_tfields(s: S<'_>) -> bool {
    if s.len() == 0 { true } else {
        match g_attrs(s, false) {
            None => false,
            Some(a) => {
                let v = g_vis(a);
                let e = after(v, pr_comma());
                scan0(v, pr_comma()) > 0 && list_end(e) && optp(e, ',').len() < s.len() && ok_tfields(optp(e, ','))
            }
        }
    }
}
pub fn ok_nfields(s: S<'_>) -> bool {
    if s.len() == 0 { true } else {
        match g_attrs(s, false) {
            None => false,
            Some(a) => {
                let v = g_vis(a);
                let t = v.skip(1).skip(1);
                let e = after(t, pr_comma());
                id0(v) && p0(v.skip(1), ':') && scan0(t, pr_comma()) > 0 && list_end(e) && optp(e, ',').len() < s.len() && ok_nfields(optp(e, ','))
            }
        }
    }
}
/// None: not supported; Some(c): supported, c = a value of several tokens is met
pub fn ok_variants(s: S<'_>) -> Option<bool> {
    if s.len() == 0 { Some(false) } else {
        match g_attrs(s, false) {
            None => None,
            Some(a) => {
                let v = g_vis(a);
                let t = v.skip(1);
                let u = if g0(t, Delimiter::Parenthesis) || g0(t, Delimiter::Brace) { t.skip(1) } else { t };
                let e = if p0(u, '=') { u.skip(1).skip(1) } else { u };
                if !id0(v) || (g0(t, Delimiter::Parenthesis) && !ok_tfields(in0(t))) || (g0(t, Delimiter::Brace) && !ok_nfields(in0(t)))
                    || (p0(u, '=') && u.skip(1).len() == 0) || (!p0(u, '=') && !list_end(u)) { None }
                else if !list_end(e) { Some(true) }
                else if optp(e, ',').len() < s.len() { ok_variants(optp(e, ',')) } else { None }
            }
        }
    }
}
pub fn g_life(s: S<'_>) -> Option<S<'_>> {
    if !p0(s, '\'') { Some(s) } else if id0(s.skip(1)) { Some(s.skip(1).skip(1)) } else { None }
}
/// one parameter of a function, without its attributes
pub fn g_param(a: S<'_>) -> Option<S<'_>> {
    match g_life(optp(a, '&')) {
        None => None,
        Some(c) => {
            let d = opt(c, "mut");
            let t = d.skip(1).skip(1);
            if i0(d, "self") && !p0(d.skip(1), ':') { Some(d.skip(1)) }
            else if p0(a, '&') || p0(a, '\'') || !id0(d) || !p0(d.skip(1), ':') || scan0(t, pr_comma()) == 0 { None }
            else { Some(after(t, pr_comma())) }
        }
    }
}
pub fn ok_params(s: S<'_>) -> bool {
    if s.len() == 0 { true } else {
        match g_attrs(s, false) {
            None => false,
            Some(a) => match g_param(a) {
                None => false,
                Some(e) => list_end(e) && optp(e, ',').len() < s.len() && ok_params(optp(e, ',')),
            },
        }
    }
}
pub fn g_ret(s: S<'_>) -> Option<S<'_>> {
    if !p0(s, '-') { Some(s) } else if p0(s.skip(1), '>') { g_until(s.skip(1).skip(1), pr_ret_end()) } else { None }
}
// qualifiers: default const async unsafe extern "abi"
pub fn q1(s: S<'_>) -> S<'_> { opt(s, "default") }
pub fn q2(s: S<'_>) -> S<'_> { opt(q1(s), "const") }
pub fn q3(s: S<'_>) -> S<'_> { opt(q2(s), "async") }
pub fn q4(s: S<'_>) -> S<'_> { opt(q3(s), "unsafe") }
pub fn q5(s: S<'_>) -> S<'_> {
    if i0(q4(s), "extern") { let e = q4(s).skip(1); if lit0(e) { e.skip(1) } else { e } } else { q4(s) }
}
pub fn q_xor(s: S<'_>) -> bool {
    i0(q1(s), "const") != i0(q3(s), "unsafe") && !i0(s, "default") && !i0(q2(s), "async") && !i0(q4(s), "extern")
}
/// what the qualifiers are followed by: 1 fn, 2 extern crate, 3 static, 4 const, 5 trait, 6 impl, 7 mod, 8 extern block, 0 anything else
pub fn q_kind(s: S<'_>) -> i64 {
    let q = q5(s);
    if i0(q, "fn") { 1 }
    else if i0(q4(s), "extern") && i0(q, "crate") { 2 }
    else if i0(q, "static") { 3 }
    else if id0(q) && q_xor(s) {
        if i0(q1(s), "const") { 4 } else if i0(q, "trait") { 5 } else if i0(q, "impl") { 6 } else if i0(q, "mod") { 7 } else { 0 }
    }
    else if i0(q4(s), "extern") && g0(q, Delimiter::Brace) { 8 }
    else { 0 }
}
/// a function after its `fn` keyword
pub fn g_sig(t: S<'_>) -> Option<S<'_>> {
    if !id0(t) { None } else {
        match g_generics(t.skip(1)) {
            None => None,
            Some(p) => if !g0(p, Delimiter::Parenthesis) || !ok_params(in0(p)) { None } else {
                match g_ret(p.skip(1)) {
                    None => None,
                    Some(r) => match g_where(r) {
                        None => None,
                        Some(b) => if g0(b, Delimiter::Brace) || p0(b, ';') { Some(b.skip(1)) } else { None },
                    },
                }
            },
        }
    }
}
pub fn g_const(s: S<'_>) -> Option<S<'_>> {
    let m = s.skip(1);
    let n = opt(m, "mut");
    let c = n.skip(1);
    if !(i0(s, "const") || i0(s, "static")) || (i0(s, "const") && i0(m, "mut")) || !id0(n) || !p0(c, ':') { None } else {
        match g_until(c.skip(1), pr_eq_semi()) {
            None => None,
            Some(u) => if p0(u, ';') { Some(u.skip(1)) } else { g_value(u.skip(1)) },
        }
    }
}
/// a value up to its semicolon, whatever it contains
pub fn g_value(s: S<'_>) -> Option<S<'_>> {
    if s.len() == 0 { None } else if p0(s, ';') { Some(s.skip(1)) } else { g_value(s.skip(1)) }
}
pub fn g_type(s: S<'_>) -> Option<S<'_>> {
    let n = s.skip(1);
    if !i0(s, "type") || !id0(n) { None } else {
        match g_bound(n.skip(1), pr_eq_semi()) {
            None => None,
            Some(u) => if p0(u, ';') { Some(u.skip(1)) } else if p0(u, '=') {
                match g_until(u.skip(1), pr_semi()) { None => None, Some(w) => Some(w.skip(1)) }
            } else { None },
        }
    }
}
pub fn g_macro(s: S<'_>) -> Option<S<'_>> {
    if !id0(s) || !p0(s.skip(1), '!') { None } else {
        let t = s.skip(1).skip(1);
        let u = if id0(t) { t.skip(1) } else { t };
        if g0(u, Delimiter::Parenthesis) { if p0(u.skip(1), ';') { Some(u.skip(1).skip(1)) } else { None } }
        else if g0(u, Delimiter::Brace) { Some(u.skip(1)) }
        else { None }
    }
}
pub fn fn_kw(s: S<'_>) -> bool {
    i0(s, "default") || i0(s, "const") || i0(s, "static") || i0(s, "async") || i0(s, "unsafe") || i0(s, "extern") || i0(s, "fn")
}
/// a member of an implementation, a trait or an extern block, after its attributes and visibility
pub fn g_member(s: S<'_>, vis: bool, statics: bool) -> Option<S<'_>> {
    if i0(s, "type") { g_type(s) }
    else if fn_kw(s) {
        let k = q_kind(s);
        if k == 1 { g_sig(q5(s).skip(1)) }
        else if k == 4 { g_const(s) }
        else if k == 3 && statics && i0(s, "static") { g_const(s) }
        else { None }
    } else if vis { None } else { g_macro(s) }
}
pub fn ok_members(s: S<'_>, statics: bool) -> bool {
    if s.len() == 0 { true } else {
        match g_attrs(s, false) {
            None => false,
            Some(a) => match g_member(g_vis(a), vis0(a), statics) {
                None => false,
                Some(e) => e.len() < s.len() && ok_members(e, statics),
            },
        }
    }
}
pub fn ok_body(s: S<'_>, statics: bool) -> bool {
    match g_attrs(s, true) { None => false, Some(t) => ok_members(t, statics) }
}
pub fn g_braces(s: S<'_>, statics: bool) -> Option<S<'_>> {
    if g0(s, Delimiter::Brace) && ok_body(in0(s), statics) { Some(s.skip(1)) } else { None }
}
pub fn g_trait(s: S<'_>) -> Option<S<'_>> {
    let t = opt(s, "unsafe");
    if !i0(t, "trait") || !id0(t.skip(1)) { None } else {
        match g_generics(t.skip(1).skip(1)) {
            None => None,
            Some(u) => match g_bound(u, pr_where()) {
                None => None,
                Some(w) => match g_where(w) { None => None, Some(b) => g_braces(b, false) },
            },
        }
    }
}
pub fn g_impl(s: S<'_>) -> Option<S<'_>> {
    let t = opt(s, "unsafe");
    if !i0(t, "impl") { None } else {
        match g_generics(t.skip(1)) {
            None => None,
            Some(u) => match g_until(u, pr_for_where()) {
                None => None,
                Some(x) => match (if i0(x, "for") { g_until(x.skip(1), pr_where()) } else { Some(x) }) {
                    None => None,
                    Some(w) => match g_where(w) { None => None, Some(b) => g_braces(b, false) },
                },
            },
        }
    }
}
pub fn g_use(s: S<'_>) -> Option<S<'_>> {
    if !i0(s, "use") { None } else { match g_until(s.skip(1), pr_semi()) { None => None, Some(w) => Some(w.skip(1)) } }
}
pub fn g_xcrate(s: S<'_>) -> Option<S<'_>> {
    let t = s.skip(1).skip(1);
    let u = t.skip(1);
    let w = if i0(u, "as") { u.skip(1).skip(1) } else { u };
    if i0(s, "extern") && i0(s.skip(1), "crate") && id0(t) && (!i0(u, "as") || id0(u.skip(1))) && p0(w, ';') { Some(w.skip(1)) } else { None }
}
pub fn g_xblock(s: S<'_>) -> Option<S<'_>> {
    let t = opt(s, "unsafe");
    let u = t.skip(1);
    if !i0(t, "extern") { None } else { g_braces(if lit0(u) { u.skip(1) } else { u }, true) }
}
pub fn g_struct(s: S<'_>) -> Option<S<'_>> {
    if !id0(s.skip(1)) { None } else {
        match g_generics(s.skip(1).skip(1)) {
            None => None,
            Some(p) => match g_where(p) {
                None => None,
                Some(b) => if p0(b, ';') { Some(b.skip(1)) }
                    else if g0(b, Delimiter::Brace) { if ok_nfields(in0(b)) { Some(b.skip(1)) } else { None } }
                    else if g0(b, Delimiter::Parenthesis) && !i0(p, "where") && ok_tfields(in0(b)) {
                        match g_where(b.skip(1)) { None => None, Some(x) => Some(optp(x, ';')) }
                    } else { None },
            },
        }
    }
}
/// name, generic parameters and where clause, up to the braces
pub fn g_head(s: S<'_>) -> Option<S<'_>> {
    if !id0(s) { None } else {
        match g_generics(s.skip(1)) { None => None, Some(p) => match g_where(p) { None => None, Some(b) => if g0(b, Delimiter::Brace) { Some(b) } else { None } } }
    }
}
pub fn g_enum(s: S<'_>) -> Option<(S<'_>, bool)> {
    match g_head(s.skip(1)) { None => None, Some(b) => match ok_variants(in0(b)) { None => None, Some(c) => Some((b.skip(1), c)) } }
}
pub fn g_union(s: S<'_>) -> Option<S<'_>> {
    match g_head(s.skip(1)) { None => None, Some(b) => if ok_nfields(in0(b)) { Some(b.skip(1)) } else { None } }
}
pub fn rst(x: Option<(S<'_>, bool)>) -> S<'_> { match x { Some(p) => p.0, None => S(&[]) } }
pub fn cx(x: Option<(S<'_>, bool)>) -> bool { match x { Some(p) => p.1, None => false } }
pub fn plain(x: Option<S<'_>>) -> Option<(S<'_>, bool)> { match x { Some(s) => Some((s, false)), None => None } }
/// the rest after a module, and whether an enum value of several tokens is met in it
pub fn g_mod(s: S<'_>) -> Option<(S<'_>, bool)> {
    let t = opt(s, "unsafe");
    let b = t.skip(1).skip(1);
    if !i0(t, "mod") || !id0(t.skip(1)) { None }
    else if p0(b, ';') { Some((b.skip(1), false)) }
    else if g0(b, Delimiter::Brace) {
        match g_attrs(in0(b), true) {
            None => None,
            Some(x) => if weight(x) < weight(s) { match ok_items(x) { None => None, Some(c) => Some((b.skip(1), c)) } } else { None },
        }
    } else { None }
}
/// an item which starts with a qualifier or `type`, after its attributes and visibility
pub fn g_either(s: S<'_>, vis: bool) -> Option<(S<'_>, bool)> {
    if i0(s, "type") { plain(g_type(s)) }
    else if fn_kw(s) {
        let k = q_kind(s);
        if k == 5 { plain(g_trait(s)) }
        else if k == 6 { if vis { None } else { plain(g_impl(s)) } }
        else if k == 7 { g_mod(s) }
        else if k == 8 { plain(g_xblock(s)) }
        else if k == 2 { plain(g_xcrate(s)) }
        else { plain(g_member(s, vis, true)) }
    } else { plain(g_member(s, vis, true)) }
}
pub fn g_item(s: S<'_>) -> Option<(S<'_>, bool)> {
    match g_attrs(s, false) {
        None => None,
        Some(a) => {
            let v = g_vis(a);
            if weight(v) > weight(s) { None }
            else if i0(v, "struct") { plain(g_struct(v)) }
            else if i0(v, "enum") { g_enum(v) }
            else if i0(v, "union") { plain(g_union(v)) }
            else if i0(v, "mod") { g_mod(v) }
            else if i0(v, "trait") { plain(g_trait(v)) }
            else if i0(v, "impl") { if vis0(a) { None } else { plain(g_impl(v)) } }
            else if i0(v, "use") { plain(g_use(v)) }
            else if i0(v, "static") { plain(g_const(v)) }
            else { g_either(v, vis0(a)) }
        }
    }
}
pub fn ok_items(s: S<'_>) -> Option<bool> {
    if s.len() == 0 { Some(false) } else {
        match g_item(s) {
            None => None,
            Some((r, c)) => if c { Some(true) } else if weight(r) < weight(s) { ok_items(r) } else { None },
        }
    }
}
