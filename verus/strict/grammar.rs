// ---- the supported grammar --------------------------------------------------------------------
// Each `g_x(s)` is the rest of `s` after one `x` at its front, or None when `s` does not start with a supported `x`.
// `ok_x(s)` says that all of `s` is an `x`.  The comparisons of lengths or weights in front of recursive calls always
// hold (a part is shorter than the whole); they are there for the termination of the definitions.
pub open spec fn id0(s: Seq<TT>) -> bool { s.len() > 0 && hd(s) is Ident }
pub open spec fn lit0(s: Seq<TT>) -> bool { s.len() > 0 && hd(s) is Literal }
pub open spec fn in0(s: Seq<TT>) -> Seq<TT> { hd(s)->Group_0.inner@ }
pub open spec fn opt(s: Seq<TT>, w: &str) -> Seq<TT> { if i0(s, w) { s.skip(1) } else { s } }
pub open spec fn optp(s: Seq<TT>, c: char) -> Seq<TT> { if p0(s, c) { s.skip(1) } else { s } }
/// the rest after a scan which has to end at a separator
pub open spec fn g_until(s: Seq<TT>, p: spec_fn(TT) -> bool) -> Option<Seq<TT>> {
    let w = after(s, p);
    if w.len() > 0 && p(hd(w)) && !is_p(hd(w), '>') { Some(w) } else { None }
}
pub open spec fn after(s: Seq<TT>, p: spec_fn(TT) -> bool) -> Seq<TT> { s.skip(scan0(s, p) as int) }

/// contents of the brackets of an attribute: a path, then nothing, one group, or `=` and anything
pub open spec fn ok_attr(s: Seq<TT>) -> bool decreases s.len() {
    if s.len() == 0 { true }
    else if hd(s) is Group { s.len() == 1 }
    else if is_p(hd(s), '=') { true }
    else if hd(s) is Ident || is_p(hd(s), ':') { ok_attr(s.skip(1)) }
    else { false }
}
pub open spec fn g_attrs(s: Seq<TT>, inner: bool) -> Option<Seq<TT>> decreases s.len() {
    if !p0(s, '#') { Some(s) }
    else if inner {
        let t = s.skip(1);
        if p0(t, '!') {
            let u = t.skip(1);
            if g0(u, Delimiter::Bracket) && ok_attr(in0(u)) { g_attrs(u.skip(1), inner) } else { None }
        } else if g0(t, Delimiter::Bracket) { Some(s) } else { None }
    } else {
        let t = s.skip(1);
        if g0(t, Delimiter::Bracket) && ok_attr(in0(t)) { g_attrs(t.skip(1), inner) } else { None }
    }
}
pub open spec fn g_vis(s: Seq<TT>) -> Seq<TT> {
    if i0(s, "pub") {
        let t = s.skip(1);
        if t.len() > 0 && hd(t) is Group && vis_restr(hd(t)->Group_0) { t.skip(1) } else { t }
    } else if vis0(s) { s.skip(1) } else { s }
}
/// generic parameters after `<`, with the closing `>`
pub open spec fn g_gparams(s: Seq<TT>) -> Option<Seq<TT>> decreases s.len() {
    if s.len() == 0 { None }
    else if p0(s, '>') { Some(s.skip(1)) }
    else {
        let t = if p0(s, '\'') || i0(s, "const") { s.skip(1) } else { s };
        let u = t.skip(1);
        if !id0(t) || u.len() == 0 { None }
        else {
            match g_bound(u, pr_comma_gt()) {
                None => None,
                Some(w) =>
                    if p0(w, ',') { if w.skip(1).len() < s.len() { g_gparams(w.skip(1)) } else { None } }
                    else if p0(w, '>') { Some(w.skip(1)) }
                    else { None },
            }
        }
    }
}
pub open spec fn g_generics(s: Seq<TT>) -> Option<Seq<TT>> { if p0(s, '<') { g_gparams(s.skip(1)) } else { Some(s) } }
pub open spec fn g_preds(s: Seq<TT>) -> Option<Seq<TT>> decreases s.len() {
    if s.len() == 0 { None }
    else if g0(s, Delimiter::Brace) || p0(s, ';') { Some(s) }
    else {
        let u = s.skip(lhs_len(s) as int);
        if !p0(u, ':') { None } else {
            match g_until(u.skip(1), pr_where_end()) {
                None => None,
                Some(w) => if p0(w, ',') { if w.skip(1).len() < s.len() { g_preds(w.skip(1)) } else { None } } else { Some(w) },
            }
        }
    }
}
pub open spec fn g_where(s: Seq<TT>) -> Option<Seq<TT>> { if i0(s, "where") { g_preds(s.skip(1)) } else { Some(s) } }
/// `:` and a bound up to one of the separators, or a separator right away
pub open spec fn g_bound(s: Seq<TT>, p: spec_fn(TT) -> bool) -> Option<Seq<TT>> {
    if p0(s, ':') { Some(after(s.skip(1), p)) } else if s.len() > 0 && p(hd(s)) { Some(s) } else { None }
}
pub open spec fn list_end(e: Seq<TT>) -> bool { e.len() == 0 || p0(e, ',') }
#[verifier::opaque]
pub open spec fn ok_tfields(s: Seq<TT>) -> bool decreases s.len() {
    if s.len() == 0 { true } else {
        match g_attrs(s, false) {
            None => false,
            Some(a) => {
                let v = g_vis(a);
                let e = after(v, pr_comma());
                scan0(v, pr_comma()) > 0 && list_end(e) && optp(e, ',').len() < s.len() && ok_tfields(optp(e, ','))
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn ok_nfields(s: Seq<TT>) -> bool decreases s.len() {
    if s.len() == 0 { true } else {
        match g_attrs(s, false) {
            None => false,
            Some(a) => {
                let v = g_vis(a);
                let t = v.skip(1).skip(1);
                let e = after(t, pr_comma());
                id0(v) && p0(v.skip(1), ':') && scan0(t, pr_comma()) > 0 && list_end(e) && optp(e, ',').len() < s.len() && ok_nfields(optp(e, ','))
            }
        }
    }
}
/// None: not supported; Some(c): supported, c = a value of several tokens is met
#[verifier::opaque]
pub open spec fn ok_variants(s: Seq<TT>) -> Option<bool> decreases s.len() {
    if s.len() == 0 { Some(false) } else {
        match g_attrs(s, false) {
            None => None,
            Some(a) => {
                let v = g_vis(a);
                let t = v.skip(1);
                let u = if g0(t, Delimiter::Parenthesis) || g0(t, Delimiter::Brace) { t.skip(1) } else { t };
                let e = if p0(u, '=') { u.skip(1).skip(1) } else { u };
                if !id0(v) || (g0(t, Delimiter::Parenthesis) && !ok_tfields(in0(t))) || (g0(t, Delimiter::Brace) && !ok_nfields(in0(t)))
                    || (p0(u, '=') && u.skip(1).len() == 0) || (!p0(u, '=') && !list_end(u)) { None }
                else if !list_end(e) { Some(true) }
                else if optp(e, ',').len() < s.len() { ok_variants(optp(e, ',')) } else { None }
            }
        }
    }
}
pub open spec fn g_life(s: Seq<TT>) -> Option<Seq<TT>> {
    if !p0(s, '\'') { Some(s) } else if id0(s.skip(1)) { Some(s.skip(1).skip(1)) } else { None }
}
/// one parameter of a function, without its attributes
pub open spec fn g_param(a: Seq<TT>) -> Option<Seq<TT>> {
    match g_life(optp(a, '&')) {
        None => None,
        Some(c) => {
            let d = opt(c, "mut");
            let t = d.skip(1).skip(1);
            if i0(d, "self") && !p0(d.skip(1), ':') { Some(d.skip(1)) }
            else if p0(a, '&') || p0(a, '\'') || !id0(d) || !p0(d.skip(1), ':') || scan0(t, pr_comma()) == 0 { None }
            else { Some(after(t, pr_comma())) }
        }
    }
}
#[verifier::opaque]
pub open spec fn ok_params(s: Seq<TT>) -> bool decreases s.len() {
    if s.len() == 0 { true } else {
        match g_attrs(s, false) {
            None => false,
            Some(a) => match g_param(a) {
                None => false,
                Some(e) => list_end(e) && optp(e, ',').len() < s.len() && ok_params(optp(e, ',')),
            },
        }
    }
}
pub open spec fn g_ret(s: Seq<TT>) -> Option<Seq<TT>> {
    if !p0(s, '-') { Some(s) } else if p0(s.skip(1), '>') { g_until(s.skip(1).skip(1), pr_ret_end()) } else { None }
}
// qualifiers: default const async unsafe extern "abi"
pub open spec fn q1(s: Seq<TT>) -> Seq<TT> { opt(s, "default") }
pub open spec fn q2(s: Seq<TT>) -> Seq<TT> { opt(q1(s), "const") }
pub open spec fn q3(s: Seq<TT>) -> Seq<TT> { opt(q2(s), "async") }
pub open spec fn q4(s: Seq<TT>) -> Seq<TT> { opt(q3(s), "unsafe") }
pub open spec fn q5(s: Seq<TT>) -> Seq<TT> {
    if i0(q4(s), "extern") { let e = q4(s).skip(1); if lit0(e) { e.skip(1) } else { e } } else { q4(s) }
}
pub open spec fn q_xor(s: Seq<TT>) -> bool {
    i0(q1(s), "const") != i0(q3(s), "unsafe") && !i0(s, "default") && !i0(q2(s), "async") && !i0(q4(s), "extern")
}
/// what the qualifiers are followed by: 1 fn, 2 extern crate, 3 static, 4 const, 5 trait, 6 impl, 7 mod, 8 extern block, 0 anything else
pub open spec fn q_kind(s: Seq<TT>) -> int {
    let q = q5(s);
    if i0(q, "fn") { 1 }
    else if i0(q4(s), "extern") && i0(q, "crate") { 2 }
    else if i0(q, "static") { 3 }
    else if id0(q) && q_xor(s) {
        if i0(q1(s), "const") { 4 } else if i0(q, "trait") { 5 } else if i0(q, "impl") { 6 } else if i0(q, "mod") { 7 } else { 0 }
    }
    else if i0(q4(s), "extern") && g0(q, Delimiter::Brace) { 8 }
    else { 0 }
}
/// a function after its `fn` keyword
#[verifier::opaque]
pub open spec fn g_sig(t: Seq<TT>) -> Option<Seq<TT>> {
    if !id0(t) { None } else {
        match g_generics(t.skip(1)) {
            None => None,
            Some(p) => if !g0(p, Delimiter::Parenthesis) || !ok_params(in0(p)) { None } else {
                match g_ret(p.skip(1)) {
                    None => None,
                    Some(r) => match g_where(r) {
                        None => None,
                        Some(b) => if g0(b, Delimiter::Brace) || p0(b, ';') { Some(b.skip(1)) } else { None },
                    },
                }
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn g_const(s: Seq<TT>) -> Option<Seq<TT>> {
    let m = s.skip(1);
    let n = opt(m, "mut");
    let c = n.skip(1);
    if !(i0(s, "const") || i0(s, "static")) || (i0(s, "const") && i0(m, "mut")) || !id0(n) || !p0(c, ':') { None } else {
        match g_until(c.skip(1), pr_eq_semi()) {
            None => None,
            Some(u) => if p0(u, ';') { Some(u.skip(1)) } else { g_value(u.skip(1)) },
        }
    }
}
/// a value up to its semicolon, whatever it contains
pub open spec fn g_value(s: Seq<TT>) -> Option<Seq<TT>> decreases s.len() {
    if s.len() == 0 { None } else if p0(s, ';') { Some(s.skip(1)) } else { g_value(s.skip(1)) }
}
#[verifier::opaque]
pub open spec fn g_type(s: Seq<TT>) -> Option<Seq<TT>> {
    let n = s.skip(1);
    if !i0(s, "type") || !id0(n) { None } else {
        match g_bound(n.skip(1), pr_eq_semi()) {
            None => None,
            Some(u) => if p0(u, ';') { Some(u.skip(1)) } else if p0(u, '=') {
                match g_until(u.skip(1), pr_semi()) { None => None, Some(w) => Some(w.skip(1)) }
            } else { None },
        }
    }
}
#[verifier::opaque]
pub open spec fn g_macro(s: Seq<TT>) -> Option<Seq<TT>> {
    if !id0(s) || !p0(s.skip(1), '!') { None } else {
        let t = s.skip(1).skip(1);
        let u = if id0(t) { t.skip(1) } else { t };
        if g0(u, Delimiter::Parenthesis) { if p0(u.skip(1), ';') { Some(u.skip(1).skip(1)) } else { None } }
        else if g0(u, Delimiter::Brace) { Some(u.skip(1)) }
        else { None }
    }
}
pub open spec fn fn_kw(s: Seq<TT>) -> bool {
    i0(s, "default") || i0(s, "const") || i0(s, "static") || i0(s, "async") || i0(s, "unsafe") || i0(s, "extern") || i0(s, "fn")
}
/// a member of an implementation, a trait or an extern block, after its attributes and visibility
pub open spec fn g_member(s: Seq<TT>, vis: bool, statics: bool) -> Option<Seq<TT>> {
    if i0(s, "type") { g_type(s) }
    else if fn_kw(s) {
        let k = q_kind(s);
        if k == 1 { g_sig(q5(s).skip(1)) }
        else if k == 4 { g_const(s) }
        else if k == 3 && statics && i0(s, "static") { g_const(s) }
        else { None }
    } else if vis { None } else { g_macro(s) }
}
pub open spec fn ok_members(s: Seq<TT>, statics: bool) -> bool decreases s.len() {
    if s.len() == 0 { true } else {
        match g_attrs(s, false) {
            None => false,
            Some(a) => match g_member(g_vis(a), vis0(a), statics) {
                None => false,
                Some(e) => e.len() < s.len() && ok_members(e, statics),
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn ok_body(s: Seq<TT>, statics: bool) -> bool {
    match g_attrs(s, true) { None => false, Some(t) => ok_members(t, statics) }
}
pub open spec fn g_braces(s: Seq<TT>, statics: bool) -> Option<Seq<TT>> {
    if g0(s, Delimiter::Brace) && ok_body(in0(s), statics) { Some(s.skip(1)) } else { None }
}
#[verifier::opaque]
pub open spec fn g_trait(s: Seq<TT>) -> Option<Seq<TT>> {
    let t = opt(s, "unsafe");
    if !i0(t, "trait") || !id0(t.skip(1)) { None } else {
        match g_generics(t.skip(1).skip(1)) {
            None => None,
            Some(u) => match g_bound(u, pr_where()) {
                None => None,
                Some(w) => match g_where(w) { None => None, Some(b) => g_braces(b, false) },
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn g_impl(s: Seq<TT>) -> Option<Seq<TT>> {
    let t = opt(s, "unsafe");
    if !i0(t, "impl") { None } else {
        match g_generics(t.skip(1)) {
            None => None,
            Some(u) => match g_until(u, pr_for_where()) {
                None => None,
                Some(x) => match (if i0(x, "for") { g_until(x.skip(1), pr_where()) } else { Some(x) }) {
                    None => None,
                    Some(w) => match g_where(w) { None => None, Some(b) => g_braces(b, false) },
                },
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn g_use(s: Seq<TT>) -> Option<Seq<TT>> {
    if !i0(s, "use") { None } else { match g_until(s.skip(1), pr_semi()) { None => None, Some(w) => Some(w.skip(1)) } }
}
#[verifier::opaque]
pub open spec fn g_xcrate(s: Seq<TT>) -> Option<Seq<TT>> {
    let t = s.skip(1).skip(1);
    let u = t.skip(1);
    let w = if i0(u, "as") { u.skip(1).skip(1) } else { u };
    if i0(s, "extern") && i0(s.skip(1), "crate") && id0(t) && (i0(u, "as") ==> id0(u.skip(1))) && p0(w, ';') { Some(w.skip(1)) } else { None }
}
#[verifier::opaque]
pub open spec fn g_xblock(s: Seq<TT>) -> Option<Seq<TT>> {
    let t = opt(s, "unsafe");
    let u = t.skip(1);
    if !i0(t, "extern") { None } else { g_braces(if lit0(u) { u.skip(1) } else { u }, true) }
}
#[verifier::opaque]
pub open spec fn g_struct(s: Seq<TT>) -> Option<Seq<TT>> {
    if !id0(s.skip(1)) { None } else {
        match g_generics(s.skip(1).skip(1)) {
            None => None,
            Some(p) => match g_where(p) {
                None => None,
                Some(b) => if p0(b, ';') { Some(b.skip(1)) }
                    else if g0(b, Delimiter::Brace) { if ok_nfields(in0(b)) { Some(b.skip(1)) } else { None } }
                    else if g0(b, Delimiter::Parenthesis) && !i0(p, "where") && ok_tfields(in0(b)) {
                        match g_where(b.skip(1)) { None => None, Some(x) => Some(optp(x, ';')) }
                    } else { None },
            },
        }
    }
}
/// name, generic parameters and where clause, up to the braces
pub open spec fn g_head(s: Seq<TT>) -> Option<Seq<TT>> {
    if !id0(s) { None } else {
        match g_generics(s.skip(1)) { None => None, Some(p) => match g_where(p) { None => None, Some(b) => if g0(b, Delimiter::Brace) { Some(b) } else { None } } }
    }
}
#[verifier::opaque]
pub open spec fn g_enum(s: Seq<TT>) -> Option<(Seq<TT>, bool)> {
    match g_head(s.skip(1)) { None => None, Some(b) => match ok_variants(in0(b)) { None => None, Some(c) => Some((b.skip(1), c)) } }
}
#[verifier::opaque]
pub open spec fn g_union(s: Seq<TT>) -> Option<Seq<TT>> {
    match g_head(s.skip(1)) { None => None, Some(b) => if ok_nfields(in0(b)) { Some(b.skip(1)) } else { None } }
}
pub open spec fn rst(x: Option<(Seq<TT>, bool)>) -> Seq<TT> { match x { Some(p) => p.0, None => Seq::empty() } }
pub open spec fn cx(x: Option<(Seq<TT>, bool)>) -> bool { match x { Some(p) => p.1, None => false } }
pub open spec fn plain(x: Option<Seq<TT>>) -> Option<(Seq<TT>, bool)> { match x { Some(s) => Some((s, false)), None => None } }
/// the rest after a module, and whether an enum value of several tokens is met in it
#[verifier::opaque]
pub open spec fn g_mod(s: Seq<TT>) -> Option<(Seq<TT>, bool)> decreases weight(s), 0int {
    let t = opt(s, "unsafe");
    let b = t.skip(1).skip(1);
    if !i0(t, "mod") || !id0(t.skip(1)) { None }
    else if p0(b, ';') { Some((b.skip(1), false)) }
    else if g0(b, Delimiter::Brace) {
        match g_attrs(in0(b), true) {
            None => None,
            Some(x) => if weight(x) < weight(s) { match ok_items(x) { None => None, Some(c) => Some((b.skip(1), c)) } } else { None },
        }
    } else { None }
}
/// an item which starts with a qualifier or `type`, after its attributes and visibility
#[verifier::opaque]
pub open spec fn g_either(s: Seq<TT>, vis: bool) -> Option<(Seq<TT>, bool)> decreases weight(s), 1int {
    if i0(s, "type") { plain(g_type(s)) }
    else if fn_kw(s) {
        let k = q_kind(s);
        if k == 5 { plain(g_trait(s)) }
        else if k == 6 { if vis { None } else { plain(g_impl(s)) } }
        else if k == 7 { g_mod(s) }
        else if k == 8 { plain(g_xblock(s)) }
        else if k == 2 { plain(g_xcrate(s)) }
        else { plain(g_member(s, vis, true)) }
    } else { plain(g_member(s, vis, true)) }
}
#[verifier::opaque]
pub open spec fn g_item(s: Seq<TT>) -> Option<(Seq<TT>, bool)> decreases weight(s), 2int {
    match g_attrs(s, false) {
        None => None,
        Some(a) => {
            let v = g_vis(a);
            if weight(v) > weight(s) { None }
            else if i0(v, "struct") { plain(g_struct(v)) }
            else if i0(v, "enum") { g_enum(v) }
            else if i0(v, "union") { plain(g_union(v)) }
            else if i0(v, "mod") { g_mod(v) }
            else if i0(v, "trait") { plain(g_trait(v)) }
            else if i0(v, "impl") { if vis0(a) { None } else { plain(g_impl(v)) } }
            else if i0(v, "use") { plain(g_use(v)) }
            else if i0(v, "static") { plain(g_const(v)) }
            else { g_either(v, vis0(a)) }
        }
    }
}
pub open spec fn ok_items(s: Seq<TT>) -> Option<bool> decreases weight(s), 3int {
    if s.len() == 0 { Some(false) } else {
        match g_item(s) {
            None => None,
            Some((r, c)) => if c { Some(true) } else if weight(r) < weight(s) { ok_items(r) } else { None },
        }
    }
}
