// Specification vocabulary: token shapes, segmentation, well-formedness, printed form.
pub type TT = TokenTree;
pub open spec fn is_p(t: TT, c: char) -> bool { t is Punct && t->Punct_0.ch == c }
pub open spec fn is_i(t: TT, s: &str) -> bool { t is Ident && t->Ident_0.s_is(s) }
pub open spec fn is_g(t: TT, d: Delimiter) -> bool { t is Group && t->Group_0.delim == d }
pub open spec fn p0(s: Seq<TT>, c: char) -> bool { s.len() > 0 && is_p(hd(s), c) }
pub open spec fn i0(s: Seq<TT>, w: &str) -> bool { s.len() > 0 && is_i(hd(s), w) }
pub open spec fn g0(s: Seq<TT>, d: Delimiter) -> bool { s.len() > 0 && is_g(hd(s), d) }
pub open spec fn arr2(a: Seq<Punct>) -> Seq<TT> { one(TT::Punct(a[0])) + one(TT::Punct(a[1])) }
pub open spec fn arr2o(a: Option<[Punct; 2]>) -> Seq<TT> { match a { Some(x) => arr2(x@), None => Seq::empty() } }
pub open spec fn colon2(s: Seq<TT>) -> bool {
    s.len() >= 2 && is_p(hd(s), ':') && hd(s)->Punct_0.spacing == Spacing::Joint && is_p(hd(s.skip(1)), ':')
}
pub open spec fn wf_colon2(a: Seq<Punct>) -> bool { a[0].ch == ':' && a[0].spacing == Spacing::Joint && a[1].ch == ':' }
pub open spec fn mkgroup(gs: GroupSpan, s: Seq<TT>) -> TT {
    TT::Group(Group { delim: gs.delimiter, inner: TokenStream { s: Ghost(s) }, sp: gs.span })
}
pub open spec fn grp(gs: GroupSpan, s: Seq<TT>) -> Seq<TT> { one(mkgroup(gs, s)) }

// ---- segmentation ------------------------------------------------------------------------------
/// Number of tokens up to the first one for which `p` holds outside of angle brackets, the first
/// unmatched `>`, or the end.  The tip of `->` is not a bracket.
#[verifier::opaque]
pub open spec fn scan(s: Seq<TT>, p: spec_fn(TT) -> bool, depth: int, dash: bool) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else {
        let t = hd(s);
        let rest = s.skip(1);
        if is_p(t, '<') { 1 + scan(rest, p, depth + 1, false) }
        else if is_p(t, '>') && dash { 1 + scan(rest, p, depth, false) }
        else if is_p(t, '>') { if depth - 1 < 0 { 0 } else { 1 + scan(rest, p, depth - 1, false) } }
        else if is_p(t, '-') { 1 + scan(rest, p, depth, true) }
        else if p(t) && depth == 0 { 0 }
        else { 1 + scan(rest, p, depth, false) }
    }
}
pub open spec fn scan0(s: Seq<TT>, p: spec_fn(TT) -> bool) -> nat { scan(s, p, 0, false) }
pub proof fn scan_len(s: Seq<TT>, p: spec_fn(TT) -> bool, depth: int, dash: bool)
    ensures scan(s, p, depth, dash) <= s.len(),
    decreases s.len(),
{
    reveal(scan); reveal(hd);
    if s.len() > 0 {
        let r = s.skip(1);
        scan_len(r, p, depth + 1, false); scan_len(r, p, depth, false); scan_len(r, p, depth - 1, false); scan_len(r, p, depth, true);
    }
}
pub broadcast proof fn scan0_len(s: Seq<TT>, p: spec_fn(TT) -> bool)
    ensures #[trigger] scan0(s, p) <= s.len(), s.len() == 0 || is_p(hd(s), '>') ==> scan0(s, p) == 0,
{ scan_len(s, p, 0, false); reveal(scan); reveal(hd); }
pub proof fn scan_same(s: Seq<TT>, p: spec_fn(TT) -> bool, q: spec_fn(TT) -> bool)
    requires forall|t: TT| #[trigger] p(t) == q(t),
    ensures p == q,
{ assert(p =~= q); }
/// Predicates of the parser's scans.
pub open spec fn pr_comma() -> spec_fn(TT) -> bool { |t: TT| is_p(t, ',') }
pub open spec fn pr_comma_gt() -> spec_fn(TT) -> bool { |t: TT| is_p(t, ',') || is_p(t, '>') }
pub open spec fn pr_colon() -> spec_fn(TT) -> bool { |t: TT| is_p(t, ':') }
pub open spec fn pr_semi() -> spec_fn(TT) -> bool { |t: TT| is_p(t, ';') }
pub open spec fn pr_eq_semi() -> spec_fn(TT) -> bool { |t: TT| is_p(t, '=') || is_p(t, ';') }
pub open spec fn pr_where_end() -> spec_fn(TT) -> bool { |t: TT| is_p(t, ',') || is_g(t, Delimiter::Brace) || is_p(t, ';') }
pub open spec fn pr_ret_end() -> spec_fn(TT) -> bool { |t: TT| is_g(t, Delimiter::Brace) || is_i(t, "where") || is_p(t, ';') }
pub open spec fn pr_for_where() -> spec_fn(TT) -> bool { |t: TT| is_g(t, Delimiter::Brace) || is_i(t, "for") || is_i(t, "where") }
pub open spec fn pr_where() -> spec_fn(TT) -> bool { |t: TT| is_g(t, Delimiter::Brace) || is_i(t, "where") }
/// every result of the closure is the value of the predicate
pub open spec fn conforms<F: Fn(&TT) -> bool>(f: F, q: spec_fn(TT) -> bool) -> bool {
    forall|t: TT, b: bool| #[trigger] f.ensures((&t,), b) ==> b == q(t)
}
/// where a scan may end: at a separator, an unmatched `>` or the end
pub open spec fn stop_ok(s: Seq<TT>, p: spec_fn(TT) -> bool) -> bool { s.len() == 0 || is_p(hd(s), '>') || p(hd(s)) }
pub broadcast proof fn stop_comma(s: Seq<TT>)
    ensures
        stop_ok(s, pr_comma()) == (s.len() == 0 || is_p(hd(s), '>') || #[trigger] p0(s, ',')),
        stop_ok(s, pr_comma_gt()) == (s.len() == 0 || is_p(hd(s), '>') || p0(s, ',')),
{}
pub proof fn scan_end(s: Seq<TT>, p: spec_fn(TT) -> bool, depth: int, dash: bool)
    ensures ({ let k = scan(s, p, depth, dash); k < s.len() ==> is_p(s[k as int], '>') || p(s[k as int]) }),
    decreases s.len(),
{
    reveal(scan); reveal(hd);
    if s.len() > 0 {
        let r = s.skip(1);
        scan_end(r, p, depth + 1, false); scan_end(r, p, depth, false); scan_end(r, p, depth - 1, false); scan_end(r, p, depth, true);
    }
}
pub open spec fn found(k: nat, s: Seq<TT>) -> bool { k < s.len() && !is_p(s[k as int], '>') }
pub proof fn scan_take(s: Seq<TT>, p: spec_fn(TT) -> bool, depth: int, dash: bool)
    ensures ({ let k = scan(s, p, depth, dash); k <= s.len() && scan(s.take(k as int), p, depth, dash) == k }),
    decreases s.len(),
{
    reveal(scan); reveal(hd);
    scan_len(s, p, depth, dash);
    if s.len() > 0 {
        let r = s.skip(1);
        scan_take(r, p, depth + 1, false); scan_take(r, p, depth, false); scan_take(r, p, depth - 1, false); scan_take(r, p, depth, true);
        let k = scan(s, p, depth, dash);
        if k > 0 { assert(s.take(k as int).skip(1) =~= r.take(k - 1)); assert(hd(s.take(k as int)) == hd(s)); }
    }
}
pub proof fn scan_take_ge(s: Seq<TT>, p: spec_fn(TT) -> bool, depth: int, dash: bool, n: int)
    requires scan(s, p, depth, dash) <= n <= s.len(),
    ensures scan(s.take(n), p, depth, dash) == scan(s, p, depth, dash),
    decreases s.len(),
{
    reveal(scan); reveal(hd);
    if s.len() > 0 && n > 0 {
        let r = s.skip(1);
        assert(s.take(n).skip(1) =~= r.take(n - 1)); assert(hd(s.take(n)) == hd(s));
        if scan(s, p, depth, dash) > 0 {
            if is_p(hd(s), '<') { scan_take_ge(r, p, depth + 1, false, n - 1); }
            else if is_p(hd(s), '>') && dash { scan_take_ge(r, p, depth, false, n - 1); }
            else if is_p(hd(s), '>') { scan_take_ge(r, p, depth - 1, false, n - 1); }
            else if is_p(hd(s), '-') { scan_take_ge(r, p, depth, true, n - 1); }
            else { scan_take_ge(r, p, depth, false, n - 1); }
        }
    }
}
pub proof fn lhs_take(s: Seq<TT>)
    ensures lhs_len(s) <= s.len(), lhs_len(s.take(lhs_len(s) as int)) == lhs_len(s),
    decreases s.len(),
{
    reveal(lhs_len); reveal(hd);
    let k = scan0(s, pr_colon());
    scan_len(s, pr_colon(), 0, false);
    if k + 2 <= s.len() && colon2(s.skip(k as int)) {
        let r = s.skip(k as int + 2);
        lhs_take(r);
        let n = lhs_len(s) as int;
        scan_take_ge(s, pr_colon(), 0, false, n);
        assert(s.take(n).skip(k as int) =~= s.skip(k as int).take(n - k));
        assert(s.take(n).skip(k as int + 2) =~= r.take(n - k - 2));
    } else {
        scan_take(s, pr_colon(), 0, false);
    }
}
pub proof fn scan_take_all(s: Seq<TT>)
    ensures forall|p: spec_fn(TT) -> bool| seg(s.take(#[trigger] scan0(s, p) as int), p),
{
    assert forall|p: spec_fn(TT) -> bool| seg(s.take(#[trigger] scan0(s, p) as int), p) by { scan_take(s, p, 0, false); }
}

// ---- printed form of recursive types ---------------------------------------------------------
#[verifier::opaque]
pub open spec fn pl<T: ToTokens>(s: Seq<(T, Punct)>) -> Seq<TT> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { pl(s.drop_last()) + s.last().0.toks() + one(TT::Punct(s.last().1)) }
}
#[verifier::opaque]
pub open spec fn ptoks<T: ToTokens>(p: Punctuated<T>) -> Seq<TT> {
    if p.inner@.len() == 0 { Seq::empty() }
    else if p.skip_last { pl(p.inner@.drop_last()) + p.inner@.last().0.toks() }
    else { pl(p.inner@) }
}
/// `q` is `p` after `push(v, c)`
pub open spec fn pushed<T>(p: Punctuated<T>, q: Punctuated<T>, v: T, c: Option<Punct>) -> bool {
    q.inner@ == p.inner@ + one((v, comma_or_default(c))) && q.skip_last == (c is None)
}
pub broadcast proof fn ptoks_push<T: ToTokens>(p: Punctuated<T>, q: Punctuated<T>, v: T, c: Option<Punct>)
    requires #[trigger] pushed(p, q, v, c), p.inner@.len() == 0 || !p.skip_last,
    ensures ptoks(q) == ptoks(p) + (v.toks() + c.toks()),
{
    broadcast use {pl_push, seqs, drop_push};
    reveal(ptoks); reveal(pl);
    let e = (v, comma_or_default(c));
    assert(q.inner@ == p.inner@ + one(e));
    assert(q.inner@.len() > 0 && q.inner@.last() == e && q.inner@.drop_last() == p.inner@);
    assert(ptoks(p) == pl(p.inner@));
}
pub broadcast proof fn ptoks_empty<T: ToTokens>(p: Punctuated<T>)
    requires p.inner@.len() == 0,
    ensures #[trigger] ptoks(p) == Seq::<TT>::empty(),
{ reveal(ptoks); }
pub broadcast proof fn pl_push<T: ToTokens>(s: Seq<(T, Punct)>, x: (T, Punct))
    ensures #[trigger] pl(s + one(x)) == pl(s) + x.0.toks() + one(TT::Punct(x.1)),
{ reveal(one); reveal(pl); assert((s + one(x)).drop_last() =~= s); }
pub broadcast proof fn pl_empty<T: ToTokens>(s: Seq<(T, Punct)>)
    requires s.len() == 0,
    ensures #[trigger] pl(s) == Seq::<TT>::empty(),
{ reveal(pl); }
pub broadcast proof fn drop_push<T>(s: Seq<T>, x: T)
    ensures (#[trigger] (s + one(x))).drop_last() == s, (s + one(x)).last() == x, (s + one(x)).len() == s.len() + 1,
{ reveal(one); assert((s + one(x)).drop_last() =~= s); }

#[verifier::opaque]
pub open spec fn item_toks(i: Item) -> Seq<TT> decreases i {
    match i {
        Item::Struct(x) => x.toks(),
        Item::Enum(x) => x.toks(),
        Item::Union(x) => x.toks(),
        Item::Module(x) => module_toks(x),
        Item::Trait(x) => x.toks(),
        Item::Impl(x) => x.toks(),
        Item::TypeAlias(x) => x.toks(),
        Item::Function(x) => x.toks(),
        Item::Constant(x) => x.toks(),
        Item::UseDeclaration(x) => x.toks(),
        Item::Macro(x) => x.toks(),
        Item::ExternBlock(x) => x.toks(),
        Item::ExternCrate(x) => x.toks(),
    }
}
#[verifier::opaque]
pub open spec fn module_toks(m: Module) -> Seq<TT> decreases m {
    flat(m.attributes@) + m.vis_marker.toks() + m.tk_unsafe.toks() + m.tk_mod.toks() + m.name.toks()
        + match (m.tk_semicolon, m.tk_braces) {
            (Some(p), _) => p.toks(),
            (None, Some(gs)) => grp(gs, flat(m.inner_attributes@) + items_toks(m.members@)),
            (None, None) => Seq::empty(),
        }
}
#[verifier::opaque]
pub open spec fn items_toks(i: Seq<Item>) -> Seq<TT> decreases i {
    if i.len() == 0 { Seq::empty() } else { items_toks(i.drop_last()) + item_toks(i[i.len() - 1]) }
}
pub broadcast proof fn items_push(s: Seq<Item>, x: Item)
    ensures #[trigger] items_toks(s + one(x)) == items_toks(s) + item_toks(x),
{ reveal(one); reveal(items_toks); reveal(item_toks); let t = s + one(x); assert(t.drop_last() =~= s); assert(t[t.len() - 1] == x); assert(items_toks(t) == items_toks(t.drop_last()) + item_toks(t[t.len() - 1])); }
pub broadcast proof fn item_def(i: Item)
    ensures #[trigger] item_toks(i) == ({
    match i {
        Item::Struct(x) => x.toks(),
        Item::Enum(x) => x.toks(),
        Item::Union(x) => x.toks(),
        Item::Module(x) => module_toks(x),
        Item::Trait(x) => x.toks(),
        Item::Impl(x) => x.toks(),
        Item::TypeAlias(x) => x.toks(),
        Item::Function(x) => x.toks(),
        Item::Constant(x) => x.toks(),
        Item::UseDeclaration(x) => x.toks(),
        Item::Macro(x) => x.toks(),
        Item::ExternBlock(x) => x.toks(),
        Item::ExternCrate(x) => x.toks(),
    }
    }),
{ reveal(item_toks); reveal(module_toks); }
pub broadcast proof fn module_def(m: Module)
    ensures #[trigger] module_toks(m) == ({
    flat(m.attributes@) + m.vis_marker.toks() + m.tk_unsafe.toks() + m.tk_mod.toks() + m.name.toks()
        + match (m.tk_semicolon, m.tk_braces) {
            (Some(p), _) => p.toks(),
            (None, Some(gs)) => grp(gs, flat(m.inner_attributes@) + items_toks(m.members@)),
            (None, None) => Seq::empty(),
        }
    }),
{ reveal(item_toks); reveal(items_toks); reveal(module_toks); }
pub broadcast proof fn items_empty(s: Seq<Item>)
    requires s.len() == 0,
    ensures #[trigger] items_toks(s) == Seq::<TT>::empty(),
{ reveal(items_toks); }

// ---- token weight (termination) ----------------------------------------------------------------
pub open spec fn tw(t: TT) -> nat decreases t {
    match t { TT::Group(g) => 1 + wsum(g.inner.s@, g.inner.s@.len()), _ => 1 }
}
pub open spec fn wsum(s: Seq<TT>, n: nat) -> nat decreases s, n {
    if n == 0 || n > s.len() { 0 } else { wsum(s, (n - 1) as nat) + tw(s[n - 1]) }
}
#[verifier::opaque]
pub open spec fn weight(s: Seq<TT>) -> nat { wsum(s, s.len()) }

pub broadcast group item_group { items_push, items_empty, item_def, module_def }
pub broadcast group spec_group { life_skip, insert0, insert_end, scan0_len, stop_comma, ptoks_push, ptoks_empty, weight_add, weight_group, somes_idents, filter_ext, errs_flat }
pub open spec fn newp(c: char) -> TT { TT::Punct(Punct { ch: c, spacing: Spacing::Alone, sp: call_site_span() }) }
pub open spec fn comma_or_default(c: Option<Punct>) -> Punct {
    match c { Some(p) => p, None => Punct { ch: ',', spacing: Spacing::Alone, sp: call_site_span() } }
}
pub proof fn items_take(s: Seq<Item>, i: int)
    requires 0 <= i < s.len(),
    ensures items_toks(s.take(i + 1)) == items_toks(s.take(i)) + item_toks(s[i]),
{ assert(s.take(i + 1) =~= s.take(i) + one(s[i])) by { reveal(one); } items_push(s.take(i), s[i]); }
pub proof fn pl_take<T: ToTokens>(s: Seq<(T, Punct)>, i: int)
    requires 0 <= i < s.len(),
    ensures pl(s.take(i + 1)) == pl(s.take(i)) + s[i].0.toks() + one(TT::Punct(s[i].1)),
{ assert(s.take(i + 1) =~= s.take(i) + one(s[i])) by { reveal(one); } pl_push(s.take(i), s[i]); }
pub open spec fn ia_one(p: GenericParam) -> Seq<TT> {
    (if is_lifetime_param(p) { p.tk_prefix.toks() } else { Seq::empty() }) + p.name.toks() + one(newp(','))
}
pub open spec fn is_lifetime_param(p: GenericParam) -> bool { match p.tk_prefix { Some(t) => is_p(t, '\''), None => false } }
pub open spec fn is_const_param(p: GenericParam) -> bool { match p.tk_prefix { Some(t) => is_i(t, "const"), None => false } }
#[verifier::opaque]
pub open spec fn ia_toks(s: Seq<(GenericParam, Punct)>) -> Seq<TT> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { ia_toks(s.drop_last()) + ia_one(s.last().0) }
}
pub open spec fn inline_toks(l: GenericParamList) -> Seq<TT> { one(newp('<')) + ia_toks(l.params.inner@) + one(newp('>')) }
pub proof fn ia_take(s: Seq<(GenericParam, Punct)>, i: int)
    requires 0 <= i < s.len(),
    ensures ia_toks(s.take(i + 1)) == ia_toks(s.take(i)) + ia_one(s[i].0),
{ reveal(ia_toks); assert(s.take(i + 1).drop_last() =~= s.take(i)); }
// ---- well-formedness; the aspect `a`: 4 = slots and keywords, 5 = segmentation, 6 = attributes and visibility
pub open spec fn seg(s: Seq<TT>, p: spec_fn(TT) -> bool) -> bool { scan0(s, p) == s.len() }
pub open spec fn attr_tok(t: TT) -> bool { t is Ident || is_p(t, ':') }
pub open spec fn wf_attr(x: Attribute, inner: bool, a: int) -> bool {
    (a == 6 ==> x.tk_hash.ch == '#' && x.tk_brackets.delimiter == Delimiter::Bracket
        && (match x.tk_bang { Some(b) => inner && b.ch == '!', None => !inner })
        && (forall|i: int| 0 <= i < x.path@.len() ==> attr_tok(#[trigger] x.path@[i]))
        && (match x.value { AttributeValue::Equals(e, _) => e.ch == '=', _ => true }))
}
pub open spec fn wf_attrs(v: Seq<Attribute>, inner: bool, a: int) -> bool {
    forall|i: int| 0 <= i < v.len() ==> wf_attr(#[trigger] v[i], inner, a)
}
pub open spec fn vis_restr(g: Group) -> bool {
    g.delim == Delimiter::Parenthesis && g.inner@.len() > 0 && (is_i(g.inner@[0], "in")
        || (g.inner@.len() == 1 && (is_i(g.inner@[0], "crate") || is_i(g.inner@[0], "self") || is_i(g.inner@[0], "super"))))
}
pub open spec fn vis0(s: Seq<TT>) -> bool { i0(s, "pub") || (i0(s, "crate") && !colon2(s.skip(1))) }
pub open spec fn wf_vis(v: Option<VisMarker>, a: int) -> bool {
    a == 6 ==> match v {
        None => true,
        Some(v) => (is_i(v.tk_token1, "pub") && (match v.tk_token2 { None => true, Some(t) => t is Group && vis_restr(t->Group_0) }))
            || (is_i(v.tk_token1, "crate") && v.tk_token2 is None),
    }
}
pub open spec fn commas<T>(p: Punctuated<T>, a: int) -> bool {
    a == 4 ==> forall|i: int| 0 <= i < p.inner@.len() ==> (#[trigger] p.inner@[i]).1.ch == ','
}
pub open spec fn kw(i: Option<Ident>, s: &str) -> bool { match i { Some(x) => x.s_is(s), None => true } }
pub open spec fn pu(i: Option<Punct>, c: char) -> bool { match i { Some(x) => x.ch == c, None => true } }
pub open spec fn wf_bound(b: Option<GenericBound>, p: spec_fn(TT) -> bool, a: int) -> bool {
    match b { None => true, Some(b) => (a == 4 ==> b.tk_colon.ch == ':') && (a == 5 ==> seg(b.tokens@, p)) }
}
pub open spec fn wf_gparam(x: GenericParam, a: int) -> bool {
    (a == 4 ==> match x.tk_prefix { None => true, Some(t) => is_p(t, '\'') || is_i(t, "const") })
    && wf_bound(x.bound, pr_comma_gt(), a)
}
pub open spec fn wf_gparams(l: Punctuated<GenericParam>, a: int) -> bool {
    commas(l, a) && forall|i: int| 0 <= i < l.inner@.len() ==> wf_gparam((#[trigger] l.inner@[i]).0, a)
}
pub open spec fn wf_generics(g: Option<GenericParamList>, a: int) -> bool {
    match g { None => true, Some(g) => (a == 4 ==> g.tk_l_bracket.ch == '<' && g.tk_r_bracket.ch == '>') && wf_gparams(g.params, a) }
}
/// length of the left side of a where predicate: up to the first `:` which is not part of a `::`
#[verifier::opaque]
pub open spec fn lhs_len(s: Seq<TT>) -> nat decreases s.len() {
    let k = scan0(s, pr_colon());
    if k + 2 <= s.len() && colon2(s.skip(k as int)) { k + 2 + lhs_len(s.skip(k as int + 2)) } else { k }
}
pub open spec fn wf_pred(x: WhereClausePredicate, a: int) -> bool {
    (a == 4 ==> x.bound.tk_colon.ch == ':') && (a == 5 ==> seg(x.bound.tokens@, pr_where_end()) && lhs_len(x.left_side@) == x.left_side@.len())
}
pub open spec fn wf_preds(l: Punctuated<WhereClausePredicate>, a: int) -> bool {
    commas(l, a) && forall|i: int| 0 <= i < l.inner@.len() ==> wf_pred((#[trigger] l.inner@[i]).0, a)
}
pub open spec fn wf_where(w: Option<WhereClause>, a: int) -> bool {
    match w { None => true, Some(w) => (a == 4 ==> w.tk_where.s_is("where")) && wf_preds(w.items, a) }
}
pub open spec fn wf_ty(t: TypeExpr, a: int) -> bool { a == 5 ==> t.tokens@.len() > 0 && seg(t.tokens@, pr_comma()) }
pub open spec fn wf_tfield(x: TupleField, a: int) -> bool { wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a) && wf_ty(x.ty, a) }
pub open spec fn wf_tfields(l: Punctuated<TupleField>, a: int) -> bool {
    commas(l, a) && forall|i: int| 0 <= i < l.inner@.len() ==> wf_tfield((#[trigger] l.inner@[i]).0, a)
}
pub open spec fn wf_nfield(x: NamedField, a: int) -> bool {
    wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a) && wf_ty(x.ty, a) && (a == 4 ==> x.tk_colon.ch == ':')
}
pub open spec fn wf_nfields(l: Punctuated<NamedField>, a: int) -> bool {
    commas(l, a) && forall|i: int| 0 <= i < l.inner@.len() ==> wf_nfield((#[trigger] l.inner@[i]).0, a)
}
pub open spec fn wf_fields(f: Fields, a: int) -> bool {
    match f {
        Fields::Unit => true,
        Fields::Tuple(t) => (a == 4 ==> t.tk_parens.delimiter == Delimiter::Parenthesis) && wf_tfields(t.fields, a),
        Fields::Named(t) => (a == 4 ==> t.tk_braces.delimiter == Delimiter::Brace) && wf_nfields(t.fields, a),
    }
}
pub open spec fn wf_struct(x: Struct, a: int) -> bool {
    (a == 4 ==> x.tk_struct.s_is("struct") && pu(x.tk_semicolon, ';')
        && (x.fields is Named ==> x.tk_semicolon is None) && (x.fields is Unit ==> x.tk_semicolon is Some))
    && wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a) && wf_generics(x.generic_params, a) && wf_where(x.where_clause, a)
    && wf_fields(x.fields, a)
}
pub open spec fn wf_variant(x: EnumVariant, a: int) -> bool {
    wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a) && wf_fields(x.fields, a)
    && (a == 4 ==> match x.value { None => true, Some(v) => v.tk_equal.ch == '=' })
}
pub open spec fn wf_variants(l: Punctuated<EnumVariant>, a: int) -> bool {
    commas(l, a) && forall|i: int| 0 <= i < l.inner@.len() ==> wf_variant((#[trigger] l.inner@[i]).0, a)
}
pub open spec fn wf_enum(x: Enum, a: int) -> bool {
    (a == 4 ==> x.tk_enum.s_is("enum") && x.tk_braces.delimiter == Delimiter::Brace)
    && wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a) && wf_generics(x.generic_params, a) && wf_where(x.where_clause, a)
    && wf_variants(x.variants, a)
}
pub open spec fn wf_union(x: Union, a: int) -> bool {
    (a == 4 ==> x.tk_union.s_is("union") && x.fields.tk_braces.delimiter == Delimiter::Brace)
    && wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a) && wf_generics(x.generic_params, a) && wf_where(x.where_clause, a)
    && wf_nfields(x.fields.fields, a)
}
pub open spec fn wf_quals(q: FnQualifiers, a: int) -> bool {
    a == 4 ==> kw(q.tk_default, "default") && kw(q.tk_const, "const") && kw(q.tk_async, "async") && kw(q.tk_unsafe, "unsafe") && kw(q.tk_extern, "extern")
        && (q.extern_abi is Some ==> q.tk_extern is Some)
}
pub open spec fn wf_lifetime(l: Option<Lifetime>, a: int) -> bool { a == 4 ==> match l { None => true, Some(l) => l.tk_apostrophe.ch == '\'' } }
pub open spec fn wf_fnparam(x: FnParam, a: int) -> bool {
    match x {
        FnParam::Receiver(r) => wf_attrs(r.attributes@, false, a) && wf_lifetime(r.lifetime, a)
            && (a == 4 ==> pu(r.tk_ref, '&') && kw(r.tk_mut, "mut") && r.tk_self.s_is("self")),
        FnParam::Typed(r) => wf_attrs(r.attributes@, false, a) && wf_ty(r.ty, a)
            && (a == 4 ==> kw(r.tk_mut, "mut") && r.tk_colon.ch == ':'),
    }
}
pub open spec fn wf_fnparams(l: Punctuated<FnParam>, a: int) -> bool {
    commas(l, a) && forall|i: int| 0 <= i < l.inner@.len() ==> wf_fnparam((#[trigger] l.inner@[i]).0, a)
}
pub open spec fn wf_fn(x: Function, a: int) -> bool {
    (a == 4 ==> x.tk_fn_keyword.s_is("fn") && x.tk_params_parens.delimiter == Delimiter::Parenthesis && pu(x.tk_semicolon, ';')
        && (x.body is Some) != (x.tk_semicolon is Some) && (match x.body { Some(g) => g.delim == Delimiter::Brace, None => true })
        && (x.return_ty is Some <==> x.tk_return_arrow is Some)
        && (match x.tk_return_arrow { Some(r) => r@[0].ch == '-' && r@[1].ch == '>', None => true }))
    && (a == 5 ==> match x.return_ty { Some(t) => seg(t.tokens@, pr_ret_end()), None => true })
    && wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a) && wf_quals(x.qualifiers, a)
    && wf_generics(x.generic_params, a) && wf_where(x.where_clause, a) && wf_fnparams(x.params, a)
}
pub open spec fn no_semi(s: Seq<TT>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_p(#[trigger] s[i], ';') }
pub open spec fn wf_const(x: Constant, a: int) -> bool {
    (a == 4 ==> (x.tk_const_or_static.s_is("const") || x.tk_const_or_static.s_is("static")) && kw(x.tk_mut, "mut")
        && (x.tk_mut is Some ==> x.tk_const_or_static.s_is("static"))
        && x.tk_colon.ch == ':' && pu(x.tk_equals, '=') && x.tk_semicolon.ch == ';'
        && (x.initializer is Some ==> x.tk_equals is Some && x.initializer->0.tokens@.len() > 0))
    && (a == 5 ==> seg(x.ty.tokens@, pr_eq_semi()) && (match x.initializer { Some(v) => no_semi(v.tokens@), None => true }))
    && wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a)
}
pub open spec fn wf_alias(x: TypeAlias, a: int) -> bool {
    (a == 4 ==> x.tk_type.s_is("type") && pu(x.tk_equals, '=') && x.tk_semicolon.ch == ';' && (x.initializer_ty is Some <==> x.tk_equals is Some))
    && (a == 5 ==> match x.initializer_ty { Some(t) => seg(t.tokens@, pr_semi()), None => true })
    && wf_bound(x.bound, pr_eq_semi(), a)
    && wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a)
}
pub open spec fn wf_macro(x: Macro, a: int) -> bool {
    (a == 4 ==> x.tk_bang.ch == '!' && pu(x.tk_semicolon, ';')
        && ((x.tk_braces_or_parens.delimiter == Delimiter::Parenthesis && x.tk_semicolon is Some)
            || (x.tk_braces_or_parens.delimiter == Delimiter::Brace && x.tk_semicolon is None)))
    && wf_attrs(x.attributes@, false, a)
}
pub open spec fn wf_imember(x: ImplMember, stat: bool, a: int) -> bool {
    match x {
        ImplMember::AssocFunction(f) => wf_fn(f, a),
        ImplMember::AssocConstant(f) => wf_const(f, a) && (a == 4 ==> stat || f.tk_const_or_static.s_is("const")),
        ImplMember::AssocType(f) => wf_alias(f, a),
        ImplMember::Macro(f) => wf_macro(f, a),
    }
}
pub open spec fn wf_imembers(v: Seq<ImplMember>, stat: bool, a: int) -> bool { forall|i: int| 0 <= i < v.len() ==> wf_imember(#[trigger] v[i], stat, a) }
pub open spec fn wf_tmember(x: TraitMember, a: int) -> bool {
    match x {
        TraitMember::AssocFunction(f) => wf_fn(f, a),
        TraitMember::AssocConstant(f) => wf_const(f, a) && (a == 4 ==> f.tk_const_or_static.s_is("const")),
        TraitMember::AssocType(f) => wf_alias(f, a),
        TraitMember::Macro(f) => wf_macro(f, a),
    }
}
pub open spec fn wf_tmembers(v: Seq<TraitMember>, a: int) -> bool { forall|i: int| 0 <= i < v.len() ==> wf_tmember(#[trigger] v[i], a) }
pub open spec fn imember_of(t: TraitMember) -> ImplMember {
    match t {
        TraitMember::AssocFunction(f) => ImplMember::AssocFunction(f),
        TraitMember::AssocConstant(f) => ImplMember::AssocConstant(f),
        TraitMember::AssocType(f) => ImplMember::AssocType(f),
        TraitMember::Macro(f) => ImplMember::Macro(f),
    }
}
pub open spec fn same_members(t: Seq<TraitMember>, m: Seq<ImplMember>) -> bool {
    t.len() == m.len() && forall|i: int| 0 <= i < t.len() ==> m[i] == imember_of(#[trigger] t[i])
}
pub broadcast proof fn tmembers_flat(t: Seq<TraitMember>, m: Seq<ImplMember>)
    requires same_members(t, m),
    ensures #[trigger] flat(t) == #[trigger] flat(m),
    decreases t.len(),
{
    reveal(flat); reveal(toks_ImplMember); reveal(toks_TraitMember);
    if t.len() > 0 {
        let a = t.drop_last(); let b = m.drop_last();
        assert(forall|i: int| 0 <= i < a.len() ==> b[i] == imember_of(#[trigger] a[i]));
        tmembers_flat(a, b); assert(m[t.len() - 1] == imember_of(t[t.len() - 1]));
    }
}
pub broadcast proof fn tmembers_wf(t: Seq<TraitMember>, m: Seq<ImplMember>, a: int)
    requires same_members(t, m), #[trigger] wf_imembers(m, false, a),
    ensures #[trigger] wf_tmembers(t, a),
{
    assert forall|i: int| 0 <= i < t.len() implies wf_tmember(#[trigger] t[i], a) by { assert(wf_imember(m[i], false, a)); assert(m[i] == imember_of(t[i])); }
}
pub open spec fn wf_trait(x: Trait, a: int) -> bool {
    (a == 4 ==> kw(x.tk_unsafe, "unsafe") && x.tk_trait.s_is("trait") && x.tk_braces.delimiter == Delimiter::Brace)
    && wf_attrs(x.attributes@, false, a) && wf_attrs(x.inner_attributes@, true, a) && wf_vis(x.vis_marker, a) && wf_generics(x.generic_params, a) && wf_where(x.where_clause, a)
    && wf_bound(x.bound, pr_where(), a) && wf_tmembers(x.body_items@, a)
}
pub open spec fn wf_impl(x: Impl, a: int) -> bool {
    (a == 4 ==> kw(x.tk_unsafe, "unsafe") && x.tk_impl.s_is("impl") && x.tk_braces.delimiter == Delimiter::Brace
        && kw(x.tk_for, "for") && (x.trait_ty is Some <==> x.tk_for is Some))
    && (a == 5 ==> (match x.trait_ty { Some(t) => seg(t.tokens@, pr_for_where()) && seg(x.self_ty.tokens@, pr_where()), None => seg(x.self_ty.tokens@, pr_for_where()) }))
    && wf_attrs(x.attributes@, false, a) && wf_attrs(x.inner_attributes@, true, a) && wf_generics(x.impl_generic_params, a) && wf_where(x.where_clause, a)
    && wf_imembers(x.body_items@, false, a)
}
pub open spec fn wf_use(x: UseDeclaration, a: int) -> bool {
    (a == 4 ==> x.tk_use.s_is("use") && x.tk_semicolon.ch == ';') && (a == 5 ==> seg(x.import_tree.tokens@, pr_semi()))
    && wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a)
}
pub open spec fn wf_xblock(x: ExternBlock, a: int) -> bool {
    (a == 4 ==> kw(x.tk_unsafe, "unsafe") && x.tk_extern.s_is("extern") && x.tk_braces.delimiter == Delimiter::Brace)
    && wf_attrs(x.attributes@, false, a) && wf_attrs(x.inner_attributes@, true, a) && wf_vis(x.vis_marker, a) && wf_imembers(x.body_items@, true, a)
}
pub open spec fn wf_xcrate(x: ExternCrate, a: int) -> bool {
    (a == 4 ==> x.tk_extern.s_is("extern") && x.tk_crate.s_is("crate") && kw(x.tk_as, "as") && x.tk_semicolon.ch == ';'
        && (x.tk_as is Some <==> (x.alias is Some || x.tk_underscore is Some)) && !(x.alias is Some && x.tk_underscore is Some) && (x.tk_underscore is Some ==> x.tk_underscore->0.s_is("_")))
    && wf_attrs(x.attributes@, false, a) && wf_vis(x.vis_marker, a)
}
pub open spec fn wf_module(x: Module, a: int) -> bool decreases x {
    (a == 4 ==> kw(x.tk_unsafe, "unsafe") && x.tk_mod.s_is("mod") && pu(x.tk_semicolon, ';') && (x.tk_semicolon is Some) != (x.tk_braces is Some)
        && (match x.tk_braces { Some(g) => g.delimiter == Delimiter::Brace, None => x.inner_attributes@.len() == 0 && x.members@.len() == 0 }))
    && wf_attrs(x.attributes@, false, a) && wf_attrs(x.inner_attributes@, true, a) && wf_vis(x.vis_marker, a)
    && forall|i: int| 0 <= i < x.members@.len() ==> wf_item(#[trigger] x.members@[i], a)
}
pub open spec fn wf_item(x: Item, a: int) -> bool decreases x {
    match x {
        Item::Struct(x) => wf_struct(x, a),
        Item::Enum(x) => wf_enum(x, a),
        Item::Union(x) => wf_union(x, a),
        Item::Module(x) => wf_module(x, a),
        Item::Trait(x) => wf_trait(x, a),
        Item::Impl(x) => wf_impl(x, a),
        Item::TypeAlias(x) => wf_alias(x, a),
        Item::Function(x) => wf_fn(x, a),
        Item::Constant(x) => wf_const(x, a),
        Item::UseDeclaration(x) => wf_use(x, a),
        Item::Macro(x) => wf_macro(x, a),
        Item::ExternBlock(x) => wf_xblock(x, a),
        Item::ExternCrate(x) => wf_xcrate(x, a),
    }
}
pub open spec fn wf_items(v: Seq<Item>, a: int) -> bool { forall|i: int| 0 <= i < v.len() ==> wf_item(#[trigger] v[i], a) }
pub open spec fn wf_garg(x: GenericArg, a: int) -> bool {
    (match x {
        GenericArg::Lifetime { lifetime } => a == 4 ==> lifetime.tk_apostrophe.ch == '\'',
        GenericArg::Binding { ident, tk_equals, ty } => a == 4 ==> tk_equals.ch == '=',
        // what is neither a lone lifetime nor starts with `name =`
        GenericArg::TypeOrConst { expr } => a == 4 ==> expr.tokens@.len() > 0 && !(hd(expr.tokens@) is Ident && p0(expr.tokens@.skip(1), '=')) && !(expr.tokens@.len() == 2 && p0(expr.tokens@, '\'')),
    }) && (a == 5 ==> x.toks().len() > 0 && seg(x.toks(), pr_comma()))
}
pub open spec fn wf_gargs(l: Punctuated<GenericArg>, a: int) -> bool {
    commas(l, a) && forall|i: int| 0 <= i < l.inner@.len() ==> wf_garg((#[trigger] l.inner@[i]).0, a)
}
pub open spec fn wf_garglist(g: Option<GenericArgList>, a: int) -> bool {
    match g { None => true, Some(g) => (a == 4 ==> g.tk_l_bracket.ch == '<' && g.tk_r_bracket.ch == '>' && (match g.tk_turbofish_colons { Some(c) => wf_colon2(c@), None => true })) && wf_gargs(g.args, a) }
}
/// tokens still to come after an item of a comma-separated list which had no comma
pub open spec fn skip_ok<T>(p: Punctuated<T>, rest_ok: bool) -> bool { p.skip_last && p.inner@.len() > 0 ==> rest_ok }
/// an enum discriminant made of more than one token somewhere in `s`
#[verifier::opaque]
pub open spec fn complex_at(s: Seq<TT>, k: int) -> bool { 0 <= k && k + 2 < s.len() && is_p(s[k], '=') && !is_p(s[k + 2], ',') }
#[verifier::opaque]
pub open spec fn has_complex(s: Seq<TT>) -> bool { exists|k: int| #[trigger] complex_at(s, k) }

pub broadcast proof fn complex_cat(a: Seq<TT>, b: Seq<TT>)
    ensures complex_at(b, 0) || has_complex(b) ==> has_complex(#[trigger] (a + b)),
{
    reveal(complex_at); reveal(has_complex);
    if complex_at(b, 0) { assert(complex_at(a + b, a.len() as int)); }
    if has_complex(b) { let k = choose|k: int| complex_at(b, k); assert(complex_at(a + b, a.len() + k)); }
}
// ---- weight lemmas --------------------------------------------------------------------------
pub proof fn wsum_ext(a: Seq<TT>, b: Seq<TT>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures wsum(a, n) == wsum(b, n),
    decreases n,
{ if n > 0 { wsum_ext(a, b, (n - 1) as nat); } }
pub proof fn wsum_add(a: Seq<TT>, b: Seq<TT>, n: nat)
    requires n <= b.len(),
    ensures wsum(a + b, (a.len() + n) as nat) == wsum(a, a.len()) + wsum(b, n),
    decreases n,
{ if n == 0 { wsum_ext(a + b, a, a.len()); } else { wsum_add(a, b, (n - 1) as nat); } }
pub broadcast proof fn weight_add(a: Seq<TT>, b: Seq<TT>)
    ensures #[trigger] weight(a + b) == weight(a) + weight(b),
{ reveal(weight); wsum_add(a, b, b.len()); assert((a + b).len() == a.len() + b.len()); }
pub broadcast proof fn weight_one(t: TT)
    ensures #[trigger] weight(one(t)) == tw(t),
{ reveal(weight); reveal(one); let s = one(t); assert(wsum(s, 1) == wsum(s, 0) + tw(s[0])); }
pub open spec fn gw(g: Group) -> nat { weight(g.inner@) }
pub broadcast proof fn weight_group(g: Group)
    ensures #[trigger] weight(one(TT::Group(g))) == 1 + gw(g),
{ reveal(weight); weight_one(TT::Group(g)); }
// ---- accessors and builders ------------------------------------------------------------------
pub open spec fn item_attrs(i: Item) -> Vec<Attribute> {
    match i {
        Item::Struct(x) => x.attributes,
        Item::Enum(x) => x.attributes,
        Item::Union(x) => x.attributes,
        Item::Module(x) => x.attributes,
        Item::Trait(x) => x.attributes,
        Item::Impl(x) => x.attributes,
        Item::TypeAlias(x) => x.attributes,
        Item::Function(x) => x.attributes,
        Item::Constant(x) => x.attributes,
        Item::UseDeclaration(x) => x.attributes,
        Item::Macro(x) => x.attributes,
        Item::ExternBlock(x) => x.attributes,
        Item::ExternCrate(x) => x.attributes,
    }
}
pub open spec fn item_with_attrs(i: Item, v: Vec<Attribute>) -> Item {
    match i {
        Item::Struct(x) => Item::Struct(Struct { attributes: v, ..x }),
        Item::Enum(x) => Item::Enum(Enum { attributes: v, ..x }),
        Item::Union(x) => Item::Union(Union { attributes: v, ..x }),
        Item::Module(x) => Item::Module(Module { attributes: v, ..x }),
        Item::Trait(x) => Item::Trait(Trait { attributes: v, ..x }),
        Item::Impl(x) => Item::Impl(Impl { attributes: v, ..x }),
        Item::TypeAlias(x) => Item::TypeAlias(TypeAlias { attributes: v, ..x }),
        Item::Function(x) => Item::Function(Function { attributes: v, ..x }),
        Item::Constant(x) => Item::Constant(Constant { attributes: v, ..x }),
        Item::UseDeclaration(x) => Item::UseDeclaration(UseDeclaration { attributes: v, ..x }),
        Item::Macro(x) => Item::Macro(Macro { attributes: v, ..x }),
        Item::ExternBlock(x) => Item::ExternBlock(ExternBlock { attributes: v, ..x }),
        Item::ExternCrate(x) => Item::ExternCrate(ExternCrate { attributes: v, ..x }),
    }
}
pub open spec fn item_gparams(i: Item) -> Option<GenericParamList> {
    match i {
        Item::Struct(x) => x.generic_params,
        Item::Enum(x) => x.generic_params,
        Item::Union(x) => x.generic_params,
        Item::Trait(x) => x.generic_params,
        Item::Impl(x) => x.impl_generic_params,
        Item::Function(x) => x.generic_params,
        _ => None,
    }
}
pub open spec fn item_with_gparams(i: Item, g: Option<GenericParamList>) -> Item {
    match i {
        Item::Struct(x) => Item::Struct(Struct { generic_params: g, ..x }),
        Item::Enum(x) => Item::Enum(Enum { generic_params: g, ..x }),
        Item::Union(x) => Item::Union(Union { generic_params: g, ..x }),
        Item::Trait(x) => Item::Trait(Trait { generic_params: g, ..x }),
        Item::Impl(x) => Item::Impl(Impl { impl_generic_params: g, ..x }),
        Item::Function(x) => Item::Function(Function { generic_params: g, ..x }),
        _ => i,
    }
}
pub open spec fn item_name(i: Item) -> Option<Ident> {
    match i {
        Item::Struct(x) => Some(x.name),
        Item::Enum(x) => Some(x.name),
        Item::Union(x) => Some(x.name),
        Item::Module(x) => Some(x.name),
        Item::Trait(x) => Some(x.name),
        Item::TypeAlias(x) => Some(x.name),
        Item::Function(x) => Some(x.name),
        Item::Constant(x) => Some(x.name),
        Item::Macro(x) => Some(x.name),
        Item::ExternCrate(x) => Some(x.name),
        Item::Impl(_) => None,
        Item::UseDeclaration(_) => None,
        Item::ExternBlock(_) => None,
    }
}
pub open spec fn fields_len(f: Fields) -> nat {
    match f { Fields::Unit => 0, Fields::Tuple(t) => t.fields.inner@.len(), Fields::Named(t) => t.fields.inner@.len() }
}
pub open spec fn field_name(f: Fields, i: int) -> Seq<char> {
    match f { Fields::Unit => Seq::empty(), Fields::Tuple(t) => usize_str(i as usize), Fields::Named(t) => t.fields.inner@[i].0.name.txt@ }
}
pub open spec fn tok_of_index(i: usize) -> TT { TT::Literal(Literal { txt: Ghost(lit_usize_txt(i)), sp: call_site_span() }) }
pub open spec fn field_tok(f: Fields, i: int) -> TT {
    match f { Fields::Named(t) => TT::Ident(t.fields.inner@[i].0.name), _ => tok_of_index(i as usize) }
}
pub open spec fn field_ty(f: Fields, i: int) -> TypeExpr
    recommends !(f is Unit)
{
    match f { Fields::Named(t) => t.fields.inner@[i].0.ty, _ => f->Tuple_0.fields.inner@[i].0.ty }
}
#[verifier::opaque]
pub open spec fn idents(s: Seq<TT>) -> Seq<Ident> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() is Ident { idents(s.drop_last()).push(s.last()->Ident_0) } else { idents(s.drop_last()) }
}
pub broadcast proof fn somes_idents(s: Seq<TT>, m: Seq<Option<&Ident>>)
    requires
        m.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> (match #[trigger] m[i] { Some(x) => s[i] == TT::Ident(*x), None => !(s[i] is Ident) }),
    ensures
        (#[trigger] somes(m)).len() == (#[trigger] idents(s)).len(),
        forall|i: int| 0 <= i < idents(s).len() ==> idents(s)[i] == *(#[trigger] somes(m)[i]),
    decreases s.len(),
{
    reveal(idents);
    if s.len() > 0 {
        let a = s.drop_last();
        let b = m.drop_last();
        assert(forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == m[i] && a[i] == s[i]);
        somes_idents(a, b);
        assert(m.last() == m[m.len() - 1]);
    }
}
pub open spec fn value_toks(v: AttributeValue) -> Seq<TT> {
    match v { AttributeValue::Group(_, t) => t@, AttributeValue::Equals(_, t) => t@, AttributeValue::Empty => Seq::empty() }
}
pub open spec fn is_ty_param(p: GenericParam) -> bool { p.tk_prefix is None }
pub open spec fn plain_colon(p: Punct) -> bool { p.ch == ':' && p.spacing == Spacing::Alone && p.sp == call_site_span() }
pub open spec fn bound_is(b: Option<GenericBound>, t: Vec<TT>) -> bool { match b { Some(b) => plain_colon(b.tk_colon) && b.tokens == t, None => false } }
pub open spec fn gpl_empty(r: GenericParamList) -> bool {
    r.tk_l_bracket == newp('<')->Punct_0 && r.tk_r_bracket == newp('>')->Punct_0 && r.params.inner@.len() == 0
}
pub open spec fn gpl_with(o: Option<GenericParamList>, r: GenericParamList, p: GenericParam) -> bool {
    let l = match o { Some(x) => x.params.inner@, None => Seq::empty() };
    let e = (p, comma_or_default(None));
    (match o { Some(x) => r.tk_l_bracket == x.tk_l_bracket && r.tk_r_bracket == x.tk_r_bracket,
        None => r.tk_l_bracket == newp('<')->Punct_0 && r.tk_r_bracket == newp('>')->Punct_0 })
    && r.params.inner@ == (if is_lifetime_param(p) { one(e) + l } else { l + one(e) })
    && r.params.skip_last == (if is_lifetime_param(p) && l.len() > 0 { o->0.params.skip_last } else { true })
}
pub open spec fn where_tok(r: Ident) -> bool { r.s_is("where") && r.sp == call_site_span() }
pub open spec fn where_empty(r: WhereClause) -> bool { where_tok(r.tk_where) && r.items.inner@.len() == 0 && !r.items.skip_last }
pub open spec fn where_with(o: Option<WhereClause>, r: WhereClause, p: WhereClausePredicate) -> bool {
    let l = match o { Some(x) => x.items.inner@, None => Seq::empty() };
    (match o { Some(x) => r.tk_where == x.tk_where, None => where_tok(r.tk_where) })
    && r.items.inner@ == l + one((p, comma_or_default(None))) && r.items.skip_last
}
pub open spec fn gparams(g: Option<GenericParamList>) -> Seq<(GenericParam, Punct)> {
    match g { Some(g) => g.params.inner@, None => Seq::empty() }
}
pub open spec fn gp_refs<'a>(g: Option<GenericParamList>) -> Seq<&'a GenericParam> {
    Seq::new(gparams(g).len(), |i: int| &gparams(g)[i].0)
}
pub broadcast proof fn insert_end<T>(s: Seq<T>, x: T, i: int)
    requires i == s.len(),
    ensures #[trigger] s.insert(i, x) == s + one(x),
{ reveal(one); assert(s.insert(i, x) =~= s + one(x)); }
pub broadcast proof fn insert0<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.insert(0, x) == one(x) + s,
{ reveal(one); assert(s.insert(0, x) =~= one(x) + s); }
pub broadcast proof fn filter_ext<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] p(x) == q(x),
    ensures #[trigger] s.filter(p) == #[trigger] s.filter(q),
{ assert(p =~= q); }
pub open spec fn derive_pred(p: (WhereClausePredicate, Punct), name: Ident, t: Seq<TT>) -> bool {
    p.0.left_side@ == one(TT::Ident(name)) && plain_colon(p.0.bound.tk_colon) && p.0.bound.tokens@ == t && p.1 == comma_or_default(None)
}
/// `r` is the where clause `o` with one predicate `P: t` added for each parameter of `ps`, in order
pub open spec fn derive_where(o: Option<WhereClause>, r: WhereClause, ps: Seq<&GenericParam>, t: Seq<TT>) -> bool {
    let l = match o { Some(x) => x.items.inner@, None => Seq::empty() };
    (match o { Some(x) => r.tk_where == x.tk_where, None => where_tok(r.tk_where) })
    && r.items.inner@.len() == l.len() + ps.len()
    && (forall|i: int| 0 <= i < l.len() ==> #[trigger] r.items.inner@[i] == l[i])
    && (forall|j: int| l.len() <= j < r.items.inner@.len() ==> derive_pred(#[trigger] r.items.inner@[j], ps[j - l.len()].name, t))
    && r.items.skip_last == (if ps.len() > 0 { true } else { o is Some && o->0.items.skip_last })
}
pub open spec fn owned_arg(p: (GenericParam, Punct), r: (GenericArg, Punct)) -> bool {
    r.1 == p.1 && match r.0 {
        GenericArg::Lifetime { lifetime } => is_lifetime_param(p.0) && p.0.tk_prefix == Some(TT::Punct(lifetime.tk_apostrophe)) && lifetime.name == p.0.name,
        GenericArg::TypeOrConst { expr } => !is_lifetime_param(p.0) && expr.tokens@ == one(TT::Ident(p.0.name)),
        GenericArg::Binding { .. } => false,
    }
}
pub open spec fn path_src(s: Seq<TT>) -> Seq<TT> {
    if s.len() == 1 && is_g(s[0], Delimiter::None) { s[0]->Group_0.inner@ } else { s }
}
pub open spec fn wf_path(p: Path) -> bool {
    p.segments@.len() > 0 && wf_segments(p.segments@) && (p.segments@[0].tk_separator_colons is None ==> !not_path_kw(p.segments@[0].ident))
}
pub open spec fn wf_segments(s: Seq<PathSegment>) -> bool {
    (forall|i: int| 0 < i < s.len() ==> (#[trigger] s[i]).tk_separator_colons is Some)
    && (forall|i: int| 0 <= i < s.len() ==> wf_segment(#[trigger] s[i]))
}
pub open spec fn wf_segment(x: PathSegment) -> bool {
    (match x.tk_separator_colons { Some(c) => wf_colon2(c@), None => true }) && wf_garglist(x.generic_args, 4) && wf_garglist(x.generic_args, 5)
}
pub open spec fn simple_tail(s: Seq<TT>) -> bool decreases s.len() {
    s.len() > 0 && hd(s) is Ident && (s.len() == 1 || (colon2(s.skip(1)) && simple_tail(s.skip(3))))
}
/// the start of a type that is not a path, although the rest may look like one
pub open spec fn not_path_kw(i: Ident) -> bool { i.s_is("impl") || i.s_is("dyn") || i.s_is("for") }
pub open spec fn simple_path(s: Seq<TT>) -> bool { if s.len() > 0 && hd(s) is Ident && not_path_kw(hd(s)->Ident_0) { false } else if colon2(s) { simple_tail(s.skip(2)) } else { simple_tail(s) } }
pub open spec fn err_toks(m: ErrorMessage) -> Seq<TT> {
    seq![
        TT::Ident(Ident { txt: Ghost("compile_error"@), sp: m.start_span }),
        TT::Punct(Punct { ch: '!', spacing: Spacing::Alone, sp: m.start_span }),
        TT::Group(Group { delim: Delimiter::Brace, inner: TokenStream { s: Ghost(one(TT::Literal(Literal { txt: Ghost(lit_str_txt(m.message@)), sp: m.end_span }))) }, sp: m.end_span }),
    ]
}
#[verifier::opaque]
pub open spec fn errs_toks(v: Seq<ErrorMessage>) -> Seq<TT> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { errs_toks(v.drop_last()) + err_toks(v.last()) }
}
pub broadcast proof fn errs_flat(v: Seq<ErrorMessage>, s: Seq<TokenStream>)
    requires s.len() == v.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == err_toks(v[i]),
    ensures #[trigger] flat(s) == #[trigger] errs_toks(v),
    decreases v.len(),
{
    reveal(flat); reveal(errs_toks);
    if v.len() > 0 {
        let a = v.drop_last(); let b = s.drop_last();
        assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == s[i] && a[i] == v[i]);
        errs_flat(a, b);
        assert(s.last() == s[s.len() - 1]);
    }
}

impl<T> VIterRef for Punctuated<T> { type Elem = (T, Punct); open spec fn elems(&self) -> Seq<(T, Punct)> { self.inner@ }
    fn v_iter(&self) -> (r: VIter<&(T, Punct)>) { self.inner.v_iter() }
    fn v_slice(&self) -> (r: &[(T, Punct)]) { self.inner.as_slice() }
}

// ---- keywords are different from each other ------------------------------------------------------
#[verifier::opaque]
pub open spec fn kid(s: Seq<char>) -> (nat, char, char, char) { (s.len(), s[0], s[1], s[s.len() - 1]) }
pub proof fn keywords()
    ensures
        kid("struct"@) == (6nat, 's', 't', 't'),
        kid("enum"@) == (4nat, 'e', 'n', 'm'),
        kid("union"@) == (5nat, 'u', 'n', 'n'),
        kid("mod"@) == (3nat, 'm', 'o', 'd'),
        kid("trait"@) == (5nat, 't', 'r', 't'),
        kid("impl"@) == (4nat, 'i', 'm', 'l'),
        kid("use"@) == (3nat, 'u', 's', 'e'),
        kid("type"@) == (4nat, 't', 'y', 'e'),
        kid("static"@) == (6nat, 's', 't', 'c'),
        kid("const"@) == (5nat, 'c', 'o', 't'),
        kid("default"@) == (7nat, 'd', 'e', 't'),
        kid("async"@) == (5nat, 'a', 's', 'c'),
        kid("unsafe"@) == (6nat, 'u', 'n', 'e'),
        kid("extern"@) == (6nat, 'e', 'x', 'n'),
        kid("fn"@) == (2nat, 'f', 'n', 'n'),
        kid("crate"@) == (5nat, 'c', 'r', 'e'),
        kid("pub"@) == (3nat, 'p', 'u', 'b'),
        kid("where"@) == (5nat, 'w', 'h', 'e'),
        kid("for"@) == (3nat, 'f', 'o', 'r'),
        kid("self"@) == (4nat, 's', 'e', 'f'),
        kid("mut"@) == (3nat, 'm', 'u', 't'),
        kid("in"@) == (2nat, 'i', 'n', 'n'),
        kid("as"@) == (2nat, 'a', 's', 's'),
        kid("super"@) == (5nat, 's', 'u', 'r'),
{ reveal(kid);
    reveal_strlit("struct");
    reveal_strlit("enum");
    reveal_strlit("union");
    reveal_strlit("mod");
    reveal_strlit("trait");
    reveal_strlit("impl");
    reveal_strlit("use");
    reveal_strlit("type");
    reveal_strlit("static");
    reveal_strlit("const");
    reveal_strlit("default");
    reveal_strlit("async");
    reveal_strlit("unsafe");
    reveal_strlit("extern");
    reveal_strlit("fn");
    reveal_strlit("crate");
    reveal_strlit("pub");
    reveal_strlit("where");
    reveal_strlit("for");
    reveal_strlit("self");
    reveal_strlit("mut");
    reveal_strlit("in");
    reveal_strlit("as");
    reveal_strlit("super");
}

/// every `'` is followed by an identifier, as in everything the compiler's lexer produces
#[verifier::opaque]
pub open spec fn life_ok(s: Seq<TT>) -> bool {
    forall|i: int| 0 <= i < s.len() && is_p(#[trigger] s[i], '\'') ==> i + 1 < s.len() && s[i + 1] is Ident
}
pub broadcast proof fn life_skip(s: Seq<TT>, n: int)
    requires #[trigger] life_ok(s), 0 <= n <= s.len(),
    ensures life_ok(#[trigger] s.skip(n)),
{ reveal(life_ok); }
/// an argument of a generic list starts with a whole lifetime
pub proof fn life_first(s: Seq<TT>, a: Seq<TT>, b: Seq<TT>)
    requires life_ok(s), s == a + b, stop_ok(b, pr_comma()), a.len() > 0, is_p(hd(a), '\''),
    ensures a.len() > 1 && hd(a.skip(1)) is Ident,
{
    reveal(life_ok); reveal(hd);
    assert(s[0] == a[0]);
    if a.len() == 1 { assert(s[1] == b[0]); } else { assert(s[1] == a[1]); }
}
pub proof fn life_firsts(s: Seq<TT>)
    requires life_ok(s),
    ensures forall|a: Seq<TT>, b: Seq<TT>| s == #[trigger] (a + b) && stop_ok(b, pr_comma()) && a.len() > 0 && is_p(hd(a), '\'') ==> a.len() > 1 && hd(a.skip(1)) is Ident,
{
    assert forall|a: Seq<TT>, b: Seq<TT>| s == #[trigger] (a + b) && stop_ok(b, pr_comma()) && a.len() > 0 && is_p(hd(a), '\'') implies a.len() > 1 && hd(a.skip(1)) is Ident by { life_first(s, a, b); }
}
