// Contract model of the dependencies of venial (proc_macro2, quote, std::iter::Peekable and the
// few std combinators Verus has no specification for).  Everything marked `external_body` here is
// an ASSUMED contract; everything else is verified.
#[allow(unused_imports)]
pub mod proc_macro2 {
use vstd::prelude::*;

/// `true` = malformed input is allowed and may panic; `false` = every panic is a proof failure.
/// The main run takes `true`; the strict run rewrites the body to `false`.
pub open spec fn lenient() -> bool { true }

#[verifier::external_body]
pub fn vpanic() -> !
    requires lenient(),
    ensures false,
{ unimplemented!() }

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Spacing { Alone, Joint }

impl vstd::std_specs::cmp::PartialEqSpecImpl for Delimiter {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Delimiter) -> bool { *self == *other }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Spacing {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Spacing) -> bool { *self == *other }
}

#[derive(Clone, Copy)]
pub struct Span { pub id: Ghost<int> }
pub struct Ident { pub txt: Ghost<Seq<char>>, pub sp: Span }
pub struct Punct { pub ch: char, pub spacing: Spacing, pub sp: Span }
pub struct Literal { pub txt: Ghost<Seq<char>>, pub sp: Span }
pub struct Group { pub delim: Delimiter, pub inner: TokenStream, pub sp: Span }
pub struct TokenStream { pub s: Ghost<Seq<TokenTree>> }
pub enum TokenTree { Group(Group), Ident(Ident), Punct(Punct), Literal(Literal) }

/// A list of values produced by an iterator chain.
pub struct VIter<T> { pub v: Vec<T> }
pub struct Peekable<I> { pub s: Ghost<Seq<TokenTree>>, pub p: core::marker::PhantomData<I> }
pub mod token_stream {
    use vstd::prelude::*;
    pub struct IntoIter { pub s: Ghost<Seq<super::TokenTree>> }
}
pub use token_stream::IntoIter;

impl View for TokenStream { type V = Seq<TokenTree>; open spec fn view(&self) -> Seq<TokenTree> { self.s@ } }
impl View for token_stream::IntoIter { type V = Seq<TokenTree>; open spec fn view(&self) -> Seq<TokenTree> { self.s@ } }
impl<I> View for Peekable<I> { type V = Seq<TokenTree>; open spec fn view(&self) -> Seq<TokenTree> { self.s@ } }
impl<T> View for VIter<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }

pub uninterp spec fn call_site_span() -> Span;
pub uninterp spec fn mixed_site_span() -> Span;
pub uninterp spec fn span_join(a: Span, b: Span) -> Option<Span>;
pub uninterp spec fn lit_str_txt(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lit_usize_txt(n: usize) -> Seq<char>;
/// span of a token sequence, as computed by quote's `__span`
pub uninterp spec fn tokens_span(s: Seq<TokenTree>) -> Span;

impl Span {
    #[verifier::external_body]
    pub fn call_site() -> (r: Span) ensures r == call_site_span() { unimplemented!() }
    #[verifier::external_body]
    pub fn mixed_site() -> (r: Span) ensures r == mixed_site_span() { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, o: Span) -> (r: Option<Span>) ensures r == span_join(*self, o) { unimplemented!() }
}

impl Ident {
    #[verifier::external_body]
    pub fn new(s: &str, sp: Span) -> (r: Ident) ensures r.txt@ == s@, r.sp == sp { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp { unimplemented!() }
    #[verifier::external_body]
    pub fn set_span(&mut self, sp: Span) ensures *final(self) == (Ident { sp: sp, ..*old(self) }) { unimplemented!() }
    pub open spec fn s_is(&self, s: &str) -> bool { self.txt@ == s@ }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_is)]
    pub fn v_is(&self, s: &str) -> (r: bool) ensures r == self.s_is(s) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: String) ensures r@ == self.txt@ { unimplemented!() }
}
impl Punct {
    #[verifier::external_body]
    pub fn new(ch: char, spacing: Spacing) -> (r: Punct) ensures r.ch == ch, r.spacing == spacing, r.sp == call_site_span() { unimplemented!() }
    pub open spec fn s_ch(&self) -> char { self.ch }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_ch)]
    pub fn as_char(&self) -> (r: char) ensures r == self.ch { unimplemented!() }
    pub open spec fn s_spacing(&self) -> Spacing { self.spacing }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_spacing)]
    pub fn spacing(&self) -> (r: Spacing) ensures r == self.spacing { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp { unimplemented!() }
    #[verifier::external_body]
    pub fn set_span(&mut self, sp: Span) ensures *final(self) == (Punct { sp: sp, ..*old(self) }) { unimplemented!() }
}
impl Literal {
    #[verifier::external_body]
    pub fn string(s: &str) -> (r: Literal) ensures r.txt@ == lit_str_txt(s@), r.sp == call_site_span() { unimplemented!() }
    #[verifier::external_body]
    pub fn usize_unsuffixed(n: usize) -> (r: Literal) ensures r.txt@ == lit_usize_txt(n), r.sp == call_site_span() { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp { unimplemented!() }
    #[verifier::external_body]
    pub fn set_span(&mut self, sp: Span) ensures *final(self) == (Literal { sp: sp, ..*old(self) }) { unimplemented!() }
}
impl Group {
    #[verifier::external_body]
    pub fn new(delim: Delimiter, inner: TokenStream) -> (r: Group) ensures r.delim == delim, r.inner == inner, r.sp == call_site_span() { unimplemented!() }
    pub open spec fn s_delim(&self) -> Delimiter { self.delim }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(s_delim)]
    pub fn delimiter(&self) -> (r: Delimiter) ensures r == self.delim { unimplemented!() }
    #[verifier::external_body]
    pub fn stream(&self) -> (r: TokenStream) ensures r == self.inner { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp { unimplemented!() }
    #[verifier::external_body]
    pub fn set_span(&mut self, sp: Span) ensures *final(self) == (Group { sp: sp, ..*old(self) }) { unimplemented!() }
}
impl TokenTree {
    pub open spec fn s_span(&self) -> Span {
        match *self { TokenTree::Group(g) => g.sp, TokenTree::Ident(i) => i.sp, TokenTree::Punct(p) => p.sp, TokenTree::Literal(l) => l.sp }
    }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.s_span() { unimplemented!() }
}

impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { self.txt@ == other@ }
}
impl PartialEq<str> for Ident {
    #[verifier::external_body]
    fn eq(&self, o: &str) -> (r: bool) { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a str> for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&'a str) -> bool { self.txt@ == other@ }
}
impl<'a> PartialEq<&'a str> for Ident {
    #[verifier::external_body]
    fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Ident) -> bool { self.txt@ == other.txt@ }
}
impl PartialEq for Ident {
    #[verifier::external_body]
    fn eq(&self, o: &Ident) -> (r: bool) { unimplemented!() }
}

// ---- Clone -------------------------------------------------------------------------------
/// `.clone()` in the source is rendered `.vclone()`; the derived implementations are expanded, hand-written ones renamed, and
/// all of them verified against this contract.
pub trait VClone: Sized {
    fn vclone(&self) -> (r: Self) ensures r == *self;
}
impl VClone for Ident { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for Punct { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for Literal { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for Group { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for TokenStream { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for token_stream::IntoIter { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<I> VClone for Peekable<I> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
// no bound on T: the recursion through Vec<Item> stays outside of the trait; the elements are verified one by one against the same contract
impl<T> VClone for Vec<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for String { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VClone> VClone for VIter<T> { fn vclone(&self) -> (r: Self) { VIter { v: self.v.vclone() } } }
impl VClone for TokenTree {
    fn vclone(&self) -> (r: Self) {
        match self { TokenTree::Group(g) => TokenTree::Group(g.vclone()), TokenTree::Ident(i) => TokenTree::Ident(i.vclone()), TokenTree::Punct(p) => TokenTree::Punct(p.vclone()), TokenTree::Literal(l) => TokenTree::Literal(l.vclone()) }
    }
}
impl<T: VClone> VClone for Option<T> { fn vclone(&self) -> (r: Self) { match self { None => None, Some(x) => Some(x.vclone()) } } }
impl<T: VClone> VClone for Box<T> { fn vclone(&self) -> (r: Self) { Box::new((**self).vclone()) } }
impl<A: VClone, B: VClone> VClone for (A, B) { fn vclone(&self) -> (r: Self) { (self.0.vclone(), self.1.vclone()) } }
impl<T: VClone> VClone for [T; 2] { fn vclone(&self) -> (r: Self) { let r = [self[0].vclone(), self[1].vclone()]; assert(r =~= *self); r } }
impl<'a, T> VClone for &'a T { fn vclone(&self) -> (r: Self) { *self } }
impl<'a> VClone for &'a str { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for Delimiter { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for Spacing { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for Span { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for usize { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for bool { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for char { fn vclone(&self) -> (r: Self) { *self } }

// ---- token iteration -----------------------------------------------------------------------
impl<I> Peekable<I> {
    /// Assumed besides std's semantics: a token stream has less than 2^31 - 1 tokens.
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&TokenTree>)
        ensures
            match r { None => self@.len() == 0, Some(t) => self@.len() > 0 && *t == hd(self@) },
            self@.len() < 0x7fff_ffff,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<TokenTree>)
        ensures
            match r {
                None => old(self)@.len() == 0 && *final(self) == *old(self),
                Some(t) => old(self)@ == one(t) + final(self)@,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_collect<C: FromItems<TokenTree>>(self) -> (r: C) ensures r.from_items(self@) { unimplemented!() }
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn touch(&mut self) ensures *final(self) == *old(self) { }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// no effect; states the assumption on the length of a token stream
    #[verifier::external_body]
    pub fn v_bounded(&self) ensures self@.len() < 0x7fff_ffff { unimplemented!() }
}
impl token_stream::IntoIter {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<token_stream::IntoIter>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<TokenTree>)
        ensures
            match r {
                None => old(self)@.len() == 0 && *final(self) == *old(self),
                Some(t) => old(self)@ == one(t) + final(self)@,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<TokenTree>)
        ensures match r { None => self@.len() == 0, Some(t) => self@.len() > 0 && t == self@.last() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_collect<C: FromItems<TokenTree>>(self) -> (r: C) ensures r.from_items(self@) { unimplemented!() }
}
pub trait FromItems<T>: Sized { spec fn from_items(&self, s: Seq<T>) -> bool; fn v_build(v: Vec<T>) -> (r: Self) ensures r.from_items(v@); }
impl<T> FromItems<T> for Vec<T> { open spec fn from_items(&self, s: Seq<T>) -> bool { self@ == s } fn v_build(v: Vec<T>) -> (r: Self) { assert(v.from_items(v@)); v } }
impl FromItems<TokenTree> for TokenStream { open spec fn from_items(&self, s: Seq<TokenTree>) -> bool { self@ == s } #[verifier::external_body] fn v_build(v: Vec<TokenTree>) -> (r: Self) { unimplemented!() } }
impl FromItems<TokenStream> for TokenStream { open spec fn from_items(&self, s: Seq<TokenStream>) -> bool { self@ == flat(s) } #[verifier::external_body] fn v_build(v: Vec<TokenStream>) -> (r: Self) { unimplemented!() } }
pub trait VExtend<T>: Sized { fn v_extend<U: ItemSource<T>>(&mut self, u: U) ensures old(self).ext_post(*final(self), u.src()); spec fn ext_post(&self, f: Self, s: Seq<T>) -> bool; }
impl<T> VExtend<T> for Vec<T> {
    open spec fn ext_post(&self, f: Self, s: Seq<T>) -> bool { f@ == self@ + s }
    #[verifier::external_body] fn v_extend<U: ItemSource<T>>(&mut self, u: U) { unimplemented!() }
}

pub trait VIntoIter: Sized { type It; spec fn into_post(self, it: Self::It) -> bool; fn v_into_iter(self) -> (r: Self::It) ensures self.into_post(r); }
impl VIntoIter for TokenStream {
    type It = token_stream::IntoIter;
    open spec fn into_post(self, it: token_stream::IntoIter) -> bool { it@ == self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: token_stream::IntoIter) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type It = VIter<T>;
    open spec fn into_post(self, it: VIter<T>) -> bool { it.v == self }
    fn v_into_iter(self) -> (r: VIter<T>) { VIter { v: self } }
}

impl TokenStream {
    #[verifier::external_body]
    pub fn new() -> (r: TokenStream) ensures r@ == Seq::<TokenTree>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn append<U: IntoTT>(&mut self, u: U) ensures final(self)@ == old(self)@ + one(u.tt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_from_iter<U: ItemSource<TokenTree>>(u: U) -> (r: TokenStream) ensures r@ == u.src() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_extend<U: ItemSource<TokenTree>>(&mut self, u: U) ensures final(self)@ == old(self)@ + u.src() { unimplemented!() }
    pub fn touch(&mut self) ensures *final(self) == *old(self) { }
}
pub trait ItemSource<T> { spec fn src(self) -> Seq<T>; }
impl<T> ItemSource<T> for Vec<T> { open spec fn src(self) -> Seq<T> { self@ } }
impl<T> ItemSource<T> for VIter<T> { open spec fn src(self) -> Seq<T> { self@ } }
impl ItemSource<TokenTree> for TokenStream { open spec fn src(self) -> Seq<TokenTree> { self@ } }
pub trait IntoTT: Sized {
    spec fn tt(self) -> TokenTree;
    fn v_into(self) -> (r: TokenTree) ensures r == self.tt();
}
impl IntoTT for Ident { open spec fn tt(self) -> TokenTree { TokenTree::Ident(self) } fn v_into(self) -> (r: TokenTree) { TokenTree::Ident(self) } }
impl IntoTT for Punct { open spec fn tt(self) -> TokenTree { TokenTree::Punct(self) } fn v_into(self) -> (r: TokenTree) { TokenTree::Punct(self) } }
impl IntoTT for Literal { open spec fn tt(self) -> TokenTree { TokenTree::Literal(self) } fn v_into(self) -> (r: TokenTree) { TokenTree::Literal(self) } }
impl IntoTT for Group { open spec fn tt(self) -> TokenTree { TokenTree::Group(self) } fn v_into(self) -> (r: TokenTree) { TokenTree::Group(self) } }
impl IntoTT for TokenTree { open spec fn tt(self) -> TokenTree { self } fn v_into(self) -> (r: TokenTree) { self } }

// ---- panics --------------------------------------------------------------------------------
pub trait VUnwrap: Sized {
    type Out;
    spec fn has(self) -> bool;
    spec fn out(self, r: Self::Out) -> bool;
    fn v_unwrap(self) -> (r: Self::Out)
        requires lenient() || self.has(),
        ensures self.has(), self.out(r);
}
impl<T> VUnwrap for Option<T> {
    type Out = T;
    open spec fn has(self) -> bool { self is Some }
    open spec fn out(self, r: T) -> bool { self == Some(r) }
    fn v_unwrap(self) -> (r: T) { assert(self.has() == (self is Some)); match self { Some(x) => { assert(self.out(x)); x } None => vpanic() } }
}
impl<T, E> VUnwrap for Result<T, E> {
    type Out = T;
    open spec fn has(self) -> bool { self is Ok }
    open spec fn out(self, r: T) -> bool { self == Result::<T, E>::Ok(r) }
    fn v_unwrap(self) -> (r: T) { assert(self.has() == (self is Ok)); match self { Ok(x) => { assert(self.out(x)); x } Err(_) => vpanic() } }
}
/// inserting past the end is a panic
pub trait VInsert<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn v_insert(&mut self, i: usize, x: T)
        requires lenient() || i <= old(self).items().len(),
        ensures i <= old(self).items().len(), final(self).items() == old(self).items().insert(i as int, x);
}
impl<T> VInsert<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn v_insert(&mut self, i: usize, x: T) { if i > self.len() { vpanic() } self.insert(i, x) }
}
pub trait VCloned { type Out; spec fn cl(self, r: Self::Out) -> bool; fn v_cloned(self) -> (r: Self::Out) ensures self.cl(r); }
impl<'a, T: VClone> VCloned for Option<&'a T> {
    type Out = Option<T>;
    open spec fn cl(self, r: Option<T>) -> bool { match self { None => r is None, Some(x) => r == Some(*x) } }
    fn v_cloned(self) -> (r: Option<T>) { match self { None => None, Some(x) => Some(x.vclone()) } }
}

// ---- sequences -----------------------------------------------------------------------------
pub broadcast proof fn assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn empty_l<T>(a: Seq<T>)
    ensures #[trigger] (Seq::<T>::empty() + a) == a,
{ assert(Seq::empty() + a =~= a); }
pub broadcast proof fn empty_r<T>(a: Seq<T>)
    ensures #[trigger] (a + Seq::<T>::empty()) == a,
{ assert(a + Seq::empty() =~= a); }
/// the first element
#[verifier::opaque]
pub open spec fn hd<T>(s: Seq<T>) -> T { s[0] }
/// a one-element sequence
#[verifier::opaque]
pub open spec fn one<T>(t: T) -> Seq<T> { seq![t] }
pub broadcast proof fn headcons<T>(t: T, a: Seq<T>)
    ensures hd(#[trigger] (one(t) + a)) == t, (one(t) + a).len() == a.len() + 1, (one(t) + a).skip(1) == a,
{ reveal(one); reveal(hd); assert((one(t) + a).skip(1) =~= a); }
pub broadcast proof fn pushcat<T>(a: Seq<T>, t: T)
    ensures #[trigger] a.push(t) == a + one(t),
{ reveal(one); assert(a.push(t) =~= a + one(t)); }
pub broadcast proof fn one_len<T>(t: T)
    ensures (#[trigger] one(t)).len() == 1, one(t)[0] == t, hd(one(t)) == t,
{ reveal(one); reveal(hd); }
pub broadcast proof fn skip_cat<T>(a: Seq<T>, b: Seq<T>, n: int)
    requires n == a.len(),
    ensures #[trigger] (a + b).skip(n) == b,
{ assert((a + b).skip(n) =~= b); }
pub broadcast group seqs { skip_cat, assoc, empty_l, empty_r, headcons, pushcat, one_len }
