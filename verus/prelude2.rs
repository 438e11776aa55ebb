
// ---- quote ---------------------------------------------------------------------------------
pub trait ToTokens {
    spec fn toks(&self) -> Seq<TokenTree>;
    fn to_tokens(&self, tokens: &mut TokenStream)
        ensures final(tokens)@ == old(tokens)@ + self.toks();
}
impl ToTokens for Ident { open spec fn toks(&self) -> Seq<TokenTree> { one(TokenTree::Ident(*self)) }
    #[verifier::external_body] fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() } }
impl ToTokens for Punct { open spec fn toks(&self) -> Seq<TokenTree> { one(TokenTree::Punct(*self)) }
    #[verifier::external_body] fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() } }
impl ToTokens for Literal { open spec fn toks(&self) -> Seq<TokenTree> { one(TokenTree::Literal(*self)) }
    #[verifier::external_body] fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() } }
impl ToTokens for Group { open spec fn toks(&self) -> Seq<TokenTree> { one(TokenTree::Group(*self)) }
    #[verifier::external_body] fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() } }
impl ToTokens for TokenTree { open spec fn toks(&self) -> Seq<TokenTree> { one(*self) }
    #[verifier::external_body] fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() } }
impl ToTokens for TokenStream { open spec fn toks(&self) -> Seq<TokenTree> { self@ }
    #[verifier::external_body] fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() } }
impl<T: ToTokens> ToTokens for Option<T> { open spec fn toks(&self) -> Seq<TokenTree> { match self { Some(x) => x.toks(), None => Seq::empty() } }
    fn to_tokens(&self, tokens: &mut TokenStream) { match self { Some(x) => { x.to_tokens(tokens); assert(self.toks() == x.toks()); } None => { assert(self.toks() == Seq::<TokenTree>::empty()); assert(tokens@ + self.toks() =~= tokens@); } } } }
impl<'a, T: ToTokens> ToTokens for &'a T { open spec fn toks(&self) -> Seq<TokenTree> { (**self).toks() }
    fn to_tokens(&self, tokens: &mut TokenStream) { assert(self.toks() == (**self).toks()); (**self).to_tokens(tokens) } }

pub trait ToTokensExt: ToTokens + Sized {
    fn to_token_stream(&self) -> (r: TokenStream) ensures r@ == self.toks();
    fn into_token_stream(self) -> (r: TokenStream) ensures r@ == self.toks();
    fn __span(&self) -> (r: Span) ensures r == tokens_span(self.toks());
}
impl<T: ToTokens> ToTokensExt for T {
    fn to_token_stream(&self) -> (r: TokenStream) { let mut r = TokenStream::new(); self.to_tokens(&mut r); assert(Seq::<TokenTree>::empty() + self.toks() =~= self.toks()); r }
    fn into_token_stream(self) -> (r: TokenStream) { self.to_token_stream() }
    #[verifier::external_body]
    fn __span(&self) -> (r: Span) { unimplemented!() }
}

/// concatenation of the tokens of a list of printable things
#[verifier::opaque]
pub open spec fn flat<T: ToTokens>(s: Seq<T>) -> Seq<TokenTree>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last().toks() }
}
pub broadcast proof fn flat_empty<T: ToTokens>(s: Seq<T>)
    requires s.len() == 0,
    ensures #[trigger] flat(s) == Seq::<TokenTree>::empty(),
{ reveal(flat); }
pub broadcast proof fn flat_push<T: ToTokens>(s: Seq<T>, x: T)
    ensures #[trigger] flat(s + one(x)) == flat(s) + x.toks(),
{ reveal(one); reveal(flat); assert((s + one(x)).drop_last() =~= s); }
pub proof fn flat_take<T: ToTokens>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures flat(s.take(i + 1)) == flat(s.take(i)) + s[i].toks(),
{ reveal(one); assert(s.take(i + 1) =~= s.take(i) + one(s[i])); flat_push(s.take(i), s[i]); }
pub broadcast proof fn flat_tt(s: Seq<TokenTree>)
    ensures #[trigger] flat(s) == s,
    decreases s.len(),
{ reveal(flat); reveal(one); if s.len() > 0 { flat_tt(s.drop_last()); assert(s =~= s.drop_last() + one(s.last())); } else { assert(s =~= Seq::empty()); } }
/// `for x in V { x.to_tokens(T); }` (and `T.append(x.clone())`, `T.append_all(V)`) is rendered as this call
pub fn print_all<T: ToTokens>(v: &[T], tokens: &mut TokenStream)
    ensures final(tokens)@ == old(tokens)@ + flat(v@),
{
    let mut i: usize = 0;
    proof { flat_empty(v@.take(0)); empty_r(tokens@); }
    while i < v.len()
        invariant i <= v.len(), tokens@ == old(tokens)@ + flat(v@.take(i as int)),
        decreases v.len() - i,
    {
        v[i].to_tokens(tokens);
        proof { flat_take(v@, i as int); assoc(old(tokens)@, flat(v@.take(i as int)), v@[i as int].toks()); }
        i = i + 1;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
}
pub broadcast group toks_group { flat_empty, flat_push, flat_tt }

// ---- lists, slices, iterator adaptors --------------------------------------------------------
impl<T> VIter<T> {
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
}
impl<'a, T> VIter<&'a T> {
    pub fn v_at(&self, i: usize) -> (r: &'a T) requires i < self@.len() ensures r == self@[i as int] { self.v[i] }
}
impl VIter<TokenTree> {
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<token_stream::IntoIter>) ensures r@ == self@ { unimplemented!() }
}
impl<T> VIter<T> {
    pub fn v_collect<C: FromItems<T>>(self) -> (r: C) ensures r.from_items(self@) { C::v_build(self.v) }
    pub fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { let v = self.v; assert(self@ == v@); v_map_vec(v, f) }
    pub fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((&self@[i],)),
        ensures forall|s: Seq<T>, p: spec_fn(T) -> bool| s =~= self@ && keeps(f, p) ==> r@ == #[trigger] s.filter(p),
    { let v = self.v; assert(self@ == v@); v_filter_vec(v, f) }
    pub fn v_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures exists|m: Seq<Option<U>>| #[trigger] fm_ok(self@, f, m) && r@ == somes(m),
    { let v = self.v; assert(self@ == v@); v_filter_map_vec(v, f) }
}
/// every result of the filter closure is the value of the predicate
pub open spec fn keeps<T, F: Fn(&T) -> bool>(f: F, p: spec_fn(T) -> bool) -> bool {
    forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x)
}
pub open spec fn fm_ok<T, U, F: Fn(T) -> Option<U>>(s: Seq<T>, f: F, m: Seq<Option<U>>) -> bool {
    m.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] m[i])
}
pub open spec fn somes<U>(m: Seq<Option<U>>) -> Seq<U> decreases m.len() {
    if m.len() == 0 { Seq::empty() } else { match m.last() { Some(x) => somes(m.drop_last()).push(x), None => somes(m.drop_last()) } }
}
fn v_map_vec<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: VIter<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]),
{
    let mut out: Vec<U> = Vec::new();
    let mut src = VDrain { v: v, n: Ghost(0) };
    loop
        invariant
            src.v == v, 0 <= src.n@ <= v@.len(), out@.len() == src.n@,
            forall|i: int| 0 <= i < v@.len() ==> f.requires((v@[i],)),
            forall|i: int| 0 <= i < out@.len() ==> f.ensures((v@[i],), #[trigger] out@[i]),
        ensures src.n@ == v@.len(),
        decreases v@.len() - src.n@,
    {
        match src.pull() { Some(x) => { let y = f(x); out.push(y); } None => { break; } }
    }
    VIter { v: out }
}
fn v_filter_vec<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: VIter<T>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&v@[i],)),
    ensures forall|s: Seq<T>, p: spec_fn(T) -> bool| s =~= v@ && keeps(f, p) ==> r@ == #[trigger] s.filter(p),
{
    let mut out: Vec<T> = Vec::new();
    let mut src = VDrain { v: v, n: Ghost(0) };
    proof { assert(v@.take(0) =~= Seq::<T>::empty()); assert forall|p: spec_fn(T) -> bool| keeps(f, p) implies out@ == #[trigger] v@.take(0).filter(p) by { reveal(Seq::filter); assert(v@.take(0).filter(p) =~= Seq::<T>::empty()); } }
    loop
        invariant
            src.v == v, 0 <= src.n@ <= v@.len(),
            forall|p: spec_fn(T) -> bool| keeps(f, p) ==> out@ == #[trigger] v@.take(src.n@).filter(p),
            forall|i: int| 0 <= i < v@.len() ==> f.requires((&v@[i],)),
        ensures src.n@ == v@.len(),
        decreases v@.len() - src.n@,
    {
        let ghost n = src.n@;
        let ghost o0 = out@;
        match src.pull() {
            Some(x) => {
                let y = f(&x);
                if y { out.push(x); }
                proof {
                    assert(v@.take(n + 1).drop_last() =~= v@.take(n)); assert(v@.take(n + 1).last() == x);
                    assert forall|p: spec_fn(T) -> bool| keeps(f, p) implies out@ == #[trigger] v@.take(n + 1).filter(p) by {
                        reveal(Seq::filter); assert(o0 == v@.take(n).filter(p)); assert(p(x) == y);
                    }
                }
            }
            None => { break; }
        }
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    VIter { v: out }
}
fn v_filter_map_vec<T, U, F: Fn(T) -> Option<U>>(v: Vec<T>, f: F) -> (r: VIter<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((v@[i],)),
    ensures exists|m: Seq<Option<U>>| #[trigger] fm_ok(v@, f, m) && r@ == somes(m),
{
    let mut out: Vec<U> = Vec::new();
    let mut src = VDrain { v: v, n: Ghost(0) };
    let ghost mut m: Seq<Option<U>> = Seq::empty();
    loop
        invariant
            src.v == v, 0 <= src.n@ <= v@.len(), m.len() == src.n@, out@ == somes(m),
            forall|i: int| 0 <= i < v@.len() ==> f.requires((v@[i],)),
            forall|i: int| 0 <= i < m.len() ==> f.ensures((v@[i],), #[trigger] m[i]),
        ensures src.n@ == v@.len(),
        decreases v@.len() - src.n@,
    {
        match src.pull() {
            Some(x) => {
                let y = f(x);
                proof { let m2 = m.push(y); assert(m2.drop_last() =~= m); m = m2; }
                match y { Some(z) => { out.push(z); } None => {} }
            }
            None => { break; }
        }
    }
    proof { assert(fm_ok(v@, f, m)); }
    VIter { v: out }
}
/// by-value traversal of a Vec (ASSUMED: `Vec::into_iter().next()` yields the elements in order)
struct VDrain<T> { v: Vec<T>, n: Ghost<int> }
impl<T> VDrain<T> {
    #[verifier::external_body]
    fn pull(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).n@ <= old(self).v@.len(),
        ensures
            final(self).v == old(self).v,
            match r {
                None => old(self).n@ == old(self).v@.len() && final(self).n == old(self).n,
                Some(x) => old(self).n@ < old(self).v@.len() && x == old(self).v@[old(self).n@] && final(self).n@ == old(self).n@ + 1,
            },
    { unimplemented!() }
}
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub trait VIterRef { type Elem; spec fn elems(&self) -> Seq<Self::Elem>;
    fn v_iter(&self) -> (r: VIter<&Self::Elem>) ensures derefs(r@) == self.elems(), r@.len() == self.elems().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.elems()[i];
    fn v_slice(&self) -> (r: &[Self::Elem]) ensures r@ == self.elems();
}
impl<T> VIterRef for Vec<T> { type Elem = T; open spec fn elems(&self) -> Seq<T> { self@ }
    fn v_iter(&self) -> (r: VIter<&T>) { let r = v_iter_slice(self.as_slice()); assert(self.elems() == self@); assert(derefs(r@) =~= self.elems()); r }
    fn v_slice(&self) -> (r: &[T]) { let r = self.as_slice(); assert(self.elems() == self@); r }
}
impl<T> VIterRef for [T] { type Elem = T; open spec fn elems(&self) -> Seq<T> { self@ }
    fn v_iter(&self) -> (r: VIter<&T>) { let r = v_iter_slice(self); assert(self.elems() == self@); assert(derefs(r@) =~= self.elems()); r }
    fn v_slice(&self) -> (r: &[T]) { assert(self.elems() == self@); self }
}
fn v_iter_slice<T>(s: &[T]) -> (r: VIter<&T>)
    ensures derefs(r@) == s@, r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == s@[i],
{
    let mut out: Vec<&T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == s@[j],
        decreases s.len() - i,
    { out.push(&s[i]); i = i + 1; }
    proof { assert(derefs(out@) =~= s@); }
    VIter { v: out }
}
impl<'a, T: VClone> VIter<&'a T> {
    pub fn v_cloned(self) -> (r: VIter<T>) ensures r@ == derefs(self@), r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == *self@[i] {
        let mut out: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self.v.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] out@[j]) == *self.v@[j],
            decreases self.v.len() - i,
        { out.push(self.v[i].vclone()); i = i + 1; }
        proof { assert(self@ == self.v@); assert(derefs(self@) =~= out@); }
        VIter { v: out }
    }
}
pub fn v_subslice<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires lenient() || a <= b <= s@.len(),
    ensures a <= b <= s@.len(), r@ == s@.subrange(a as int, b as int),
{ if a <= b && b <= s.len() { vstd::slice::slice_subrange(s, a, b) } else { vpanic() } }
#[verifier::external_body]
pub fn v_empty<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { &[] }
pub fn v_range(a: usize, b: usize) -> (r: VIter<usize>)
    ensures a <= b ==> r@.len() == b - a, a > b ==> r@.len() == 0, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i,
{
    let mut out: Vec<usize> = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i, a <= b ==> i <= b, a > b ==> i == a, out@.len() == i - a, forall|j: int| 0 <= j < out@.len() ==> #[trigger] out@[j] == a + j,
        decreases b - i,
    { out.push(i); i = i + 1; }
    VIter { v: out }
}
#[verifier::external_body]
pub fn v_str_is(s: &String, l: &str) -> (r: bool) ensures r == (s@ == l@) { unimplemented!() }
pub uninterp spec fn usize_str(n: usize) -> Seq<char>;
/// std::fmt::Display followed by to_string
pub trait VDisplay { spec fn shown(&self) -> Seq<char>; fn v_to_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl VDisplay for usize { open spec fn shown(&self) -> Seq<char> { usize_str(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for Ident { open spec fn shown(&self) -> Seq<char> { self.txt@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> VDisplay for &'a str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }

/// std::fmt, as far as a Display implementation needs it: text written so far, and whether a write has failed
pub mod fmt {
    use vstd::prelude::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    pub struct Formatter<'a> { pub out: Ghost<Seq<char>>, pub failed: Ghost<bool>, pub p: core::marker::PhantomData<&'a ()> }
    impl<'a> Formatter<'a> {
        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures
                r is Ok ==> final(self).out@ == old(self).out@ + s@ && final(self).failed@ == old(self).failed@,
                r is Err ==> final(self).failed@,
        { unimplemented!() }
    }
}
