// ---- further library contracts, for code that the current tree does not have but a change may bring ------------
/// An operation on text gives an unknown value, which is the same for the same text and argument.
pub uninterp spec fn s_text<P, R>(op: int, a: Seq<char>, p: P) -> R;
pub open spec fn same<A>(a: A, b: A) -> bool { a == b }
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == s_text::<_, usize>(0, s@, 0int);
pub trait VText {
    spec fn text(&self) -> Seq<char>;
    fn v_starts_with<P>(&self, p: P) -> (r: bool) ensures r == s_text::<_, bool>(1, self.text(), p);
    fn v_ends_with<P>(&self, p: P) -> (r: bool) ensures r == s_text::<_, bool>(2, self.text(), p);
    fn v_eq_ignore_ascii_case(&self, p: &str) -> (r: bool) ensures r == s_text::<_, bool>(3, self.text(), p@);
    fn v_trim(&self) -> (r: String) ensures r@ == s_text::<_, Seq<char>>(4, self.text(), 0int);
    fn v_to_lowercase(&self) -> (r: String) ensures r@ == s_text::<_, Seq<char>>(5, self.text(), 0int);
    fn v_to_uppercase(&self) -> (r: String) ensures r@ == s_text::<_, Seq<char>>(6, self.text(), 0int);
    fn v_trim_start_matches<P>(&self, p: P) -> (r: String) ensures r@ == s_text::<_, Seq<char>>(7, self.text(), p);
    fn v_trim_end_matches<P>(&self, p: P) -> (r: String) ensures r@ == s_text::<_, Seq<char>>(8, self.text(), p);
    fn v_find_text<P>(&self, p: P) -> (r: Option<usize>) ensures r == s_text::<_, Option<usize>>(9, self.text(), p);
    fn v_strip_prefix<P>(&self, p: P) -> (r: Option<String>) ensures r is Some == s_text::<_, Option<Seq<char>>>(10, self.text(), p) is Some, r is Some ==> r->0@ == s_text::<_, Option<Seq<char>>>(10, self.text(), p)->0;
    fn v_strip_suffix<P>(&self, p: P) -> (r: Option<String>) ensures r is Some == s_text::<_, Option<Seq<char>>>(11, self.text(), p) is Some, r is Some ==> r->0@ == s_text::<_, Option<Seq<char>>>(11, self.text(), p)->0;
    fn v_chars(&self) -> (r: VIter<char>) ensures r@ == self.text();
    fn v_bytes(&self) -> (r: VIter<u8>) ensures r@ == s_text::<_, Seq<u8>>(12, self.text(), 0int);
    fn v_char_indices(&self) -> (r: VIter<(usize, char)>) ensures r@.len() == self.text().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == self.text()[i];
    fn v_split<P>(&self, p: P) -> (r: VIter<String>);
    fn v_parse<T>(&self) -> (r: Result<T, ()>) ensures r == s_text::<int, Result<T, ()>>(13, self.text(), 0int);
}
impl VText for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_starts_with<P>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P>(&self, p: P) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P>(&self, p: P) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_find_text<P>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P>(&self, p: P) -> (r: Option<String>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P>(&self, p: P) -> (r: Option<String>) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn v_bytes(&self) -> (r: VIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn v_char_indices(&self) -> (r: VIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn v_split<P>(&self, p: P) -> (r: VIter<String>) { unimplemented!() }
    #[verifier::external_body] fn v_parse<T>(&self) -> (r: Result<T, ()>) { unimplemented!() }
}
impl VText for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_starts_with<P>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P>(&self, p: P) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P>(&self, p: P) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_find_text<P>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P>(&self, p: P) -> (r: Option<String>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P>(&self, p: P) -> (r: Option<String>) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn v_bytes(&self) -> (r: VIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn v_char_indices(&self) -> (r: VIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn v_split<P>(&self, p: P) -> (r: VIter<String>) { unimplemented!() }
    #[verifier::external_body] fn v_parse<T>(&self) -> (r: Result<T, ()>) { unimplemented!() }
}
pub trait VHas { type Of; spec fn has(&self) -> Self::Of; fn v_contains<P>(&self, p: P) -> (r: bool) ensures r == s_has::<Self::Of, P>(self.has(), p); }
pub uninterp spec fn s_has<A, P>(a: A, p: P) -> bool;
impl VHas for str { type Of = Seq<char>; open spec fn has(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_contains<P>(&self, p: P) -> (r: bool) { unimplemented!() } }
impl VHas for String { type Of = Seq<char>; open spec fn has(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_contains<P>(&self, p: P) -> (r: bool) { unimplemented!() } }
impl<T> VHas for [T] { type Of = Seq<T>; open spec fn has(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_contains<P>(&self, p: P) -> (r: bool) { unimplemented!() } }
impl<T> VHas for Vec<T> { type Of = Seq<T>; open spec fn has(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_contains<P>(&self, p: P) -> (r: bool) { unimplemented!() } }

pub uninterp spec fn group_text(g: Group) -> Seq<char>;
pub uninterp spec fn stream_text(g: Seq<TokenTree>) -> Seq<char>;
impl VDisplay for Literal { open spec fn shown(&self) -> Seq<char> { self.txt@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl Literal { pub open spec fn s_is(&self, s: &str) -> bool { self.shown() == s@ } #[verifier::external_body] #[verifier::when_used_as_spec(s_is)] pub fn v_is(&self, s: &str) -> (r: bool) ensures r == self.s_is(s) { unimplemented!() } }
impl VDisplay for Punct { open spec fn shown(&self) -> Seq<char> { seq![self.ch] } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl Punct { pub open spec fn s_is(&self, s: &str) -> bool { self.shown() == s@ } #[verifier::external_body] #[verifier::when_used_as_spec(s_is)] pub fn v_is(&self, s: &str) -> (r: bool) ensures r == self.s_is(s) { unimplemented!() } }
impl VDisplay for Group { open spec fn shown(&self) -> Seq<char> { group_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl Group { pub open spec fn s_is(&self, s: &str) -> bool { self.shown() == s@ } #[verifier::external_body] #[verifier::when_used_as_spec(s_is)] pub fn v_is(&self, s: &str) -> (r: bool) ensures r == self.s_is(s) { unimplemented!() } }
impl VDisplay for TokenStream { open spec fn shown(&self) -> Seq<char> { stream_text(self@) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl TokenStream { pub open spec fn s_is(&self, s: &str) -> bool { self.shown() == s@ } #[verifier::external_body] #[verifier::when_used_as_spec(s_is)] pub fn v_is(&self, s: &str) -> (r: bool) ensures r == self.s_is(s) { unimplemented!() } }
impl VDisplay for TokenTree { open spec fn shown(&self) -> Seq<char> { match *self { TokenTree::Ident(x) => x.txt@, TokenTree::Punct(x) => seq![x.ch], TokenTree::Literal(x) => x.txt@, TokenTree::Group(x) => group_text(x) } } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl TokenTree { pub open spec fn s_is(&self, s: &str) -> bool { self.shown() == s@ } #[verifier::external_body] #[verifier::when_used_as_spec(s_is)] pub fn v_is(&self, s: &str) -> (r: bool) ensures r == self.s_is(s) { unimplemented!() } }

impl<T> VIter<T> {
    pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    #[verifier::external_body]
    pub fn v_rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_take(self, n: usize) -> (r: VIter<T>) ensures r@ == (if n < self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_skip(self, n: usize) -> (r: VIter<T>) ensures r@ == (if n < self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_chain(self, o: VIter<T>) -> (r: VIter<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_zip<U>(self, o: VIter<U>) -> (r: VIter<(T, U)>)
        ensures r@.len() == (if self@.len() < o@.len() { self@.len() } else { o@.len() }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self@[i] && r@[i].1 == o@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@.last()) { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures
            n >= old(self)@.len() ==> r is None && final(self)@.len() == 0,
            n < old(self)@.len() ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.skip(n + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((self@[i],)),
        ensures match r {
            Some(n) => n < self@.len() && f.ensures((self@[n as int],), true) && forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&self@[i],)),
        ensures match r {
            Some(x) => exists|n: int| 0 <= n < self@.len() && x == #[trigger] self@[n] && f.ensures((&self@[n],), true) && forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false),
        },
    { unimplemented!() }
}
pub trait VRearrange<T> {
    spec fn seq(&self) -> Seq<T>;
    fn v_reverse(&mut self) ensures final(self).seq() == old(self).seq().reverse();
    fn v_swap(&mut self, a: usize, b: usize)
        requires lenient() || (a < old(self).seq().len() && b < old(self).seq().len()),
        ensures a < old(self).seq().len() && b < old(self).seq().len(), final(self).seq() == old(self).seq().update(a as int, old(self).seq()[b as int]).update(b as int, old(self).seq()[a as int]);
    fn v_rotate_left(&mut self, n: usize)
        requires lenient() || n <= old(self).seq().len(),
        ensures n <= old(self).seq().len(), final(self).seq() == old(self).seq().skip(n as int) + old(self).seq().take(n as int);
    fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).seq().len() ==> f.requires((&old(self).seq()[i],)),
        ensures forall|s: Seq<T>, p: spec_fn(T) -> bool| s =~= old(self).seq() && keeps(f, p) ==> final(self).seq() == #[trigger] s.filter(p);
    /// any shorter list
    fn v_deduped<F>(&mut self, f: F) ensures final(self).seq().len() <= old(self).seq().len();
    /// any permutation
    fn v_sorted<F>(&mut self, f: F) ensures final(self).seq().to_multiset() == old(self).seq().to_multiset(), final(self).seq().len() == old(self).seq().len();
}
impl<T> VRearrange<T> for Vec<T> {
    open spec fn seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_swap(&mut self, a: usize, b: usize) { unimplemented!() }
    #[verifier::external_body] fn v_rotate_left(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn v_deduped<F>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn v_sorted<F>(&mut self, f: F) { unimplemented!() }
}
/// taking the elements of a list one after the other
pub trait VAt<T> { spec fn at(&self) -> Seq<T>; fn v_at(&self, i: usize) -> (r: T) requires i < self.at().len() ensures r == self.at()[i as int]; }
impl<T> VAt<T> for VIter<T> { open spec fn at(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_at(&self, i: usize) -> (r: T) { unimplemented!() } }
impl<T> VAt<T> for Vec<T> { open spec fn at(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_at(&self, i: usize) -> (r: T) { unimplemented!() } }
impl<'a, T> VAt<&'a T> for &'a Vec<T> { open spec fn at(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn v_at(&self, i: usize) -> (r: &'a T) { unimplemented!() } }
impl<'a, T> VAt<&'a T> for &'a [T] { open spec fn at(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn v_at(&self, i: usize) -> (r: &'a T) { unimplemented!() } }
pub uninterp spec fn s_pred<C>(c: C, k: u32) -> bool;
#[verifier::external_body]
#[verifier::when_used_as_spec(s_pred)]
pub fn v_pred<C>(c: C, k: u32) -> (r: bool) ensures r == s_pred(c, k) { unimplemented!() }
pub fn v_or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b }) { match a { Some(x) => Some(x), None => b } }
#[verifier::external_body]
pub fn v_format() -> (r: String) { unimplemented!() }
pub trait VZip<T> { fn v_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>) where Self: Sized; }
impl<T> VZip<T> for Option<T> { fn v_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>) ensures r is Some == (self is Some && o is Some), r is Some ==> r->0 == (self->0, o->0) { match (self, o) { (Some(a), Some(b)) => Some((a, b)), _ => None } } }
impl VIter<usize> {
    #[verifier::external_body]
    pub fn v_max(self) -> (r: Option<usize>) ensures r is None == (self@.len() == 0), r is Some ==> self@.contains(r->0) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] <= r->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn v_min(self) -> (r: Option<usize>) ensures r is None == (self@.len() == 0), r is Some ==> self@.contains(r->0) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] >= r->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn v_sum(self) -> (r: usize) { unimplemented!() }
}
pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { None => s@.len() == 0, Some((x, y)) => s@.len() > 0 && *x == s@.last() && y@ == s@.drop_last() };
pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn v_max(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub trait VAhead { spec fn ahead(&self) -> Seq<TokenTree>;
    fn nth(&mut self, n: usize) -> (r: Option<TokenTree>)
        ensures
            n >= old(self).ahead().len() ==> r is None && final(self).ahead().len() == 0,
            n < old(self).ahead().len() ==> r == Some(old(self).ahead()[n as int]) && final(self).ahead() == old(self).ahead().skip(n + 1);
    fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 <= self.ahead().len(), r.1 is Some ==> r.1->0 >= self.ahead().len();
    fn v_skip(self, n: usize) -> (r: VIter<TokenTree>) where Self: Sized ensures r@ == (if n < self.ahead().len() { self.ahead().skip(n as int) } else { Seq::empty() });
    fn v_take(self, n: usize) -> (r: VIter<TokenTree>) where Self: Sized ensures r@ == (if n < self.ahead().len() { self.ahead().take(n as int) } else { self.ahead() });
    fn v_any<F: Fn(TokenTree) -> bool>(self, f: F) -> (r: bool) where Self: Sized
        requires forall|t: TokenTree| f.requires((t,)),
        ensures
            r ==> exists|i: int| 0 <= i < self.ahead().len() && f.ensures((#[trigger] self.ahead()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.ahead().len() ==> f.ensures((#[trigger] self.ahead()[i],), false);
    fn v_all<F: Fn(TokenTree) -> bool>(self, f: F) -> (r: bool) where Self: Sized
        requires forall|t: TokenTree| f.requires((t,)),
        ensures
            !r ==> exists|i: int| 0 <= i < self.ahead().len() && f.ensures((#[trigger] self.ahead()[i],), false),
            r ==> forall|i: int| 0 <= i < self.ahead().len() ==> f.ensures((#[trigger] self.ahead()[i],), true);
}
impl<I> VAhead for Peekable<I> {
    open spec fn ahead(&self) -> Seq<TokenTree> { self@ }
    #[verifier::external_body] fn nth(&mut self, n: usize) -> (r: Option<TokenTree>) { unimplemented!() }
    #[verifier::external_body] fn size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    #[verifier::external_body] fn v_skip(self, n: usize) -> (r: VIter<TokenTree>) { unimplemented!() }
    #[verifier::external_body] fn v_take(self, n: usize) -> (r: VIter<TokenTree>) { unimplemented!() }
    #[verifier::external_body] fn v_any<F: Fn(TokenTree) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_all<F: Fn(TokenTree) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
}
impl VAhead for token_stream::IntoIter {
    open spec fn ahead(&self) -> Seq<TokenTree> { self@ }
    #[verifier::external_body] fn nth(&mut self, n: usize) -> (r: Option<TokenTree>) { unimplemented!() }
    #[verifier::external_body] fn size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    #[verifier::external_body] fn v_skip(self, n: usize) -> (r: VIter<TokenTree>) { unimplemented!() }
    #[verifier::external_body] fn v_take(self, n: usize) -> (r: VIter<TokenTree>) { unimplemented!() }
    #[verifier::external_body] fn v_any<F: Fn(TokenTree) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_all<F: Fn(TokenTree) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
}
