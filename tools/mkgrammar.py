#!/usr/bin/env python3
"""Turns the specification of the supported grammar (verus/strict/grammar.rs) into executable Rust for the falsifier, so
that the definition the proofs use is also run on generated and mutated declarations (run by hand after editing)."""
import os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/verus/strict/grammar.rs').read()
specs = open(H + '/verus/specs.rs').read()
def take(name):
    m = re.search(r'(#\[verifier::opaque\]\n)?pub open spec fn %s\(.*?\n?\}\n' % name, specs, re.S)
    i = m.start()
    # the whole definition: up to the closing brace
    j = specs.index('{', specs.index(')', m.start(0)))
    d = 0
    k = specs.index('fn ' + name, i)
    b = None
    for p in range(k, len(specs)):
        if specs[p] == '{':
            d += 1
        elif specs[p] == '}':
            d -= 1
            if d == 0:
                return specs[i:p + 1] + '\n'
need = ['is_p', 'is_i', 'is_g', 'p0', 'i0', 'g0', 'colon2', 'scan', 'scan0', 'lhs_len', 'vis_restr', 'vis0',
        'pr_comma', 'pr_comma_gt', 'pr_colon', 'pr_semi', 'pr_eq_semi', 'pr_where_end', 'pr_ret_end', 'pr_for_where', 'pr_where']
t = ''.join(take(n) for n in need) + s
t = re.sub(r'#\[verifier::opaque\]\n', '', t)
t = t.replace('pub open spec fn', 'pub fn')
t = re.sub(r'\s+decreases [^{]*\{', ' {', t)
t = t.replace('spec_fn(TT) -> bool', 'Pr')
t = re.sub(r'Seq<TT>', "S<'_>", t)
# the predicates are written as closures without captures
t = t.replace("-> Pr { |t: TT|", "-> Pr { |t: &TT|")
t = re.sub(r'\(t: TT, ', '(t: &TT, ', t)
t = re.sub(r'\bg: Group\b', 'g: &TT', t)
# enum tests and projections
for k in ['Ident', 'Punct', 'Group', 'Literal']:
    t = re.sub(r'(\bhd\((?:[^()]|\([^()]*\))*\)|\bt\b) is %s' % k, r'\1.is(K::%s)' % k, t)
    t = t.replace('->%s_0' % k, '')
t = re.sub(r'(\w+(?:\((?:[^()]|\([^()]*\))*\))?) is (Some|None)', lambda m: m.group(1) + ('.is_some()' if m.group(2) == 'Some' else '.is_none()'), t)
t = t.replace('.inner@', '.inner()').replace('.spacing == Spacing::Joint', '.joint').replace('Seq::empty()', 'S(&[])')
t = re.sub(r'\bk as int\b', 'k', t); t = re.sub(r' as int\b', '', t); t = t.replace('lhs_len(s) as int', 'lhs_len(s)')
t = t.replace(': nat', ': usize').replace('-> nat', '-> usize').replace(': int', ': i64').replace('-> int', '-> i64')
t = re.sub(r'\((i0\(u, "as"\)) ==> (id0\([^()]*\([^()]*\)\))\)', r'(!\1 || \2)', t)
t = t.replace('depth == 0', 'depth == 0').replace('g.inner()[0]', 'hd(g.inner())')
t = re.sub(r"is_i\(hd\(g\.inner\(\)\)", "is_i(hd(g.inner())", t)
t = t.replace("fn opt(s: S<'_>, w: &str) -> S<'_>", "fn opt<'a>(s: S<'a>, w: &str) -> S<'a>")
assert '==>' not in t, re.findall(r'.*==>.*', t)
head = '''//! GENERATED by tools/mkgrammar.py from verus/strict/grammar.rs and verus/specs.rs; do not edit.
#![allow(dead_code, unused_parens)]
use proc_macro2::{Delimiter, TokenStream, TokenTree};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    Group,
    Ident,
    Punct,
    Literal,
}
/// a token tree, with its contents in place
pub struct TT {
    k: K,
    txt: String,
    ch: char,
    joint: bool,
    delim: Delimiter,
    kids: Vec<TT>,
    w: usize,
}
impl TT {
    fn is(&self, k: K) -> bool {
        self.k == k
    }
    fn s_is(&self, s: &str) -> bool {
        self.txt == s
    }
    fn inner(&self) -> S<'_> {
        S(&self.kids)
    }
}
pub fn trees(ts: impl IntoIterator<Item = TokenTree>) -> Vec<TT> {
    ts.into_iter()
        .map(|t| {
            let mut x = TT { k: K::Literal, txt: String::new(), ch: '\\0', joint: false, delim: Delimiter::None, kids: vec![], w: 1 };
            match t {
                TokenTree::Group(g) => {
                    x.k = K::Group;
                    x.delim = g.delimiter();
                    x.kids = trees(g.stream());
                    x.w = 1 + x.kids.iter().map(|y| y.w).sum::<usize>();
                }
                TokenTree::Ident(i) => {
                    x.k = K::Ident;
                    x.txt = i.to_string();
                }
                TokenTree::Punct(p) => {
                    x.k = K::Punct;
                    x.ch = p.as_char();
                    x.joint = p.spacing() == proc_macro2::Spacing::Joint;
                }
                TokenTree::Literal(_) => (),
            }
            x
        })
        .collect()
}
#[derive(Clone, Copy)]
pub struct S<'a>(pub &'a [TT]);
impl<'a> S<'a> {
    pub fn len(self) -> usize {
        self.0.len()
    }
    fn skip(self, n: usize) -> S<'a> {
        S(&self.0[n.min(self.0.len())..])
    }
}
type Pr = fn(&TT) -> bool;
fn hd(s: S<'_>) -> &TT {
    &s.0[0]
}
fn weight(s: S<'_>) -> usize {
    s.0.iter().map(|x| x.w).sum()
}
/// (tokens left, an enum value of several tokens is met), or None when it is not a supported declaration
pub fn accepts(ts: &TokenStream) -> Option<(usize, bool)> {
    let v = trees(ts.clone());
    g_item(S(&v)).map(|(r, c)| (r.len(), c))
}
'''
open(H + '/oracle/src/grammar.rs', 'w').write(head + t)
