//! Rendering of token trees (text, spacing, delimiters, spans), the random source and lexing.
use proc_macro2::{Delimiter, Group, Spacing, Span, TokenStream, TokenTree};

/// Source of choices. With a tape, the choices are read from it, and made up only when it has ended.
pub struct Rng(pub u64, pub Option<Tape>);
pub struct Tape {
    pub t: Vec<u64>,
    pub at: usize,
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, None)
    }
    pub fn with_tape(seed: u64, t: Vec<u64>) -> Rng {
        let mut r = Rng::new(seed);
        r.1 = Some(Tape { t, at: 0 });
        r
    }
    /// the choices made
    pub fn choices(self) -> Vec<u64> {
        self.1.map_or(vec![], |mut t| {
            t.t.truncate(t.at);
            t.t
        })
    }
    pub fn next(&mut self) -> u64 {
        if let Some(t) = &mut self.1 {
            t.at += 1;
            if t.at <= t.t.len() {
                return t.t[t.at - 1];
            }
            let x = Self::fresh(&mut self.0);
            t.t.push(x);
            return x;
        }
        Self::fresh(&mut self.0)
    }
    fn fresh(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
}

/// whether two tokens may stand next to each other without a blank and still be the same two tokens
pub fn glue(last: char, first: char) -> bool {
    let word = |c: char| c.is_alphanumeric() || "_\"'".contains(c);
    if last == '#' && word(first) {
        return false;
    }
    if word(last) && (word(first) || "#.".contains(first)) {
        return false;
    }
    !matches!((last, first), (':', ':') | ('-', '>') | ('=', '>') | ('/', '/') | ('/', '*') | ('.', '0'..='9'))
}
/// joins pieces of source text, now and then without a blank
pub fn join(r: &mut Rng, v: &[&str]) -> String {
    let mut s = String::new();
    for x in v {
        if let (Some(l), Some(f)) = (s.chars().last(), x.chars().next()) {
            if !(glue(l, f) && r.chance(1, 3)) {
                s.push(' ');
            }
        }
        s.push_str(x);
    }
    s
}
pub type Sp = (usize, usize);
/// `bytes(lo..hi)` of the fallback implementation with span locations.
pub fn sp(s: Span) -> Sp {
    use std::fmt::Write;
    // reads the two numbers as they are written
    struct Nums([usize; 2], usize);
    impl Write for Nums {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                match b {
                    b'0'..=b'9' => self.0[self.1] = self.0[self.1] * 10 + (b - b'0') as usize,
                    b'.' => self.1 = 1,
                    _ => (),
                }
            }
            Ok(())
        }
    }
    let mut n = Nums([0, 0], 0);
    let _ = write!(n, "{:?}", s);
    (n.0[0], n.0[1])
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tok {
    pub text: String,
    pub sp: Sp,
}
pub type Toks = Vec<Tok>;

pub fn delim(d: Delimiter) -> (&'static str, &'static str) {
    match d {
        Delimiter::Parenthesis => ("(", ")"),
        Delimiter::Brace => ("{", "}"),
        Delimiter::Bracket => ("[", "]"),
        Delimiter::None => ("«", "»"),
    }
}
pub fn render_into<I: IntoIterator<Item = TokenTree>>(ts: I, out: &mut Toks) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = delim(g.delimiter());
                out.push(Tok { text: o.into(), sp: sp(g.span()) });
                render_into(g.stream(), out);
                out.push(Tok { text: c.into(), sp: (0, 0) });
            }
            TokenTree::Ident(i) => out.push(Tok { text: i.to_string(), sp: sp(i.span()) }),
            TokenTree::Punct(p) => out.push(Tok {
                text: format!("{}{}", p.as_char(), if p.spacing() == Spacing::Joint { "~" } else { "" }),
                sp: sp(p.span()),
            }),
            TokenTree::Literal(l) => out.push(Tok { text: l.to_string(), sp: sp(l.span()) }),
        }
    }
}
pub fn render<I: IntoIterator<Item = TokenTree>>(ts: I) -> Toks {
    let mut v = vec![];
    render_into(ts, &mut v);
    v
}
pub fn texts(t: &Toks) -> Vec<&str> {
    t.iter().map(|x| x.text.as_str()).collect()
}
pub fn show(t: &Toks) -> String {
    texts(t).join(" ")
}
/// Lexes `s`; `[__none__ ...]` becomes a group without delimiters.  The first byte has position 1.
pub fn lex(s: &str) -> Option<TokenStream> {
    proc_macro2::extra::invalidate_current_thread_spans();
    lex_more(s)
}
pub fn lex_more(s: &str) -> Option<TokenStream> {
    s.parse::<TokenStream>().ok().map(fix)
}
fn fix(ts: TokenStream) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let mut it = fix(g.stream()).into_iter().peekable();
                let none = g.delimiter() == Delimiter::Bracket
                    && matches!(it.peek(), Some(TokenTree::Ident(i)) if i == "__none__");
                let d = if none {
                    it.next();
                    Delimiter::None
                } else {
                    g.delimiter()
                };
                let mut h = Group::new(d, it.collect());
                h.set_span(g.span());
                TokenTree::Group(h)
            }
            t => t,
        })
        .collect()
}
/// The token trees which lie in the byte range `[a, b)` of the source.
pub fn in_range(ts: &TokenStream, a: usize, b: usize, out: &mut Vec<TokenTree>) {
    for t in ts.clone() {
        let (lo, hi) = sp(t.span());
        let (lo, hi) = (lo - 1, hi - 1);
        if lo >= a && hi <= b {
            out.push(t);
        } else if let TokenTree::Group(g) = t {
            if lo <= a && b <= hi {
                in_range(&g.stream(), a, b, out);
            }
        }
    }
}
/// Reference for the span of a token sequence.
pub fn joined(ts: TokenStream) -> Sp {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    match (v.first(), v.last()) {
        (Some(a), Some(b)) if v.len() > 1 => sp(a.span().join(b.span()).unwrap_or(a.span())),
        (Some(a), _) => sp(a.span()),
        _ => sp(Span::call_site()),
    }
}
