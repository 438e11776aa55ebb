//! Span-based text edits: the generated text is the source text, except where a rule says otherwise.

#[derive(Clone, Debug)]
pub enum Seg {
    T(String),
    S(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Edit {
    pub lo: usize,
    pub hi: usize,
    pub segs: Vec<Seg>,
}

pub struct Editor<'a> {
    pub src: &'a str,
    pub edits: Vec<Edit>,
}

pub fn t(s: impl Into<String>) -> Seg {
    Seg::T(s.into())
}

impl<'a> Editor<'a> {
    pub fn new(src: &'a str) -> Self {
        Editor { src, edits: vec![] }
    }
    pub fn push(&mut self, r: std::ops::Range<usize>, segs: Vec<Seg>) {
        self.edits.push(Edit { lo: r.start, hi: r.end, segs });
    }
    pub fn text(&self, r: std::ops::Range<usize>) -> &'a str {
        &self.src[r]
    }
    pub fn render_all(&self) -> String {
        self.render(0, self.src.len(), None)
    }
    pub fn render(&self, lo: usize, hi: usize, skip: Option<usize>) -> String {
        let mut c: Vec<usize> = (0..self.edits.len())
            .filter(|&i| {
                let e = &self.edits[i];
                e.lo >= lo
                    && e.hi <= hi
                    && !(e.lo == lo && e.hi == hi && skip.map_or(false, |s| i <= s))
            })
            .collect();
        c.sort_by_key(|&i| {
            let e = &self.edits[i];
            (e.lo, std::cmp::Reverse(e.hi), i)
        });
        let mut out = String::new();
        let mut pos = lo;
        for i in c {
            let e = &self.edits[i];
            if e.lo < pos {
                continue;
            }
            out.push_str(&self.src[pos..e.lo]);
            for s in &e.segs {
                match s {
                    Seg::T(x) => out.push_str(x),
                    Seg::S(a, b) => {
                        let sk = if *a == e.lo && *b == e.hi { Some(i) } else { None };
                        out.push_str(&self.render(*a, *b, sk));
                    }
                }
            }
            pos = e.hi;
            if e.lo == e.hi && pos < e.lo {
                pos = e.lo;
            }
        }
        out.push_str(&self.src[pos..hi]);
        out
    }
}
