//! Generator of supported declarations together with the expected contents of every slot.
use crate::dict;
use crate::toks::*;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    S(String),
    T(Toks),
}
pub type Map = BTreeMap<String, Val>;

enum Slot {
    Full(usize, usize),
    Head(usize, usize),
    Str(String),
}
pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub s: String,
    slots: Vec<(String, Slot)>,
    /// start of the value of the first enum variant value of several tokens, if any
    pub complex: Option<(usize, usize)>,
    pub allow_complex: bool,
    pub size: usize,
    /// how many long lists and deep types may still come
    wide: usize,
    deep: usize,
    /// few names for the whole item, so that names are equal
    pool: Vec<String>,
}

pub const IDENTS: &[&str] = &[
    "Foo", "bar", "T", "U", "x", "y1", "_", "r#type", "r#struct", "Self", "a", "b", "std", "auto", "default_", "union_", "raw", "r#fn", "super_", "crate_", "Zed",
];
pub const NAMES: &[&str] = &["Foo", "bar", "T", "U", "x", "y1", "r#type", "a", "b", "r#where", "r#mut", "Quux", "raw", "r#for", "r#self_", "auto", "data", "inner", "_marker", "new", "drop", "E", "N", "Item", "Output", "Error", "Some", "None", "value", "id", "i32", "str", "Box"];
pub const ATTRS: &[&str] = &["doc", "derive", "cfg", "cfg_attr", "repr", "serde", "inline", "must_use", "allow", "test", "path", "unsafe", "non_exhaustive", "macro_use", "default", "doc", "derive"];
pub const ABIS: &[&str] = &["\"C\"", "\"system\"", "r\"C\"", "r#\"C\"#", "\"Rust\"", "\"\"", "\"C-unwind\""];
pub const TYNAMES: &[&str] = &["u8", "Foo", "T", "U", "Vec", "String", "Self", "Box", "Option", "X9", "r#type"];
pub const LITS: &[&str] = &["1", "42u8", "\"s\"", "'c'", "b\"x\"", "1.5", "0x1F", "r\"raw\"", "\"a, b: <c>\"", "b'z'", "true", "1_000", "1e10", "'\\n'", "'\\''", "\"\\\"\"", "r#\"a\"#", "0b1", "1usize", "\"\"", "0", "' '", "1.0f32"];

/// a number below `n`, or now and then one that the source under test names
pub fn size(r: &mut Rng, n: usize) -> usize {
    let c = &dict::get().counts;
    if !c.is_empty() && r.chance(1, 8) {
        return c[r.below(c.len())].min(300);
    }
    r.below(n)
}
/// a word of the source under test, now and then
pub fn word(r: &mut Rng) -> Option<String> {
    let n = &dict::get().names;
    if n.is_empty() || !r.chance(1, 8) {
        return None;
    }
    Some(n[r.below(n.len())].clone())
}
fn quoted(r: &mut Rng) -> Option<String> {
    let n = &dict::get().strs;
    if n.is_empty() || !r.chance(1, 6) {
        return None;
    }
    Some(n[r.below(n.len())].clone())
}
/// a name: common, of the source under test, or unusual
fn odd(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "_".repeat(2 + r.below(3)),
        1 => {
            let n = size(r, 40).clamp(1, 300);
            let c: &str = r.pick(&["a", "T", "x_", "Ab"]);
            c.repeat(n / c.len() + 1)[..n].to_string()
        }
        2 => format!("{}{}", r.pick(&["_", "__", "x", "Name", "r#x", "fn_", "Self_", "T"]), r.below(100000)),
        3 => format!("{}{}{}", r.pick(NAMES).trim_start_matches("r#"), r.pick(&["_", "__", "_x", "0", "S"]), r.pick(&["", "_", "1"])),
        5 if !dict::get().names.is_empty() => {
            // a name that starts with, ends with or has a word of the source under test
            let n = &dict::get().names;
            let w = n[r.below(n.len())].trim_start_matches("r#");
            match r.below(3) {
                0 => format!("{w}{}", r.pick(&["_", "x", "1", "__"])),
                1 => format!("{}{w}", r.pick(&["_", "x", "X1", "__"])),
                _ => format!("x{w}x"),
            }
        }
        4 => r.pick(&["A", "B", "Z", "s", "i", "O", "L", "e"]).to_string(),
        _ => word(r).unwrap_or_else(|| r.pick(NAMES).to_string()),
    }
}
pub fn lit(r: &mut Rng) -> String {
    let c = &dict::get().counts;
    if !c.is_empty() && r.chance(1, 6) {
        return c[r.below(c.len())].to_string();
    }
    quoted(r).unwrap_or_else(|| r.pick(LITS).to_string())
}
fn abi(r: &mut Rng) -> String {
    quoted(r).unwrap_or_else(|| r.pick(ABIS).to_string())
}
impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, size: usize) -> Gen<'r> {
        let (wide, deep) = (r.chance(1, 16) as usize, r.chance(1, 16) as usize);
        let mut pool = vec![];
        if r.chance(1, 5) {
            for _ in 0..1 + r.below(2) {
                pool.push(odd(r));
            }
        }
        Gen { r, s: String::new(), slots: vec![], complex: None, allow_complex: false, size, wide, deep, pool }
    }
    /// number of members of a list: below `n`, rarely many more
    fn cnt(&mut self, n: usize) -> usize {
        if self.wide > 0 && self.ch(1, 3) {
            self.wide -= 1;
            let c = &dict::get().counts;
            if !c.is_empty() && self.ch(1, 2) {
                return c[self.r.below(c.len())];
            }
            return [4, 5, 6, 8, 9, 10, 12, 16, 17, 32, 33, 64, 65, 100, 129, 257][self.r.below(16)];
        }
        self.r.below(n)
    }
    fn ch(&mut self, n: usize, d: usize) -> bool {
        self.r.chance(n, d)
    }
    /// Appends a token (or a run of joint tokens) and returns its range.
    pub fn t(&mut self, x: &str) -> (usize, usize) {
        if !self.s.is_empty() {
            let last = self.s.chars().last().unwrap();
            let first = x.chars().next().unwrap();
            let tight = glue(last, first) && (if "<(,>)".contains(last) || "<(,>)".contains(first) { self.r.chance(1, 2) } else { self.r.chance(1, 4) });
            if !tight {
                self.s.push(' ');
            }
        }
        let a = self.s.len();
        self.s.push_str(x);
        (a, self.s.len())
    }
    fn full(&mut self, path: &str, r: (usize, usize)) {
        self.slots.push((path.into(), Slot::Full(r.0, r.1)));
    }
    fn head(&mut self, path: &str, r: (usize, usize)) {
        self.slots.push((path.into(), Slot::Head(r.0, r.1)));
    }
    fn is(&mut self, path: String, v: impl ToString) {
        self.slots.push((path, Slot::Str(v.to_string())));
    }
    pub fn tt(&mut self, path: String, x: &str) {
        let r = self.t(x);
        self.full(&path, r);
    }
    pub fn expected(&self, ts: &TokenStream) -> Map {
        let mut m = Map::new();
        for (p, s) in &self.slots {
            let v = match s {
                Slot::Str(x) => Val::S(x.clone()),
                Slot::Full(a, b) => {
                    let mut v = vec![];
                    in_range(ts, *a, *b, &mut v);
                    Val::T(render(v))
                }
                Slot::Head(a, b) => {
                    let mut v = vec![];
                    in_range(ts, *a, *b, &mut v);
                    assert!(v.len() == 1, "generator: group head {} in {}", p, self.s);
                    match &v[0] {
                        TokenTree::Group(g) => Val::S(format!("{}{:?}", delim(g.delimiter()).0, sp(g.span()))),
                        _ => panic!("generator: group head"),
                    }
                }
            };
            if let Some(o) = m.insert(p.clone(), v) {
                panic!("generator: duplicate slot {} {:?}", p, o);
            }
        }
        m
    }
    /// Runs `f` and records the range it emits under `path`.
    fn slot(&mut self, path: String, f: impl FnOnce(&mut Self)) {
        let a = self.s.len();
        f(self);
        let b = self.s.len();
        self.full(&path, (a, b));
    }
    fn group(&mut self, path: String, o: &str, c: &str, f: impl FnOnce(&mut Self)) {
        let a = self.t(o).0;
        f(self);
        let b = self.t(c).1;
        self.head(&path, (a, b));
    }
    fn ident(&mut self) -> String {
        self.r.pick(IDENTS).to_string()
    }
    pub fn name(&mut self) -> String {
        if let Some(n) = word(self.r) {
            return n;
        }
        if !self.pool.is_empty() && self.ch(2, 3) {
            return self.pool[self.r.below(self.pool.len())].clone();
        }
        if self.ch(1, 8) {
            return odd(self.r);
        }
        self.r.pick(NAMES).to_string()
    }
    /// a name for a lifetime
    fn lname(&mut self) -> String {
        match self.r.below(6) {
            0 => {
                let x = self.name();
                if x.starts_with("r#") { "a".to_string() } else { x }
            }
            1 => "static".to_string(),
            _ => self.r.pick(&["a", "b", "c", "_", "de", "ctx"]).to_string(),
        }
    }
    /// a type name
    fn tyname(&mut self) -> String {
        if self.ch(1, 6) {
            return self.name();
        }
        match word(self.r) {
            Some(x) => x,
            None => self.r.pick(TYNAMES).to_string(),
        }
    }
    /// a name where a contextual keyword may stand too
    fn fname(&mut self) -> String {
        if self.ch(1, 12) {
            return self.r.pick(&["default", "union", "auto", "macro_rules", "raw", "dyn", "async", "await", "try"]).to_string();
        }
        self.name()
    }
    fn any_tokens(&mut self, n: usize) {
        for _ in 0..self.r.below(n + 1) {
            match self.r.below(9) {
                0 => {
                    let x = lit(self.r);
                    self.t(&x);
                }
                1 => {
                    let none = self.ch(1, 6);
                    self.t(if none { "[" } else { "(" });
                    if none {
                        self.t("__none__");
                    }
                    self.any_tokens(2);
                    self.t(if none { "]" } else { ")" });
                }
                2 => {
                    self.t("{");
                    self.any_tokens(2);
                    self.t("}");
                }
                3 => {
                    let x = *["struct", "fn", "where", "for", "impl", "enum", "pub", "const"].get(self.r.below(8)).unwrap();
                    self.t(x);
                }
                4 | 5 => {
                    let x = *[",", ";", ":", "::", "->", "=>", "=", "<", ">", "#", "!", "&", "+", ".."].get(self.r.below(14)).unwrap();
                    self.t(x);
                }
                6 => {
                    self.t("[");
                    self.any_tokens(2);
                    self.t("]");
                }
                _ => {
                    let x = self.ident();
                    self.t(&x);
                }
            }
        }
    }
    pub fn attrs(&mut self, path: &str, inner: bool) {
        let n = if self.ch(1, 3) { 1 + self.cnt(2) } else { 0 };
        let key = if inner { "inner" } else { "attrs" };
        self.is(format!("{path}.{key}.count"), n);
        for i in 0..n {
            let p = format!("{path}.{key}[{i}]");
            self.tt(format!("{p}.hash"), "#");
            if inner {
                self.tt(format!("{p}.bang"), "!");
            }
            let a = self.t("[").0;
            self.slot(format!("{p}.path"), |g| {
                if g.ch(1, 8) {
                    g.t("::");
                }
                let x = if let Some(n) = word(g.r) { n } else if g.ch(1, 2) { g.r.pick(ATTRS).to_string() } else { g.name() };
                g.t(&x);
                while g.ch(1, 3) {
                    g.t("::");
                    let x = g.name();
                    g.t(&x);
                }
            });
            match self.r.below(4) {
                0 => self.is(format!("{p}.vkind"), "empty"),
                1 => {
                    self.is(format!("{p}.vkind"), "equals");
                    self.tt(format!("{p}.eq"), "=");
                    self.slot(format!("{p}.value"), |g| {
                        if g.ch(1, 2) {
                            let x = lit(g.r);
                            g.t(&x);
                        } else {
                            g.any_tokens(4)
                        }
                    });
                }
                _ => {
                    self.is(format!("{p}.vkind"), "group");
                    let (o, c) = [("(", ")"), ("(", ")"), ("{", "}"), ("[", "]")][self.r.below(4)];
                    let a = self.t(o).0;
                    if o == "[" && self.ch(1, 4) {
                        self.t("__none__");
                    }
                    self.slot(format!("{p}.value"), |g| g.any_tokens(4));
                    let b = self.t(c).1;
                    self.head(&format!("{p}.group"), (a, b));
                }
            }
            let b = self.t("]").1;
            self.head(&format!("{p}.brackets"), (a, b));
        }
    }
    pub fn vis(&mut self, path: &str, crate_ok: bool) {
        match self.r.below(12) {
            0 | 1 | 2 => self.slot(format!("{path}.vis"), |g| {
                g.t("pub");
            }),
            3 => self.slot(format!("{path}.vis"), |g| {
                g.t("pub");
                g.t("(");
                let x = *["crate", "self", "super"].get(g.r.below(3)).unwrap();
                g.t(x);
                g.t(")");
            }),
            4 => self.slot(format!("{path}.vis"), |g| {
                g.t("pub");
                g.t("(");
                g.t("in");
                let x = *["a", "crate", "super", "self"].get(g.r.below(4)).unwrap();
                g.t(x);
                if g.ch(1, 2) {
                    let n = 1 + if g.ch(1, 8) { g.r.below(12) } else { 0 };
                    for i in 0..n {
                        g.t("::");
                        let x = if i > 0 && g.ch(1, 3) { g.name() } else { "b".into() };
                        g.t(&x);
                    }
                }
                g.t(")");
            }),
            5 if crate_ok => self.slot(format!("{path}.vis"), |g| {
                g.t("crate");
            }),
            _ => self.is(format!("{path}.vis"), ""),
        }
    }
    pub fn life(&mut self) {
        let x = self.lname();
        self.t(&format!("'{x}"));
    }
    fn tpath(&mut self, d: usize) {
        if self.ch(1, 8) {
            self.t("::");
        } else if self.ch(1, 12) {
            self.t("crate");
            self.t("::");
        }
        for i in 0..1 + self.cnt(3) {
            if i > 0 {
                self.t("::");
            }
            let x = self.tyname();
            self.t(&x);
            if d > 0 && self.ch(2, 5) {
                if self.ch(1, 6) {
                    self.t("::");
                }
                self.gargs(d - 1);
            }
        }
    }
    fn gargs(&mut self, d: usize) {
        self.t("<");
        let n = self.cnt(4);
        for i in 0..n {
            match self.r.below(8) {
                0 | 1 => self.life(),
                2 => {
                    self.t("Item");
                    self.t("=");
                    self.ty(d, false);
                }
                3 => {
                    self.t("{");
                    self.any_tokens(3);
                    self.t("}");
                }
                4 => {
                    if self.ch(1, 2) {
                        self.t("-");
                    }
                    self.t("3");
                }
                _ => self.ty(d, false),
            }
            if i + 1 < n || self.ch(1, 5) {
                self.t(",");
            }
        }
        self.t(">");
    }
    /// A type; `top_for`: no `for` outside of brackets.
    pub fn ty(&mut self, d: usize, top_for: bool) {
        if self.deep > 0 && self.ch(1, 3) {
            self.deep -= 1;
            let mut n = [4, 5, 8, 9, 16, 17, 33, 64, 65, 130, 260][self.r.below(11)];
            let c = &dict::get().counts;
            if !c.is_empty() && self.ch(1, 2) {
                n = c[self.r.below(c.len())].min(300);
            }
            let (o, c) = *self.r.pick(&[&("Vec <", ">"), &("a :: B < u8 ,", ">"), &("Box < dyn Fn ( u8 ) ->", ">"), &("(", ",)"), &("[", "; 3]"), &("&", ""), &("* const", "")]);
            for _ in 0..n {
                for x in o.split(' ') {
                    self.t(x);
                }
            }
            self.ty(0, top_for);
            for _ in 0..n {
                for x in c.split(' ').filter(|x| !x.is_empty()) {
                    self.t(x);
                }
            }
            return;
        }
        let k = if d == 0 { self.r.below(3) } else { self.r.below(16) };
        let d1 = d.saturating_sub(1);
        match k {
            0 => {
                let x = self.tyname();
                self.t(&x);
            }
            1 | 2 | 3 | 4 => self.tpath(d),
            5 => {
                self.t("&");
                if self.ch(1, 2) {
                    self.life();
                }
                if self.ch(1, 3) {
                    self.t("mut");
                }
                self.ty(d1, top_for);
            }
            6 => {
                self.t("*");
                self.t("const");
                self.ty(d1, top_for);
            }
            7 => {
                self.t("(");
                for _ in 0..self.r.below(3) {
                    self.ty(d1, false);
                    self.t(",");
                }
                self.t(")");
            }
            8 => {
                self.t("[");
                self.ty(d1, false);
                self.t(";");
                self.t("3");
                self.t("]");
            }
            9 | 10 => {
                match self.r.below(3) {
                    0 => {
                        self.t("dyn");
                        self.t("Fn");
                    }
                    1 => {
                        self.t("impl");
                        self.t("FnOnce");
                    }
                    _ => {
                        self.t("fn");
                    }
                }
                self.t("(");
                self.ty(d1, false);
                self.t(",");
                self.t("u8");
                self.t(")");
                if self.ch(2, 3) {
                    self.t("->");
                    self.ty(d1, top_for);
                }
            }
            11 => {
                self.t("dyn");
                if !top_for && self.ch(1, 2) {
                    self.t("for");
                    self.t("<");
                    self.t("'a");
                    self.t(">");
                }
                self.tpath(d1);
                self.t("+");
                self.life();
            }
            12 => {
                self.t("<");
                self.ty(d1, false);
                self.t("as");
                self.tpath(d1);
                self.t(">");
                self.t("::");
                self.t("Out");
            }
            13 => {
                self.t("[");
                self.t("__none__");
                self.ty(d1, false);
                self.t("]");
            }
            14 => {
                self.t("m");
                self.t("!");
                self.t("(");
                self.any_tokens(3);
                self.t(")");
            }
            _ => {
                self.t("!");
            }
        }
    }
    fn bound_toks(&mut self, d: usize) {
        let n = self.cnt(4);
        for i in 0..n {
            match self.r.below(6) {
                0 => self.life(),
                1 => {
                    self.t("?");
                    self.t("Sized");
                }
                2 => {
                    self.t("Fn");
                    self.t("(");
                    self.ty(d.saturating_sub(1), false);
                    self.t(")");
                    self.t("->");
                    self.ty(d.saturating_sub(1), false);
                }
                3 => {
                    self.t("for");
                    self.t("<");
                    self.t("'a");
                    self.t(",");
                    self.t("'b");
                    self.t(">");
                    self.tpath(d);
                }
                _ => self.tpath(d),
            }
            if i + 1 < n {
                self.t("+");
            }
        }
    }
    fn comma(&mut self, path: String, last: bool) -> bool {
        if !last || self.ch(1, 2) {
            self.tt(path, ",");
            true
        } else {
            false
        }
    }
    pub fn generics(&mut self, path: &str) {
        if !self.ch(2, 5) {
            self.is(format!("{path}.gp"), "none");
            return;
        }
        self.is(format!("{path}.gp"), "some");
        self.tt(format!("{path}.gp.l"), "<");
        let n = self.cnt(4);
        self.is(format!("{path}.gp.count"), n);
        for i in 0..n {
            let p = format!("{path}.gp[{i}]");
            match self.r.below(3) {
                0 => {
                    let x = self.lname();
                    let r = self.t(&format!("'{x}"));
                    self.full(&format!("{p}.prefix"), (r.0, r.0 + 1));
                    self.full(&format!("{p}.name"), (r.0 + 1, r.1));
                    if self.ch(1, 2) {
                        self.tt(format!("{p}.colon"), ":");
                        self.slot(format!("{p}.bound"), |g| {
                            for j in 0..g.r.below(3) {
                                if j > 0 {
                                    g.t("+");
                                }
                                g.life()
                            }
                        });
                    }
                }
                1 => {
                    self.tt(format!("{p}.prefix"), "const");
                    let x = self.name();
                    self.tt(format!("{p}.name"), &x);
                    self.tt(format!("{p}.colon"), ":");
                    self.slot(format!("{p}.bound"), |g| {
                        g.ty(1, false);
                        if g.ch(1, 3) {
                            g.t("=");
                            match g.r.below(3) {
                                0 => {
                                    g.t("{");
                                    g.any_tokens(3);
                                    g.t("}");
                                }
                                1 => {
                                    g.t("-");
                                    g.t("1");
                                }
                                _ => {
                                    g.t("7");
                                }
                            }
                        }
                    });
                }
                _ => {
                    let x = self.name();
                    self.tt(format!("{p}.name"), &x);
                    if self.ch(1, 2) {
                        self.tt(format!("{p}.colon"), ":");
                        let d = self.size.min(2);
                        self.slot(format!("{p}.bound"), |g| {
                            g.bound_toks(d);
                            if g.ch(1, 4) {
                                g.t("=");
                                g.ty(d, false);
                            }
                        });
                    }
                }
            }
            if !self.comma(format!("{p}.comma"), i + 1 == n) {
                self.is(format!("{p}.comma"), "");
            }
        }
        self.tt(format!("{path}.gp.r"), ">");
    }
    pub fn wher(&mut self, path: &str) {
        if !self.ch(1, 3) {
            self.is(format!("{path}.wh"), "none");
            return;
        }
        self.is(format!("{path}.wh"), "some");
        self.tt(format!("{path}.wh.kw"), "where");
        let n = self.cnt(4);
        self.is(format!("{path}.wh.count"), n);
        for i in 0..n {
            let p = format!("{path}.wh[{i}]");
            let d = self.size.min(2);
            self.slot(format!("{p}.lhs"), |g| match g.r.below(4) {
                0 => g.life(),
                1 => {
                    g.t("for");
                    g.t("<");
                    g.t("'a");
                    g.t(">");
                    g.ty(d, false)
                }
                _ => g.ty(d, false),
            });
            self.tt(format!("{p}.colon"), ":");
            self.slot(format!("{p}.bound"), |g| g.bound_toks(d));
            if !self.comma(format!("{p}.comma"), i + 1 == n) {
                self.is(format!("{p}.comma"), "");
            }
        }
    }
    fn named_fields(&mut self, path: &str) {
        let d = self.size.min(3);
        self.group(format!("{path}.grp"), "{", "}", |g| {
            let n = g.cnt(4);
            g.is(format!("{path}.count"), n);
            for i in 0..n {
                let p = format!("{path}[{i}]");
                g.attrs(&p, false);
                g.vis(&p, true);
                let x = g.fname();
                g.tt(format!("{p}.name"), &x);
                g.tt(format!("{p}.colon"), ":");
                g.slot(format!("{p}.ty"), |g| g.ty(d, false));
                if !g.comma(format!("{p}.comma"), i + 1 == n) {
                    g.is(format!("{p}.comma"), "");
                }
            }
        });
    }
    fn tuple_fields(&mut self, path: &str) {
        let d = self.size.min(3);
        self.group(format!("{path}.grp"), "(", ")", |g| {
            let n = g.cnt(4);
            g.is(format!("{path}.count"), n);
            for i in 0..n {
                let p = format!("{path}[{i}]");
                g.attrs(&p, false);
                // a type which starts with `::` cannot follow `crate`
                g.vis(&p, false);
                g.slot(format!("{p}.ty"), |g| {
                    if g.ch(1, 6) {
                        g.t("(");
                        match g.r.below(4) {
                            0 => {
                                g.t("crate");
                                g.t("::");
                                g.t("A");
                            }
                            1 => {
                                g.t("self");
                                g.t("::");
                                g.t("A");
                            }
                            2 => {
                                g.t("super");
                                g.t("::");
                                g.t("A");
                                g.t(",");
                            }
                            _ => {}
                        }
                        g.t(")");
                    } else {
                        g.ty(d, false)
                    }
                });
                if !g.comma(format!("{p}.comma"), i + 1 == n) {
                    g.is(format!("{p}.comma"), "");
                }
            }
        });
    }
    fn value_tok(&mut self) {
        match self.r.below(6) {
            4 => {
                self.t("[");
                if self.ch(2, 3) {
                    self.t("__none__");
                }
                self.any_tokens(3);
                self.t("]");
            }
            0 => {
                self.t("(");
                self.any_tokens(3);
                self.t(")");
            }
            1 => {
                self.t("X");
            }
            2 => {
                self.t("{");
                self.any_tokens(2);
                self.t("}");
            }
            _ => {
                let x = lit(self.r);
                self.t(&x);
            }
        }
    }
    fn variants(&mut self, path: &str) {
        let n = self.cnt(4);
        self.is(format!("{path}.count"), n);
        for i in 0..n {
            let p = format!("{path}[{i}]");
            self.attrs(&p, false);
            self.vis(&p, true);
            let x = self.fname();
            self.tt(format!("{p}.name"), &x);
            match self.r.below(3) {
                0 => {
                    self.is(format!("{p}.fields"), "tuple");
                    self.tuple_fields(&format!("{p}.fields"))
                }
                1 => {
                    self.is(format!("{p}.fields"), "named");
                    self.named_fields(&format!("{p}.fields"))
                }
                _ => self.is(format!("{p}.fields"), "unit"),
            }
            if self.ch(1, 3) {
                self.tt(format!("{p}.eq"), "=");
                let a = self.s.len();
                let cx = self.allow_complex && self.ch(1, 3);
                if cx {
                    let st = self.s.len();
                    if self.ch(1, 2) {
                        self.t("-");
                    } else {
                        self.value_tok();
                    }
                    if self.ch(1, 3) {
                        let (o, e) = *[("[", "]"), ("(", ")"), ("{", "}")].get(self.r.below(3)).unwrap();
                        self.t(o);
                        self.any_tokens(2);
                        self.t(e);
                    } else {
                        let x = *["1", "+", ".", "X", "::", "<<", ";", "=", ":", "#", "!", ">", "<", "&", "|", "'a", "->", "as", "\"s\"", "?"].get(self.r.below(20)).unwrap();
                        self.t(x);
                    }
                    if self.ch(1, 2) {
                        self.t("z");
                    }
                    if self.complex.is_none() {
                        self.complex = Some((st, self.s.len()));
                    }
                } else {
                    self.value_tok();
                }
                let b = self.s.len();
                self.full(&format!("{p}.disc"), (a, b));
            } else {
                self.is(format!("{p}.disc"), "");
            }
            if !self.comma(format!("{p}.comma"), i + 1 == n) {
                self.is(format!("{p}.comma"), "");
            }
        }
    }
    fn opt(&mut self, path: String, x: &str) -> bool {
        if self.ch(1, 3) {
            self.tt(path, x);
            true
        } else {
            self.is(path, "");
            false
        }
    }
    fn params(&mut self, path: &str) {
        let d = self.size.min(3);
        self.group(format!("{path}.grp"), "(", ")", |g| {
            let n = g.cnt(4);
            g.is(format!("{path}.count"), n);
            for i in 0..n {
                let p = format!("{path}[{i}]");
                g.attrs(&p, false);
                let k = g.r.below(if i == 0 { 4 } else { 8 });
                if k < 2 {
                    g.is(format!("{p}.kind"), "receiver");
                    if g.opt(format!("{p}.ref"), "&") {
                        if g.ch(1, 2) {
                            let x = g.lname();
                            let r = g.t(&format!("'{x}"));
                            g.full(&format!("{p}.life"), r);
                        } else {
                            g.is(format!("{p}.life"), "");
                        }
                    } else {
                        g.is(format!("{p}.life"), "");
                    }
                    g.opt(format!("{p}.mut"), "mut");
                    g.tt(format!("{p}.self"), "self");
                } else {
                    g.is(format!("{p}.kind"), "typed");
                    g.opt(format!("{p}.mut"), "mut");
                    let x = if k == 2 { "self".to_string() } else { g.r.pick(&["x", "_", "self_", "r#mut", "a", "r#ref"]).to_string() };
                    g.tt(format!("{p}.name"), &x);
                    g.tt(format!("{p}.colon"), ":");
                    g.slot(format!("{p}.ty"), |g| g.ty(d, false));
                }
                if !g.comma(format!("{p}.comma"), i + 1 == n) {
                    g.is(format!("{p}.comma"), "");
                }
            }
        });
    }
    /// Function after its attributes and visibility.
    fn func(&mut self, path: &str) {
        self.is(format!("{path}.kind"), "fn");
        for q in ["default", "const", "async", "unsafe"] {
            let n = self.r.below(5);
            if n == 0 {
                self.tt(format!("{path}.q.{q}"), q);
            } else {
                self.is(format!("{path}.q.{q}"), "");
            }
        }
        if self.ch(1, 4) {
            self.tt(format!("{path}.q.extern"), "extern");
            if self.ch(1, 2) {
                let x = abi(self.r);
                let x = x.as_str();
                self.tt(format!("{path}.q.abi"), x);
            } else {
                self.is(format!("{path}.q.abi"), "");
            }
        } else {
            self.is(format!("{path}.q.extern"), "");
            self.is(format!("{path}.q.abi"), "");
        }
        self.tt(format!("{path}.kw"), "fn");
        let x = self.fname();
        self.tt(format!("{path}.name"), &x);
        self.generics(path);
        self.params(&format!("{path}.params"));
        if self.ch(1, 2) {
            let d = self.size.min(3);
            self.tt(format!("{path}.arrow"), "->");
            self.slot(format!("{path}.ret"), |g| g.ty(d, false));
        } else {
            self.is(format!("{path}.arrow"), "");
            self.is(format!("{path}.ret"), "");
        }
        self.wher(path);
        if self.ch(2, 3) {
            self.slot(format!("{path}.body"), |g| {
                g.t("{");
                g.any_tokens(4);
                g.t("}");
            });
            self.is(format!("{path}.semi"), "");
        } else {
            self.is(format!("{path}.body"), "");
            self.tt(format!("{path}.semi"), ";");
        }
    }
    fn value(&mut self) {
        if self.ch(1, 4) {
            if self.ch(1, 2) {
                let (o, c) = [("(", ")"), ("{", "}"), ("[", "]")][self.r.below(3)];
                self.t(o);
                self.t(c);
            } else {
                self.value_tok();
            }
            return;
        }
        for _ in 0..1 + self.r.below(5) {
            match self.r.below(8) {
                0 => {
                    self.t("<");
                }
                1 => {
                    self.t(">");
                }
                2 if self.ch(1, 4) => {
                    self.t("[");
                    if self.ch(1, 2) {
                        self.t("__none__");
                    }
                    self.any_tokens(3);
                    self.t("]");
                }
                2 => {
                    self.t("{");
                    self.any_tokens(3);
                    self.t("}");
                }
                3 => {
                    self.t("(");
                    self.any_tokens(3);
                    self.t(")");
                }
                4 => {
                    let x = *["->", "=>", ",", "-", "<<", ">>", "|", "==", "&&", "!", "where", "for", "=", "::", ":"].get(self.r.below(15)).unwrap();
                    self.t(x);
                }
                _ => {
                    let x = lit(self.r);
                    self.t(&x);
                }
            }
        }
    }
    fn constant(&mut self, path: &str, stat: bool) {
        self.is(format!("{path}.kind"), "const");
        self.tt(format!("{path}.kw"), if stat { "static" } else { "const" });
        if stat {
            self.opt(format!("{path}.mut"), "mut");
        } else {
            self.is(format!("{path}.mut"), "");
        }
        let x = if self.ch(1, 4) { "_".to_string() } else { self.name() };
        self.tt(format!("{path}.name"), &x);
        self.tt(format!("{path}.colon"), ":");
        let d = self.size.min(3);
        self.slot(format!("{path}.ty"), |g| g.ty(d, false));
        if self.ch(2, 3) {
            self.tt(format!("{path}.eq"), "=");
            self.slot(format!("{path}.init"), |g| g.value());
        } else {
            self.is(format!("{path}.eq"), "");
            self.is(format!("{path}.init"), "");
        }
        self.tt(format!("{path}.semi"), ";");
    }
    fn alias(&mut self, path: &str) {
        self.is(format!("{path}.kind"), "type");
        self.tt(format!("{path}.kw"), "type");
        let x = self.fname();
        self.tt(format!("{path}.name"), &x);
        let d = self.size.min(3);
        if self.ch(1, 3) {
            self.tt(format!("{path}.colon"), ":");
            self.slot(format!("{path}.bound"), |g| g.bound_toks(d));
        } else {
            self.is(format!("{path}.bound"), "none");
        }
        if self.ch(2, 3) {
            self.tt(format!("{path}.eq"), "=");
            self.slot(format!("{path}.init"), |g| g.ty(d, false));
        } else {
            self.is(format!("{path}.eq"), "");
            self.is(format!("{path}.init"), "");
        }
        self.tt(format!("{path}.semi"), ";");
    }
    fn mac(&mut self, path: &str) {
        self.is(format!("{path}.kind"), "macro");
        let x = self.r.pick(&["foo", "macro_rules", "vec", "r#type", "safe", "auto"]).to_string();
        self.tt(format!("{path}.name"), &x);
        self.tt(format!("{path}.bang"), "!");
        if self.ch(1, 3) {
            let x = self.name();
            self.tt(format!("{path}.declared"), &x);
        } else {
            self.is(format!("{path}.declared"), "");
        }
        let paren = self.ch(1, 2);
        let (o, c) = if paren { ("(", ")") } else { ("{", "}") };
        self.group(format!("{path}.grp"), o, c, |g| g.slot(format!("{path}.inner_tokens"), |g| g.any_tokens(4)));
        if paren {
            self.tt(format!("{path}.semi"), ";");
        } else {
            self.is(format!("{path}.semi"), "");
        }
    }
    fn body(&mut self, path: &str, stat: bool) {
        self.group(format!("{path}.grp"), "{", "}", |g| {
            g.attrs(path, true);
            let n = g.cnt(if g.size > 1 { 4 } else { 2 });
            g.is(format!("{path}.members.count"), n);
            for i in 0..n {
                let p = format!("{path}.members[{i}]");
                g.attrs(&p, false);
                match g.r.below(5) {
                    0 => {
                        g.vis(&p, true);
                        g.constant(&p, stat && g.s.len() % 2 == 0)
                    }
                    1 => {
                        g.vis(&p, true);
                        g.alias(&p)
                    }
                    2 => g.mac(&p),
                    _ => {
                        g.vis(&p, true);
                        g.func(&p)
                    }
                }
            }
        });
    }
    pub fn item(&mut self, path: &str) {
        self.attrs(path, false);
        let k = self.r.below(14);
        self.item_kind(path, k)
    }
    pub fn item_kind(&mut self, path: &str, k: usize) {
        // impl and macro items have no visibility
        if k != 5 && k != 10 {
            self.vis(path, true);
        }
        match k {
            0 | 1 => {
                self.is(format!("{path}.kind"), "struct");
                self.tt(format!("{path}.kw"), "struct");
                let x = self.fname();
                self.tt(format!("{path}.name"), &x);
                self.generics(path);
                match self.r.below(3) {
                    0 => {
                        self.is(format!("{path}.fields"), "unit");
                        self.wher(path);
                        self.tt(format!("{path}.semi"), ";");
                    }
                    1 => {
                        self.is(format!("{path}.fields"), "tuple");
                        self.tuple_fields(&format!("{path}.fields"));
                        self.wher(path);
                        self.tt(format!("{path}.semi"), ";");
                    }
                    _ => {
                        self.is(format!("{path}.fields"), "named");
                        self.wher(path);
                        self.named_fields(&format!("{path}.fields"));
                        self.is(format!("{path}.semi"), "");
                    }
                }
            }
            2 => {
                self.is(format!("{path}.kind"), "enum");
                self.tt(format!("{path}.kw"), "enum");
                let x = self.fname();
                self.tt(format!("{path}.name"), &x);
                self.generics(path);
                self.wher(path);
                self.group(format!("{path}.grp"), "{", "}", |g| g.variants(&format!("{path}.variants")));
            }
            3 => {
                self.is(format!("{path}.kind"), "union");
                self.tt(format!("{path}.kw"), "union");
                let x = self.fname();
                self.tt(format!("{path}.name"), &x);
                self.generics(path);
                self.wher(path);
                self.named_fields(&format!("{path}.fields"));
            }
            4 => {
                self.is(format!("{path}.kind"), "trait");
                self.opt(format!("{path}.unsafe"), "unsafe");
                self.tt(format!("{path}.kw"), "trait");
                let x = self.name();
                self.tt(format!("{path}.name"), &x);
                self.generics(path);
                let d = self.size.min(2);
                if self.ch(1, 2) {
                    self.tt(format!("{path}.colon"), ":");
                    self.slot(format!("{path}.bound"), |g| g.bound_toks(d));
                } else {
                    self.is(format!("{path}.bound"), "none");
                }
                self.wher(path);
                self.body(path, false);
            }
            5 => {
                self.is(format!("{path}.kind"), "impl");
                self.opt(format!("{path}.unsafe"), "unsafe");
                self.tt(format!("{path}.kw"), "impl");
                self.generics(path);
                let d = self.size.min(2);
                let of_trait = self.ch(1, 2);
                if of_trait {
                    self.slot(format!("{path}.trait_ty"), |g| {
                        if g.ch(1, 4) {
                            g.t("!");
                        }
                        if g.ch(1, 4) {
                            return g.tpath(d);
                        }
                        g.t("Tr");
                        if g.ch(1, 2) {
                            g.gargs(d)
                        }
                    });
                    self.tt(format!("{path}.for"), "for");
                } else {
                    self.is(format!("{path}.trait_ty"), "");
                    self.is(format!("{path}.for"), "");
                }
                self.slot(format!("{path}.self_ty"), |g| {
                    if of_trait && g.ch(1, 2) {
                        return g.ty(d, false);
                    }
                    // (a type which starts with `<` would be read as generic params)
                    if g.ch(1, 2) {
                        return g.tpath(d);
                    }
                    g.t("&");
                    g.ty(d, true)
                });
                self.wher(path);
                self.body(path, false);
            }
            6 => self.func(path),
            7 => {
                let st = self.ch(1, 2);
                self.constant(path, st)
            }
            8 => self.alias(path),
            9 => {
                self.is(format!("{path}.kind"), "use");
                self.tt(format!("{path}.kw"), "use");
                self.slot(format!("{path}.ty"), |g| {
                    if g.ch(1, 3) {
                        g.t("::");
                    }
                    let x = g.r.pick(&["a", "std", "crate", "super", "self", "r#type"]).to_string();
                    g.t(&x);
                    if g.ch(1, 4) {
                        return;
                    }
                    g.t("::");
                    while g.ch(1, 3) {
                        g.t("c");
                        g.t("::");
                    }
                    match g.r.below(4) {
                        3 => {
                            g.t("{");
                            for x in ["self", ",", "b", "::", "{", "c", ",", "*", "}", ",", "d", "as", "_", ",", "}"] {
                                g.t(x);
                            }
                        }
                        0 => {
                            g.t("*");
                        }
                        1 => {
                            g.t("{");
                            g.any_tokens(4);
                            g.t("}");
                        }
                        _ => {
                            g.t("b");
                            g.t("as");
                            g.t("_");
                        }
                    }
                });
                self.tt(format!("{path}.semi"), ";");
            }
            10 => self.mac(path),
            11 => {
                self.is(format!("{path}.kind"), "extern_block");
                self.opt(format!("{path}.unsafe"), "unsafe");
                self.tt(format!("{path}.kw"), "extern");
                let x = abi(self.r);
                let x = x.as_str();
                self.opt(format!("{path}.abi"), x);
                self.body(path, true);
            }
            12 => {
                self.is(format!("{path}.kind"), "extern_crate");
                self.tt(format!("{path}.kw"), "extern");
                self.tt(format!("{path}.crate"), "crate");
                let x = self.r.pick(&["a", "std", "self", "r#type"]).to_string();
                self.tt(format!("{path}.name"), &x);
                if self.opt(format!("{path}.as"), "as") {
                    let x = self.name();
                    self.tt(format!("{path}.alias"), &x);
                } else {
                    self.is(format!("{path}.alias"), "");
                }
                self.tt(format!("{path}.semi"), ";");
            }
            _ => {
                self.is(format!("{path}.kind"), "mod");
                self.opt(format!("{path}.unsafe"), "unsafe");
                self.tt(format!("{path}.kw"), "mod");
                let x = self.name();
                self.tt(format!("{path}.name"), &x);
                if self.ch(1, 4) {
                    self.tt(format!("{path}.semi"), ";");
                    self.is(format!("{path}.grp"), "");
                    self.is(format!("{path}.members.count"), 0);
                    self.is(format!("{path}.inner.count"), 0);
                } else {
                    self.is(format!("{path}.semi"), "");
                    let sz = self.size;
                    self.group(format!("{path}.grp"), "{", "}", |g| {
                        g.attrs(path, true);
                        let n = if sz > 1 { g.cnt(4) } else { 0 };
                        g.is(format!("{path}.members.count"), n);
                        g.size = sz.saturating_sub(1);
                        for i in 0..n {
                            g.item(&format!("{path}.members[{i}]"));
                        }
                        g.size = sz;
                    });
                }
            }
        }
    }
}

/// Random single token for mutations.
pub fn random_token(r: &mut Rng) -> &'static str {
    r.pick(&[
        "<", ">", ",", ";", ":", "::", "->", "=", "#", "!", "&", "'a", "-", "+", "pub", "crate", "where", "for", "fn", "const", "static", "unsafe", "extern", "impl", "trait", "mod", "use", "type", "struct", "enum", "union", "mut",
        "self", "x", "T", "_", "1", "\"s\"", "()", "{}", "[]", "(crate)", "(in a)", "(a)", "[a]", "#[a]", "#![a]", "default", "async", "as", "{x: T}", "(x: T,)", "macro_rules", "=>", "dyn",
    ])
}
