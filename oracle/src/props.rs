//! The scenarios: each runs one case, made from a seed, against the real code.
use crate::dump::{self, diff, dump, tags};
use crate::gen::{self, Gen, Map, Val, word};
use crate::grammar;
use crate::toks::*;
use crate::wf::{is_i, is_p, path_ok, W};
use proc_macro2::*;
use quote::ToTokens;
use std::panic::{catch_unwind, AssertUnwindSafe};
use venial::*;

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub what: String,
    pub expected: String,
    pub got: String,
}
pub struct Case {
    pub input: String,
    pub viol: Vec<Viol>,
    /// properties on which the case had something to check
    pub hit: Vec<&'static str>,
    pub on_input: Box<dyn Fn(&str) + Send>,
}
impl Case {
    fn input(&mut self, s: String) {
        (self.on_input)(&s);
        self.input = s;
    }
    fn bad(&mut self, props: &[&'static str], what: impl ToString, expected: impl ToString, got: impl ToString) {
        self.viol.push(Viol { props: props.to_vec(), what: what.to_string(), expected: expected.to_string(), got: got.to_string() });
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, props: &[&'static str], what: &str, want: T, got: T) {
        if want != got {
            self.bad(props, what, format!("{want:?}"), format!("{got:?}"));
        }
    }
    fn hits(&mut self, p: &[&'static str]) {
        for x in p {
            if !self.hit.contains(x) {
                self.hit.push(x)
            }
        }
    }
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}
fn toks<T: ToTokens>(t: &T) -> Toks {
    render(t.to_token_stream())
}
fn txt(t: &Toks) -> Vec<String> {
    t.iter().map(|x| x.text.clone()).collect()
}
fn cmp_toks(c: &mut Case, props: &[&'static str], what: &str, want: &Toks, got: &Toks) {
    if txt(want) != txt(got) {
        c.bad(props, what, show(want), show(got));
    } else if want != got {
        let k = (0..want.len()).find(|k| want[*k] != got[*k]).unwrap();
        let mut props = props.to_vec();
        if props.contains(&"C01") {
            props.push("C15")
        }
        c.bad(&props, format!("{what}: location of token {k} `{}`", want[k].text), format!("{:?}", want[k].sp), format!("{:?}", got[k].sp));
    }
}
/// Properties to which a panic on a supported declaration belongs.
fn panic_tags(src: &str) -> Vec<&'static str> {
    let mut v = vec!["C14", "C02", "C04"];
    if src.contains('<') || src.contains(',') || src.contains('=') || src.contains(':') {
        v.push("C05")
    }
    if src.contains('#') || src.contains("pub") || src.contains("crate") {
        v.push("C06")
    }
    if src.contains("enum") && src.contains('=') {
        v.push("C07")
    }
    v
}
/// Everything which must hold of a parsed item and the tokens it was parsed from.
fn check_item(c: &mut Case, item: &Item, consumed: &Toks) {
    match quiet(|| item.to_token_stream()) {
        Ok(ts) => cmp_toks(c, &["C01"], "printing the parsed item", consumed, &render(ts)),
        Err(e) => c.bad(&["C01"], "printing the parsed item panicked", show(consumed), e),
    }
    match quiet(|| {
        let mut w = W { bad: vec![] };
        w.item(item);
        w.bad
    }) {
        Ok(bad) => {
            for (t, s) in bad {
                c.bad(&[t], "well-formedness of the parsed item", "holds", s)
            }
        }
        Err(e) => c.bad(&["C04"], "reading the parsed item panicked", "", e),
    }
    check_spans(c, item);
    match quiet(|| item.clone()) {
        Err(e) => c.bad(&["C01"], "cloning the parsed item panicked", "", e),
        Ok(mut x) => {
            if let (Ok(a), Ok(b)) = (quiet(|| dump(item)), quiet(|| dump(&x))) {
                for d in diff(&a, &b) {
                    c.bad(&["C01"], format!("clone of the item, {}", d.path), d.want, d.got);
                }
            }
            accessors(c, &mut x);
        }
    }
}
fn err_at(c: &mut Case, e: &Error, cx: Option<(usize, usize)>) {
    match cx {
        None => c.bad(&["C07"], "parsing returned an error", "an item", e.to_string()),
        Some((a, b)) => {
            let (lo, hi) = sp(e.span());
            // the first byte has position 1
            if lo < a + 1 || hi > b + 1 || lo >= hi {
                c.bad(&["C07"], "location of the error", format!("within {:?}", (a + 1, b + 1)), format!("{:?}", (lo, hi)));
            }
            let n = e.to_compile_error().into_iter().count();
            if n == 0 {
                c.bad(&["C07"], "rendering of the error", "a compile error", "nothing")
            }
        }
    }
}
fn gen_sizes(r: &mut Rng) -> usize {
    [0, 1, 1, 2, 2, 3][r.below(6)]
}
/// (a) a supported declaration: every slot, round trip, spans, accessors
fn items(c: &mut Case, r: &mut Rng, complex: bool) {
    let size = gen_sizes(r);
    let mut g = Gen::new(r, size);
    g.allow_complex = complex;
    if complex {
        // an enum, or a module with enums somewhere
        g.attrs("item", false);
        let k = if g.r.chance(1, 2) { 2 } else { 13 };
        g.item_kind("item", k);
    } else {
        g.item("item");
    }
    let src = g.s.clone();
    c.input(src.clone());
    let Some(ts) = lex(&src) else { return };
    let cx = g.complex;
    let whole = render(ts.clone());
    // the supported grammar of the proofs has every generated declaration
    let acc = grammar::accepts(&ts);
    if acc.map(|x| x.1) != Some(cx.is_some()) || (cx.is_none() && acc != Some((0, false))) {
        panic!("the grammar says {acc:?}");
    }
    c.hits(&["C01", "C02", "C04", "C05", "C06", "C07", "C14", "C15", "C03", "C11"]);
    match quiet(|| parse_item(ts.clone())) {
        Err(e) if cx.is_some() => c.bad(&["C07", "C14"], "panicked instead of returning an error", "an error", e),
        Err(e) => c.bad(&panic_tags(&src), "panicked on a supported declaration", "an item", e),
        Ok(Err(e)) => err_at(c, &e, cx),
        Ok(Ok(it)) => {
            if cx.is_some() {
                c.bad(&["C07"], "accepted an enum value of several tokens", "an error", show(&toks(&it)));
                return;
            }
            check_item(c, &it, &whole);
            let want = g.expected(&ts);
            compare(c, &want, &it);
        }
    }
}
fn compare(c: &mut Case, want: &Map, it: &Item) {
    match quiet(|| dump(it)) {
        Err(e) => c.bad(&["C04"], "reading the parsed item panicked", "", e),
        Ok(got) => {
            for d in diff(want, &got) {
                if d.span_only {
                    c.bad(&["C15", "C01"], format!("location of {}", d.path), d.want, d.got);
                } else {
                    let mut t = tags(&d.path).to_vec();
                    if (d.want == "``" || d.got == "``") && d.want != "(absent)" && d.got != "(absent)" && !t.contains(&"C04") {
                        t.push("C04"); // an optional slot that is filled wrongly or not at all
                    }
                    c.bad(&t, format!("slot {}", d.path), d.want, d.got);
                }
            }
        }
    }
}
/// (b) one declaration followed by other tokens
fn concat(c: &mut Case, r: &mut Rng) {
    let n = 1 + r.below(4);
    let mut parts = vec![];
    for _ in 0..n {
        let size = gen_sizes(r).min(2);
        let mut g = Gen::new(r, size);
        g.item("item");
        parts.push(g.s);
    }
    let junk: String = (0..r.below(4)).map(|_| gen::random_token(r)).collect::<Vec<_>>().join(" ");
    let sep = if r.chance(1, 2) { "\n" } else { " " };
    let src = format!("{}{sep}{junk}", parts.join(sep));
    c.input(src.clone());
    let Some(ts) = lex(&src) else { return };
    let mut counts = vec![];
    for p in &parts {
        match lex_more(p) {
            Some(t) => counts.push(t.into_iter().count()),
            None => return,
        }
    }
    c.hits(&["C01", "C02", "C03"]);
    let all: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut it = ts.clone().into_iter().peekable();
    let mut pos = 0;
    for (k, n) in counts.iter().enumerate() {
        let consumed = render(all[pos..pos + n].iter().cloned());
        match quiet(|| consume_item(&mut it)) {
            Err(e) => {
                c.bad(&["C02", "C14"], format!("declaration {k} of a sequence"), "an item", format!("panic: {e}"));
                return;
            }
            Ok(Err(e)) => {
                c.bad(&["C02", "C07"], format!("declaration {k} of a sequence"), "an item", format!("error: {e}"));
                return;
            }
            Ok(Ok(item)) => {
                let got = toks(&item);
                if txt(&got) != txt(&consumed) {
                    c.bad(&["C02"], format!("tokens of declaration {k} of a sequence"), show(&consumed), show(&got));
                    return;
                }
                if got != consumed {
                    cmp_toks(c, &["C01"], &format!("tokens of declaration {k} of a sequence"), &consumed, &got);
                }
                pos += n;
                let rest = render(it.clone());
                let want = render(all[pos..].iter().cloned());
                if rest != want {
                    c.bad(&["C02"], format!("tokens left after declaration {k}"), show(&want), show(&rest));
                    return;
                }
            }
        }
    }
    // a whole stream with left-over tokens is never an item
    if all.len() > counts[0] {
        if let Ok(Ok(item)) = quiet(|| parse_item(ts.clone())) {
            c.bad(&["C02"], "parse_item returned an item although tokens are left", "panic", show(&toks(&item)));
        }
    }
}
fn count_levels(ts: &[TokenTree]) -> usize {
    1 + ts.iter().map(|t| if let TokenTree::Group(g) = t { count_levels(&g.stream().into_iter().collect::<Vec<_>>()) } else { 0 }).sum::<usize>()
}
fn mutate_at(ts: Vec<TokenTree>, k: &mut usize, r: &mut Rng) -> Vec<TokenTree> {
    if *k == 0 {
        *k = usize::MAX;
        let mut v = ts;
        let i = if v.is_empty() { 0 } else { r.below(v.len()) };
        let new: Vec<TokenTree> = lex_more(gen::random_token(r)).map_or(vec![], |t| t.into_iter().collect());
        match r.below(7) {
            0 if !v.is_empty() => {
                v.remove(i);
            }
            1 if !v.is_empty() => {
                let t = v[i].clone();
                v.insert(i, t);
            }
            2 if v.len() > 1 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 if !v.is_empty() => {
                v.splice(i..i + 1, new);
            }
            4 if !v.is_empty() => v.truncate(i),
            5 if !v.is_empty() => {
                if let TokenTree::Group(g) = v[i].clone() {
                    let d = [Delimiter::Brace, Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::None][r.below(4)];
                    let mut h = Group::new(d, g.stream());
                    h.set_span(g.span());
                    v[i] = h.into();
                } else if let TokenTree::Punct(p) = v[i].clone() {
                    let mut q = Punct::new(p.as_char(), if p.spacing() == Spacing::Joint { Spacing::Alone } else { Spacing::Joint });
                    q.set_span(p.span());
                    v[i] = q.into();
                }
            }
            _ => {
                v.splice(i..i, new);
            }
        }
        return v;
    }
    *k = k.wrapping_sub(1);
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) if *k != usize::MAX => {
                let inner = mutate_at(g.stream().into_iter().collect(), k, r);
                let mut h = Group::new(g.delimiter(), inner.into_iter().collect());
                h.set_span(g.span());
                h.into()
            }
            t => t,
        })
        .collect()
}
/// A token stream about which nothing is known: whatever is returned must fit the input.
fn arbitrary(c: &mut Case, ts: TokenStream) {
    let all: Vec<TokenTree> = ts.clone().into_iter().collect();
    c.input(show(&render(ts.clone())));
    c.hits(&["C03"]);
    let mut it = ts.clone().into_iter().peekable();
    let res = quiet(|| consume_item(&mut it));
    let left: Vec<TokenTree> = it.collect();
    if all.len() < 3000 {
        if let Some((n, complex)) = grammar::accepts(&ts) {
            c.hits(&["C14", "C02"]);
            let tags = panic_tags(&c.input);
            match &res {
                Err(e) if complex => c.bad(&["C14", "C07"], "panicked on a supported declaration", "an error", e),
                Err(e) => c.bad(&tags, "panicked on a supported declaration", "an item", e),
                Ok(Err(e)) if !complex => c.bad(&["C14", "C07"], "error on a supported declaration", "an item", e),
                Ok(Ok(_)) if complex => c.bad(&["C14", "C07"], "accepted an enum value of several tokens", "an error", "an item"),
                Ok(_) if left.len() != n => c.bad(&["C14", "C02"], "the number of tokens left after a supported declaration", n, left.len()),
                _ => (),
            }
        }
    }
    if let Ok(Ok(item)) = &res {
        c.hits(&["C01", "C02", "C04", "C05", "C06", "C15", "C11"]);
        let rest = render(left.iter().cloned());
        let whole = render(all.iter().cloned());
        if left.len() > all.len() || render(all[all.len() - left.len()..].iter().cloned()) != rest {
            c.bad(&["C02"], "the tokens left are not the end of the input", show(&whole), show(&rest));
        } else {
            let consumed = render(all[..all.len() - left.len()].iter().cloned());
            check_item(c, item, &consumed);
        }
    }
    if let Ok(Err(e)) = &res {
        // an error needs an enum with a value
        c.hits(&["C07"]);
        let s = render(all.iter().cloned());
        if !(s.iter().any(|t| t.text == "enum") && s.iter().any(|t| t.text.starts_with('='))) {
            c.bad(&["C07"], "error without an enum value", "no error", e.to_string());
        }
    }
    let whole = quiet(|| parse_item(ts.clone()));
    match (&whole, &res) {
        (Ok(Ok(_)), _) if !left.is_empty() && matches!(res, Ok(Ok(_))) => c.bad(&["C02"], "parse_item returned an item although tokens are left", "panic", show(&render(left.iter().cloned()))),
        (Ok(Ok(a)), Ok(Ok(b))) => {
            if dump(a) != dump(b) {
                c.bad(&["C02"], "parse_item and consume_item disagree", show(&toks(b)), show(&toks(a)))
            }
        }
        (Err(e), Ok(Ok(_))) if left.is_empty() => c.bad(&["C02", "C14"], "parse_item panicked where consume_item took the whole stream", "an item", e),
        (Ok(Ok(a)), _) => c.bad(&["C02"], "parse_item returned an item where consume_item did not", "", show(&toks(a))),
        _ => (),
    }
}
fn mutate(c: &mut Case, r: &mut Rng) {
    let size = gen_sizes(r).min(2);
    let mut g = Gen::new(r, size);
    g.allow_complex = g.r.chance(1, 4);
    g.item("item");
    let src = g.s;
    let Some(ts) = lex(&src) else { return };
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    for _ in 0..1 + r.below(2) {
        let mut k = r.below(count_levels(&v));
        v = mutate_at(v, &mut k, r);
    }
    arbitrary(c, v.into_iter().collect());
}
const TEMPLATES: &[(&str, &str)] = &[
    ("", ""),
    ("struct A", ""),
    ("struct A", ";"),
    ("struct A", "{ }"),
    ("struct A(", ");"),
    ("struct A{", "}"),
    ("struct A<", ">;"),
    ("struct A where", ";"),
    ("struct A(x)", ";"),
    ("enum E", "{ A }"),
    ("enum E{", "}"),
    ("enum E{A =", ", B}"),
    ("enum E{A", "}"),
    ("union U", "{a: b}"),
    ("union U{", "}"),
    ("fn f(", ") {}"),
    ("fn f()", "{}"),
    ("fn f()", ";"),
    ("fn f() ->", "{}"),
    ("", "fn f() {}"),
    ("fn f<", ">();"),
    ("impl", "{}"),
    ("impl A for", "{}"),
    ("impl A {", "}"),
    ("trait T", "{}"),
    ("trait T{", "}"),
    ("mod m{", "}"),
    ("mod m", ""),
    ("const A: x =", ";"),
    ("const A", ";"),
    ("static", ";"),
    ("type A", ";"),
    ("type A =", ";"),
    ("use", ";"),
    ("extern", ";"),
    ("extern", "{}"),
    ("extern {", "}"),
    ("#[", "] struct A;"),
    ("#[a]", "struct A;"),
    ("foo!", ";"),
    ("foo!", ""),
    ("mod m { struct A;", "}"),
    ("pub", "struct A;"),
    ("pub", "foo! {}"),
    ("pub", "foo!();"),
    ("pub", "impl A {}"),
    ("impl A { pub", "foo! {} }"),
    ("trait A { pub", "foo!(); }"),
    ("impl A { pub", "fn f() {} }"),
    ("enum E{A", "= 1, B}"),
    ("enum E{A", ", B}"),
    ("static", "A: x = 1;"),
    ("const", "A: x = 1;"),
    ("unsafe", "{}"),
    ("mod m;", ""),
    ("#![a]", "struct A;"),
    ("struct A where a::b<T>:", "{}"),
];
const SMALL: &[&str] = &[
    "<", ">", ",", ";", ":", "::", "->", "=", "#", "!", "&", "'a", "-", "pub", "crate", "where", "for", "fn", "const", "static", "unsafe", "extern", "impl", "mod", "use", "type", "struct", "enum", "union", "trait", "mut", "self", "x", "T",
    "1", "\"s\"", "()", "{}", "[]", "(crate)", "(a)", "#[a]", "#![a]", "default", "async", "as", "{x: T}", "[x: T]", "[x]", "(x: T,)", "(x)", "[__none__ x]", "_", "in",
];
fn templates(c: &mut Case, r: &mut Rng) {
    let (a, b) = TEMPLATES[r.below(TEMPLATES.len())];
    let n = [0, 1, 1, 2, 2, 2, 3, 3, 4, 6, 10][r.below(11)].max(gen::size(r, 1));
    let mid: Vec<&str> = (0..n).map(|_| *r.pick(&SMALL.iter().collect::<Vec<_>>())).collect();
    let tail = if r.chance(1, 6) { r.pick(SMALL) } else { "" };
    let mut all = vec![a];
    all.extend(mid);
    all.extend([b, tail]);
    let src = join(r, &all);
    let Some(ts) = lex(&src) else { return };
    arbitrary(c, ts);
}
/// long inputs: unbalanced, deeply nested, wide
fn long(c: &mut Case, r: &mut Rng) {
    let (a, b) = TEMPLATES[r.below(TEMPLATES.len())];
    let n = 200 + r.below(1500);
    let unit: Vec<&str> = (0..1 + r.below(3)).map(|_| *r.pick(&SMALL.iter().collect::<Vec<_>>())).collect();
    let mid = match r.below(4) {
        0 => unit.join(" ").repeat(1) + &format!(" {} ", unit.join(" ")).repeat(n),
        1 => "a<".repeat(n / 4) + "T" + &">".repeat(n / 4),
        2 => "mod m { ".repeat(20) + &unit.join(" ") + &" }".repeat(20),
        _ => format!(" {} , ", unit.join(" ")).repeat(n),
    };
    let src = format!("{a} {mid} {b}");
    let Some(ts) = lex(&src) else { return };
    arbitrary(c, ts.clone());
    let t = TypeExpr { tokens: lex_more(&mid).map_or(vec![], |t| t.into_iter().collect()) };
    let _ = quiet(|| t.as_path());
}

// --- lists ---
fn punct(c: &mut Case, r: &mut Rng) {
    let mut p: Punctuated<Ident> = if r.chance(1, 2) { Punctuated::new() } else { Default::default() };
    let mut model: Vec<(String, String)> = vec![];
    let mut trailing = true;
    let mut log = String::new();
    c.hits(&["C08"]);
    let n = gen::size(r, 10);
    lex("x");
    for i in 0..n {
        let name = format!("i{i}");
        let (comma, want) = if r.chance(1, 2) {
            (None, ",".to_string())
        } else {
            let joint = r.chance(1, 2);
            let ch = if r.chance(1, 8) { [';', '+', '|', '.'][r.below(4)] } else { ',' };
            let mut q = Punct::new(ch, if joint { Spacing::Joint } else { Spacing::Alone });
            let s = lex_more(&format!("{}x", " ".repeat(i))).unwrap().into_iter().next().unwrap().span();
            q.set_span(s);
            let t = render([TokenTree::from(q.clone())]);
            (Some(q), format!("{}@{:?}", t[0].text, t[0].sp))
        };
        let want = if comma.is_none() { ",@(0, 0)".to_string() } else { want };
        let id = Ident::new(&name, Span::call_site());
        let at = if r.chance(1, 2) { None } else { Some(r.below(model.len() + 2)) };
        log += &format!("{}({:?}, {name}, {}) ", if at.is_some() { "insert" } else { "push" }, at, comma.is_some());
        c.input(log.clone());
        match at {
            None => {
                trailing = comma.is_some();
                match quiet(|| p.push(id, comma)) {
                    Ok(()) => (),
                    Err(e) => return c.bad(&["C08"], "push panicked", "", e),
                }
                model.push((name, want));
            }
            Some(k) if k > model.len() => {
                if quiet(|| p.insert(k, id, comma)).is_ok() {
                    return c.bad(&["C08"], "insert past the end", "panic", "no panic");
                }
            }
            Some(k) => {
                if k == model.len() {
                    trailing = comma.is_some();
                }
                match quiet(|| p.insert(k, id, comma)) {
                    Ok(()) => (),
                    Err(e) => return c.bad(&["C08"], "insert panicked", "", e),
                }
                model.insert(k, (name, want));
            }
        }
        let sh = |p: &Punct| {
            let t = render([TokenTree::from(p.clone())]);
            format!("{}@{:?}", t[0].text, t[0].sp)
        };
        let names: Vec<String> = model.iter().map(|x| x.0.clone()).collect();
        let mut commas: Vec<String> = model.iter().map(|x| x.1.clone()).collect();
        c.eq(&["C08"], "stored commas", commas.clone(), p.inner.iter().map(|x| sh(&x.1)).collect::<Vec<_>>());
        if !trailing {
            commas.pop();
        }
        c.eq(&["C08"], "items()", names.clone(), p.items().map(|x| x.to_string()).collect::<Vec<_>>());
        c.eq(&["C08"], "punct()", commas.clone(), p.punct().map(sh).collect::<Vec<_>>());
        c.eq(&["C08"], "len()", names.len(), p.len());
        c.eq(&["C08"], "is_empty()", names.is_empty(), p.is_empty());
        c.eq(&["C08"], "slice", names.clone(), p.iter().map(|x| x.0.to_string()).collect::<Vec<_>>());
        let mut want = vec![];
        for (i, n) in names.iter().enumerate() {
            want.push(format!("{n}@(0, 0)"));
            if let Some(x) = commas.get(i) {
                want.push(x.clone());
            }
        }
        let q = p.clone();
        for p in [&p, &q] {
            let got: Vec<String> = toks(p).iter().map(|t| format!("{}@{:?}", t.text, t.sp)).collect();
            c.eq(&["C08"], "printed list", want.clone(), got);
        }
        if r.chance(1, 4) && !model.is_empty() {
            let k = r.below(model.len());
            p[k].0 = Ident::new("changed", Span::call_site());
            model[k].0 = "changed".into();
        }
    }
    if model.is_empty() {
        c.input(log);
        c.eq(&["C08"], "empty list", (0, true, 0, 0, 0), (p.len(), p.is_empty(), p.items().count(), p.punct().count(), toks(&p).len()));
    }
}

// --- builders, inline arguments ---
fn typed_item(c: &mut Case, r: &mut Rng) -> Option<Item> {
    let size = 1 + r.below(2);
    let mut g = Gen::new(r, size);
    let k = [0, 0, 2, 3][g.r.below(4)];
    g.item_kind("item", k);
    let s = g.s;
    c.input(s.clone());
    let ts = lex(&s)?;
    quiet(|| parse_item(ts)).ok()?.ok()
}
fn comma() -> Punct {
    Punct::new(',', Spacing::Alone)
}
fn vtoks(s: &str) -> Vec<TokenTree> {
    lex_more(s).map_or(vec![], |t| t.into_iter().collect())
}
const BOUNDS: &[&str] = &["Copy", "Debug + Eq", "'a + 'b", "", "i32", "for<'a> Fn(&'a T) -> Vec<U>", "A<B, C>", "Iterator<Item = T>"];
fn some_param(c: &mut Case, r: &mut Rng) -> Option<GenericParam> {
    let name = word(r).unwrap_or_else(|| r.pick(&[&"a", &"T", &"N", &"xyz", &"static_"]).to_string());
    let name = name.as_str();
    let bound = *r.pick(&BOUNDS.iter().collect::<Vec<_>>());
    let b = vtoks(bound);
    let k = r.below(6);
    let input = format!("{} | param {k} {name} `{bound}`", c.input);
    c.input(input);
    let (p, prefix, want_bound) = match k {
        0 => (quiet(|| GenericParam::lifetime(name)), "'", None),
        1 => (quiet(|| GenericParam::bounded_lifetime(name, b.clone())), "'", Some(b)),
        2 => (quiet(|| GenericParam::ty(name)), "", None),
        3 => (quiet(|| GenericParam::bounded_ty(name, b.clone())), "", Some(b)),
        4 => (quiet(|| GenericParam::const_param(name, b.clone())), "const", Some(b)),
        _ => {
            // a parsed one
            let src = *r.pick(&[&"struct P<'q: 'r>;", &"struct P<T: A<B, C> = D>;", &"struct P<const N: usize>;", &"struct P<'x>;", &"struct P<Y>;"]);
            let it = quiet(|| parse_item(lex_more(src).unwrap())).ok()?.ok()?;
            let p = it.generic_params()?.params.inner.first()?.0.clone();
            return Some(p);
        }
    };
    match p {
        Err(e) => {
            c.bad(&["C09"], "constructor panicked", "", e);
            None
        }
        Ok(p) => {
            let pre = match &p.tk_prefix {
                None => "".to_string(),
                Some(TokenTree::Punct(q)) => q.as_char().to_string(),
                Some(t) => t.to_string(),
            };
            c.eq(&["C09"], "prefix of the constructed parameter", prefix.to_string(), pre);
            // what is printed must lex as a lifetime; see the known findings for the bounded one
            if k == 0 {
                if let Some(TokenTree::Punct(q)) = &p.tk_prefix {
                    c.eq(&["C09"], "spacing of the apostrophe", Spacing::Joint, q.spacing());
                }
            }
            c.eq(&["C09"], "name of the constructed parameter", name.to_string(), p.name.to_string());
            let got = p.bound.as_ref().map(|b| (b.tk_colon.as_char(), txt(&render(b.tokens.iter().cloned()))));
            c.eq(&["C09"], "bound of the constructed parameter", want_bound.map(|b| (':', txt(&render(b)))), got);
            c.eq(&["C09", "C11"], "kind tests of the constructed parameter", (prefix == "'", prefix.is_empty(), prefix == "const"), (p.is_lifetime(), p.is_ty(), p.is_const()));
            Some(p)
        }
    }
}
fn some_pred(c: &mut Case, r: &mut Rng) -> Option<WhereClausePredicate> {
    let l = *r.pick(&[&"T", &"'a", &"a::b", &"Vec<A, B>", &"<T as X>::Y", &"for<'a> F<'a>", &"::std::X<Y = Z>", &"(A, B)", &"[T; 3]", &"&'a T"]);
    let b = *r.pick(&BOUNDS.iter().collect::<Vec<_>>());
    let src = format!("{l} : {b}");
    let input = format!("{} | pred {src}", c.input);
    c.input(input);
    let ts = lex_more(&src)?;
    let all: Vec<TokenTree> = ts.clone().into_iter().collect();
    let n = lex_more(l)?.into_iter().count();
    match quiet(|| WhereClausePredicate::parse(ts)) {
        Err(e) => {
            c.bad(&["C09"], "WhereClausePredicate::parse panicked", "", e);
            None
        }
        Ok(p) => {
            cmp_toks(c, &["C09"], "left side of the predicate", &render(all[..n].iter().cloned()), &render(p.left_side.iter().cloned()));
            cmp_toks(c, &["C09"], "colon of the predicate", &render(all[n..n + 1].iter().cloned()), &render([TokenTree::from(p.bound.tk_colon.clone())]));
            cmp_toks(c, &["C09"], "bound of the predicate", &render(all[n + 1..].iter().cloned()), &render(p.bound.tokens.iter().cloned()));
            Some(p)
        }
    }
}
/// what is no predicate is refused
fn not_pred(c: &mut Case, r: &mut Rng) {
    let l = *r.pick(&[&"T", &"'a", &"Vec<A, B>", &"(A, B)", &""]);
    let b = *r.pick(&[&"", &"> Copy", &"= Copy", &"; Copy", &", Copy", &", T: Copy", &"> T: Copy", &"; T: Copy"]);
    let src = format!("{l} {b}");
    let input = format!("{} | no predicate {src}", c.input);
    c.input(input);
    let Some(ts) = lex_more(&src) else { return };
    // the left side ends at a separator outside angle brackets, so a colon behind one does not count
    if let Ok(p) = quiet(|| WhereClausePredicate::parse(ts.clone())) {
        if p.bound.tk_colon.as_char() != ':' {
            c.bad(&["C09"], "WhereClausePredicate::parse took another token for the colon", ':', p.bound.tk_colon.as_char());
        }
        cmp_toks(c, &["C09"], "printed predicate", &render(ts), &toks(&p));
    }
}
fn add_param(l: &mut Option<GenericParamList>, p: GenericParam) {
    let life = matches!(&p.tk_prefix, Some(t) if is_p(t, '\''));
    let l = l.get_or_insert_with(|| GenericParamList { tk_l_bracket: Punct::new('<', Spacing::Alone), params: Punctuated { inner: vec![], skip_last: false }, tk_r_bracket: Punct::new('>', Spacing::Alone) });
    if life && !l.params.inner.is_empty() {
        l.params.inner.insert(0, (p, comma()));
    } else {
        l.params.inner.push((p, comma()));
        l.params.skip_last = true;
    }
}
fn add_pred(w: &mut Option<WhereClause>, p: WhereClausePredicate) {
    let w = w.get_or_insert_with(|| WhereClause { tk_where: Ident::new("where", Span::call_site()), items: Punctuated { inner: vec![], skip_last: false } });
    w.items.inner.push((p, comma()));
    w.items.skip_last = true;
}
macro_rules! parts {
    ($it:expr, $x:ident, $e:expr) => {
        match $it {
            Item::Struct($x) => $e,
            Item::Enum($x) => $e,
            Item::Union($x) => $e,
            _ => unreachable!(),
        }
    };
}
fn is_decl(it: &Item) -> bool {
    matches!(it, Item::Struct(_) | Item::Enum(_) | Item::Union(_))
}
fn same(c: &mut Case, props: &[&'static str], what: &str, want: &Item, got: &Item) {
    for d in diff(&dump(want), &dump(got)) {
        c.bad(props, format!("{what}: slot {}", d.path), d.want, d.got);
    }
    cmp_toks(c, props, what, &toks(want), &toks(got));
}
fn build(c: &mut Case, r: &mut Rng) {
    let Some(mut it) = typed_item(c, r) else { return };
    if !is_decl(&it) {
        return;
    }
    c.hits(&["C09", "C15"]);
    for _ in 0..1 + r.below(4) {
        let mut want = it.clone();
        if r.chance(1, 2) {
            let Some(p) = some_param(c, r) else { return };
            parts!(&mut want, x, add_param(&mut x.generic_params, p.clone()));
            let got = quiet(|| match it.clone() {
                Item::Struct(x) => Item::Struct(x.with_param(p.clone())),
                Item::Enum(x) => Item::Enum(x.with_param(p.clone())),
                Item::Union(x) => Item::Union(x.with_param(p.clone())),
                x => x,
            });
            match got {
                Ok(got) => {
                    same(c, &["C09"], "with_param", &want, &got);
                    it = got;
                }
                Err(e) => return c.bad(&["C09"], "with_param panicked", "", e),
            }
            // the list itself
            let l = GenericParamList::default();
            let mut w = None;
            add_param(&mut w, p.clone());
            let got = quiet(|| l.with_param(p));
            match got {
                Ok(g) => {
                    let mut a = dump::D::new();
                    a.generics("", &w);
                    let mut b = dump::D::new();
                    b.generics("", &Some(g));
                    for d in diff(&a.m, &b.m) {
                        c.bad(&["C09"], format!("with_param of an empty list: {}", d.path), d.want, d.got);
                    }
                }
                Err(e) => return c.bad(&["C09"], "with_param panicked", "", e),
            }
        } else {
            not_pred(c, r);
            let Some(p) = some_pred(c, r) else { return };
            parts!(&mut want, x, add_pred(&mut x.where_clause, p.clone()));
            let got = quiet(|| match it.clone() {
                Item::Struct(x) => Item::Struct(x.with_where_predicate(p.clone())),
                Item::Enum(x) => Item::Enum(x.with_where_predicate(p.clone())),
                Item::Union(x) => Item::Union(x.with_where_predicate(p.clone())),
                x => x,
            });
            match got {
                Ok(got) => {
                    same(c, &["C09"], "with_where_predicate", &want, &got);
                    it = got;
                }
                Err(e) => return c.bad(&["C09"], "with_where_predicate panicked", "", e),
            }
            let mut w = None;
            add_pred(&mut w, p.clone());
            match quiet(|| (WhereClause::from_predicate(p.clone()), WhereClause::default().with_predicate(p.clone()))) {
                Ok((a, b)) => {
                    cmp_toks(c, &["C09"], "WhereClause::from_predicate", &toks(&w), &toks(&a));
                    cmp_toks(c, &["C09"], "WhereClause::with_predicate", &toks(&w), &toks(&b));
                }
                Err(e) => return c.bad(&["C09"], "with_predicate panicked", "", e),
            }
        }
        check_spans(c, &it);
    }
    let b = *r.pick(&BOUNDS.iter().collect::<Vec<_>>());
    let tr = lex_more(b).unwrap();
    let before = it.clone();
    let got = quiet(|| parts!(&it, x, x.create_derive_where_clause(tr.clone())));
    same(c, &["C09"], "create_derive_where_clause changed the declaration", &before, &it);
    match got {
        Err(e) => c.bad(&["C09"], "create_derive_where_clause panicked", "", e),
        Ok(got) => {
            let (gp, wh) = parts!(&it, x, (x.generic_params.clone(), x.where_clause.clone()));
            let mut want = Some(wh.unwrap_or(WhereClause { tk_where: Ident::new("where", Span::call_site()), items: Punctuated { inner: vec![], skip_last: false } }));
            for (p, _) in gp.iter().flat_map(|g| &g.params.inner) {
                if p.tk_prefix.is_none() {
                    add_pred(
                        &mut want,
                        WhereClausePredicate {
                            left_side: vec![p.name.clone().into()],
                            bound: GenericBound { tk_colon: Punct::new(':', Spacing::Alone), tokens: tr.clone().into_iter().collect() },
                        },
                    );
                }
            }
            let mut a = dump::D::new();
            a.wher("", &want);
            let mut b = dump::D::new();
            b.wher("", &Some(got));
            for d in diff(&a.m, &b.m) {
                c.bad(&["C09"], format!("create_derive_where_clause: {}", d.path), d.want, d.got);
            }
        }
    }
}
fn inline(c: &mut Case, r: &mut Rng) {
    let Some(mut it) = typed_item(c, r) else { return };
    if !is_decl(&it) {
        return;
    }
    for _ in 0..r.below(3) {
        let Some(p) = some_param(c, r) else { return };
        parts!(&mut it, x, add_param(&mut x.generic_params, p));
    }
    inline_of(c, &it);
}
fn inline_of(c: &mut Case, it: &Item) {
    c.hits(&["C10", "C15"]);
    let gp = parts!(it, x, x.generic_params.as_ref());
    let args = quiet(|| parts!(it, x, x.get_inline_generic_args()));
    let args = match args {
        Ok(a) => a,
        Err(e) => return c.bad(&["C10"], "get_inline_generic_args panicked", "", e),
    };
    c.eq(&["C10"], "there are inline arguments exactly when there are parameters", gp.is_some(), args.is_some());
    let (Some(gp), Some(args)) = (gp, args) else { return };
    let mut want: Vec<Vec<Tok>> = vec![];
    for (p, _) in &gp.params.inner {
        let mut v = vec![];
        if let Some(TokenTree::Punct(q)) = &p.tk_prefix {
            v.push(q.clone().into())
        }
        v.push(TokenTree::from(p.name.clone()));
        want.push(render(v));
    }
    for (what, ts) in [("inline arguments", quiet(|| args.to_token_stream())), ("as_inline_args", quiet(|| gp.as_inline_args().to_token_stream())), ("owned arguments", quiet(|| args.to_owned_args().to_token_stream()))] {
        let ts = match ts {
            Err(e) => return c.bad(&["C10"], format!("{what} panicked"), "", e),
            Ok(t) => render(t),
        };
        // a joint bracket or comma would merge with the token behind it
        for t in &ts {
            if what != "owned arguments" && t.text.len() > 1 && t.text.starts_with(['<', '>', ',']) {
                c.bad(&["C10"], format!("{what}: spacing"), "alone", &t.text);
            }
        }
        // between angle brackets, separated by commas, a trailing comma being allowed
        let mut ok = ts.len() >= 2 && ts[0].text.starts_with('<') && ts[ts.len() - 1].text.starts_with('>');
        let mut parts: Vec<Vec<Tok>> = vec![];
        if ok {
            let mut cur = vec![];
            for t in &ts[1..ts.len() - 1] {
                if t.text.starts_with(',') {
                    ok &= !cur.is_empty();
                    parts.push(std::mem::take(&mut cur));
                } else {
                    cur.push(t.clone())
                }
            }
            if !cur.is_empty() {
                parts.push(cur)
            }
        }
        if !ok || parts != want {
            c.bad(&["C10"], what, want.iter().map(|v| show(v)).collect::<Vec<_>>().join(" , "), show(&ts));
        }
    }
    let owned = match quiet(|| args.to_owned_args()) {
        Err(_) => return,
        Ok(o) => o,
    };
    c.eq(&["C10"], "number of owned arguments", gp.params.inner.len(), owned.args.inner.len());
    c.eq(&["C10"], "commas of the owned arguments", gp.params.punct().count(), owned.args.punct().count());
    for ((p, _), (a, k)) in gp.params.inner.iter().zip(&owned.args.inner) {
        let life = p.is_lifetime();
        let ok = match a {
            GenericArg::Lifetime { lifetime } => life && lifetime.name == p.name && lifetime.tk_apostrophe.as_char() == '\'',
            GenericArg::TypeOrConst { expr } => !life && expr.tokens.len() == 1 && expr.tokens[0].to_string() == p.name.to_string(),
            _ => false,
        } && k.as_char() == ',';
        if !ok {
            c.bad(&["C10"], "owned argument", show(&toks(p)), show(&toks(a)));
        }
    }
    c.eq(&["C10"], "brackets of the owned list", ('<', '>', true), (owned.tk_l_bracket.as_char(), owned.tk_r_bracket.as_char(), owned.tk_turbofish_colons.is_none()));
}

// --- accessors ---
fn access(c: &mut Case, r: &mut Rng) {
    let size = 1 + r.below(2);
    let mut g = Gen::new(r, size);
    g.item("item");
    let s = g.s;
    c.input(s.clone());
    let Some(ts) = lex(&s) else { return };
    let Ok(Ok(mut it)) = quiet(|| parse_item(ts)) else { return };
    accessors(c, &mut it);
}
fn attr_list(v: &[Attribute]) -> Vec<Toks> {
    v.iter().map(toks).collect()
}
fn attr_access(c: &mut Case, v: &[Attribute]) {
    for a in v {
        let ids: Vec<String> = a.path.iter().filter(|t| matches!(t, TokenTree::Ident(_))).map(|t| t.to_string()).collect();
        let want = if ids.len() == 1 { Some(ids[0].clone()) } else { None };
        c.eq(&["C11"], "get_single_path_segment", want, a.get_single_path_segment().map(|i| i.to_string()));
        let want = match &a.value {
            AttributeValue::Empty => vec![],
            AttributeValue::Equals(_, t) | AttributeValue::Group(_, t) => render(t.iter().cloned()),
        };
        c.eq(&["C11"], "get_value_tokens", want.clone(), render(a.get_value_tokens().iter().cloned()));
        c.eq(&["C11"], "get_value_tokens of the value", want, render(a.value.get_value_tokens().iter().cloned()));
    }
}
fn accessors(c: &mut Case, it: &mut Item) {
    c.hits(&["C11"]);
    if let Err(e) = quiet(|| accessors_in(c, it)) {
        c.bad(&["C11"], "an accessor panicked", "", e);
    }
}
fn accessors_in(c: &mut Case, it: &mut Item) {
    let (attrs, name, gp, kind): (&Vec<Attribute>, Option<&Ident>, Option<&GenericParamList>, usize) = match &*it {
        Item::Struct(x) => (&x.attributes, Some(&x.name), x.generic_params.as_ref(), 0),
        Item::Enum(x) => (&x.attributes, Some(&x.name), x.generic_params.as_ref(), 1),
        Item::Union(x) => (&x.attributes, Some(&x.name), x.generic_params.as_ref(), 2),
        Item::Module(x) => (&x.attributes, Some(&x.name), None, 3),
        Item::Trait(x) => (&x.attributes, Some(&x.name), x.generic_params.as_ref(), 4),
        Item::Impl(x) => (&x.attributes, None, x.impl_generic_params.as_ref(), 5),
        Item::TypeAlias(x) => (&x.attributes, Some(&x.name), None, 6),
        Item::Function(x) => (&x.attributes, Some(&x.name), x.generic_params.as_ref(), 7),
        Item::Constant(x) => (&x.attributes, Some(&x.name), None, 8),
        Item::UseDeclaration(x) => (&x.attributes, None, None, 9),
        Item::Macro(x) => (&x.attributes, Some(&x.name), None, 10),
        Item::ExternBlock(x) => (&x.attributes, None, None, 11),
        Item::ExternCrate(x) => (&x.attributes, Some(&x.name), None, 12),
        #[allow(unreachable_patterns)]
        _ => return,
    };
    c.eq(&["C11"], "attributes()", attr_list(attrs), attr_list(it.attributes()));
    c.eq(&["C11"], "attributes() is the list of the declaration", attrs as *const _ as usize, it.attributes() as *const _ as usize);
    c.eq(&["C11"], "name()", name.map(toks), it.name().map(|n| toks(&n)));
    c.eq(&["C11"], "generic_params()", gp.map(|g| g as *const _ as usize), it.generic_params().map(|g| g as *const _ as usize));
    let views: [Option<usize>; 13] = [
        it.as_struct().map(|x| x as *const _ as usize),
        it.as_enum().map(|x| x as *const _ as usize),
        it.as_union().map(|x| x as *const _ as usize),
        it.as_module().map(|x| x as *const _ as usize),
        it.as_trait().map(|x| x as *const _ as usize),
        it.as_impl().map(|x| x as *const _ as usize),
        it.as_type_alias().map(|x| x as *const _ as usize),
        it.as_function().map(|x| x as *const _ as usize),
        it.as_constant().map(|x| x as *const _ as usize),
        it.as_use_declaration().map(|x| x as *const _ as usize),
        it.as_macro().map(|x| x as *const _ as usize),
        it.as_extern_block().map(|x| x as *const _ as usize),
        it.as_extern_crate().map(|x| x as *const _ as usize),
    ];
    for (k, v) in views.iter().enumerate() {
        c.eq(&["C11"], &format!("kind-specific view {k}"), k == kind, v.is_some());
    }
    attr_access(c, attrs);
    for (p, _) in gp.iter().flat_map(|g| &g.params.inner) {
        let w = (matches!(&p.tk_prefix, Some(t) if is_p(t, '\'')), p.tk_prefix.is_none(), matches!(&p.tk_prefix, Some(t) if is_i(t, "const")));
        c.eq(&["C11"], "kind tests of a generic parameter", w, (p.is_lifetime(), p.is_ty(), p.is_const()));
    }
    if is_decl(it) {
        let by = |k: usize| -> Vec<Toks> {
            gp.iter()
                .flat_map(|g| &g.params.inner)
                .filter(|(p, _)| match &p.tk_prefix {
                    None => k == 1,
                    Some(t) if is_p(t, '\'') => k == 0,
                    Some(t) if is_i(t, "const") => k == 2,
                    _ => false,
                })
                .map(|(p, _)| toks(p))
                .collect()
        };
        let it2: &Item = it;
        let l: Vec<Toks> = parts!(it2, x, x.get_lifetime_params().map(toks).collect());
        let t: Vec<Toks> = parts!(it2, x, x.get_type_params().map(toks).collect());
        let k: Vec<Toks> = parts!(it2, x, x.get_const_params().map(toks).collect());
        c.eq(&["C11"], "get_lifetime_params", by(0), l);
        c.eq(&["C11"], "get_type_params", by(1), t);
        c.eq(&["C11"], "get_const_params", by(2), k);
        inline_of(c, it);
    }
    if let Item::Struct(x) = &*it {
        let (names, types): (Vec<String>, Vec<Toks>) = match &x.fields {
            Fields::Unit => (vec![], vec![]),
            Fields::Tuple(f) => ((0..f.fields.inner.len()).map(|i| i.to_string()).collect(), f.fields.inner.iter().map(|f| render(f.0.ty.tokens.iter().cloned())).collect()),
            Fields::Named(f) => (f.fields.inner.iter().map(|f| f.0.name.to_string()).collect(), f.fields.inner.iter().map(|f| render(f.0.ty.tokens.iter().cloned())).collect()),
        };
        c.eq(&["C11"], "field_names", names.clone(), x.field_names().into_iter().collect::<Vec<_>>());
        c.eq(&["C11"], "field_tokens", names, x.field_tokens().into_iter().map(|t| t.to_string()).collect::<Vec<_>>());
        c.eq(&["C11"], "field_types", types, x.field_types().into_iter().map(|t| render(t.tokens.iter().cloned())).collect::<Vec<_>>());
    }
    if let Item::Enum(x) = &*it {
        let unit = |v: &EnumVariant| matches!(v.fields, Fields::Unit);
        c.eq(&["C11"], "is_c_enum", x.variants.inner.iter().all(|v| unit(&v.0)), x.is_c_enum());
        for (v, _) in &x.variants.inner {
            c.eq(&["C11"], "is_empty_variant", unit(v), v.is_empty_variant());
            let w = match &v.fields {
                Fields::Tuple(f) if f.fields.inner.len() == 1 => Some(toks(&f.fields.inner[0].0)),
                _ => None,
            };
            c.eq(&["C11"], "get_single_type", w, v.get_single_type().map(toks));
            attr_access(c, &v.attributes);
        }
    }
    let consts: Vec<&Constant> = match &*it {
        Item::Constant(x) => vec![x],
        Item::ExternBlock(b) => b.body_items.iter().filter_map(|m| if let ImplMember::AssocConstant(x) = m { Some(x) } else { None }).collect(),
        _ => vec![],
    };
    for x in consts {
        c.eq(&["C11"], "is_static", x.tk_const_or_static == "static", x.is_static());
    }
    // mutable accessors
    let before = dump(it);
    let new = Attribute {
        tk_hash: Punct::new('#', Spacing::Alone),
        tk_bang: None,
        tk_brackets: GroupSpan { span: Span::call_site(), delimiter: Delimiter::Bracket },
        path: vec![Ident::new("added", Span::call_site()).into()],
        value: AttributeValue::Empty,
    };
    let n = it.attributes().len();
    it.attributes_mut().push(new);
    let mut want = before.clone();
    want.insert("item.attrs.count".into(), Val::S((n + 1).to_string()));
    for d in diff(&want, &dump(it)) {
        if !d.path.starts_with(&format!("item.attrs[{n}]")) {
            c.bad(&["C11"], format!("attributes_mut changed {}", d.path), d.want, d.got);
        }
    }
    it.attributes_mut().pop();
    let had = it.generic_params().is_some();
    let p = GenericParam { tk_prefix: None, name: Ident::new("Added", Span::call_site()), bound: None };
    match it.generic_params_mut() {
        None => c.eq(&["C11"], "generic_params_mut", had, false),
        Some(g) => {
            c.eq(&["C11"], "generic_params_mut", had, true);
            let n = g.params.inner.len();
            let skip = g.params.skip_last;
            g.params.inner.insert(n, (p, comma()));
            let d = diff(&before, &dump(it));
            for d in d {
                if !d.path.starts_with(&format!("item.gp[{n}]")) && d.path != "item.gp.count" && !(skip && n > 0 && d.path == format!("item.gp[{}].comma", n - 1)) {
                    c.bad(&["C11"], format!("generic_params_mut changed {}", d.path), d.want, d.got);
                }
            }
        }
    }
}

// --- paths ---
enum Arg {
    Life(String),
    Bind(String, Vec<String>),
    Ty(Vec<String>),
}
struct Seg {
    sep: bool,
    ident: String,
    args: Option<(bool, Vec<Arg>, bool)>,
}
fn gen_args(r: &mut Rng, d: usize, out: &mut Vec<String>) -> (Vec<Arg>, bool) {
    out.push("<".into());
    let n = gen::size(r, 4);
    let mut v = vec![];
    let mut trailing = false;
    for i in 0..n {
        match r.below(6) {
            0 => {
                let l = r.pick(&["'a", "'static", "'_"]).to_string();
                out.push(l.clone());
                v.push(Arg::Life(l));
            }
            1 => {
                let id = word(r).unwrap_or_else(|| r.pick(&["Item", "Output", "r#type"]).to_string());
                out.push(id.clone());
                out.push("=".into());
                let mut t = vec![];
                gen_ty(r, d, &mut t);
                out.extend(t.clone());
                v.push(Arg::Bind(id, t));
            }
            _ => {
                let mut t = vec![];
                gen_ty(r, d, &mut t);
                out.extend(t.clone());
                v.push(Arg::Ty(t));
            }
        }
        if i + 1 < n || r.chance(1, 4) {
            out.push(",".into());
            trailing = i + 1 == n;
        }
    }
    out.push(">".into());
    (v, trailing)
}
fn gen_ty(r: &mut Rng, d: usize, out: &mut Vec<String>) {
    let k = if d == 0 { r.below(4) } else { r.below(11) };
    match k {
        0 | 1 => out.push(word(r).unwrap_or_else(|| r.pick(&["T", "u8", "Self"]).to_string())),
        2 => out.push(r.pick(&["32", "\"s\"", "true"]).to_string()),
        3 => out.push("{ N + 1 , < }".into()),
        4 => {
            out.push("&".into());
            if r.chance(1, 2) {
                out.push("'a".into());
            }
            gen_ty(r, d - 1, out)
        }
        5 => {
            out.push("( A , B )".into());
        }
        6 => {
            out.push("fn".into());
            out.push("( A )".into());
            out.push("->".into());
            gen_ty(r, d - 1, out)
        }
        7 => {
            out.push("dyn".into());
            out.push("for".into());
            out.push("<".into());
            out.push("'a".into());
            out.push(",".into());
            out.push("'b".into());
            out.push(">".into());
            gen_ty(r, d - 1, out)
        }
        8 => {
            out.push("'a".into());
            out.push("+".into());
            out.push("X".into());
        }
        _ => {
            gen_path(r, d - 1, out);
        }
    }
}
fn gen_path(r: &mut Rng, d: usize, out: &mut Vec<String>) -> Vec<Seg> {
    let mut v = vec![];
    for i in 0..1 + gen::size(r, 4) {
        let sep = i > 0 || r.chance(1, 4);
        if sep {
            out.push("::".into());
        }
        let ident = word(r).unwrap_or_else(|| r.pick(&["std", "crate", "self", "Vec", "r#type", "T", "super", "Option"]).to_string());
        out.push(ident.clone());
        let args = if r.chance(1, 3) {
            let tf = r.chance(1, 3);
            if tf {
                out.push("::".into());
            }
            let (a, t) = gen_args(r, d, out);
            Some((tf, a, t))
        } else {
            None
        };
        v.push(Seg { sep, ident, args });
    }
    v
}
fn ty_expr(ts: TokenStream, r: &mut Rng) -> (TypeExpr, Toks) {
    let want = render(ts.clone());
    let tokens = if r.chance(1, 4) { vec![TokenTree::Group(Group::new(Delimiter::None, ts))] } else { ts.into_iter().collect() };
    (TypeExpr { tokens }, want)
}
const NOT_PATHS: &[&str] = &[
    "", "& T", "&'a a::b", "[T]", "[T; 3]", "(T)", "(A, B)", "()", "fn(T)", "fn(A) -> B", "*const T", "*mut a::b", "!", "dyn A", "impl A", "a::", "::", "a b", "a::::b", "<T as U>::V", "T + U", "1", "\"s\"", "'a", "a<b", "a::b<c", "a<b> c",
    "a<b>::", "a<b>>", "a<b><c>", ": : a", "a : b", "a: :b", "a,", "a = b", "m!()", "a::b!", "a.b", "a -> b", "{a}", "a::{b}", "a::*", "a::1", "a<b>::<c>::", "a::<b>::<c>", "::<a>", "a ( b )", "a::b + 'c", "r#a r#b", "a :: b < c , d",
    ": a", ":::a", "a ;", "a # b", "a & b", "?a", "a<<b>>c",
    "a<,b>", "a<b,,c>", "a<,>", "a<b,,>", "a<,,>", "a<'a,,>", "a<b=c,,d>", "a<,>::b", "a::b<,c>", "::a<b,,>",
];
fn path(c: &mut Case, r: &mut Rng) {
    c.hits(&["C12", "C03"]);
    match r.below(5) {
        0 | 1 => {
            let mut out = vec![];
            let d = r.below(4);
            let segs = gen_path(r, d, &mut out);
            let mut src = String::new();
            for t in &out {
                if src.chars().last().map_or(false, |l| glue(l, t.chars().next().unwrap())) && r.chance(1, 2) {
                    // no blank
                } else {
                    src.push(' ');
                }
                src += t;
            }
            c.input(src.clone());
            let Some(ts) = lex(&src) else { return };
            let (t, want) = ty_expr(ts, r);
            let p = match quiet(|| t.as_path()) {
                Err(e) => return c.bad(&["C12"], "as_path panicked on a path", "a path", e),
                Ok(None) => return c.bad(&["C12"], "as_path of a path", "a path", "None"),
                Ok(Some(p)) => p,
            };
            cmp_toks(c, &["C12"], "tokens of the path", &want, &toks(&p));
            if let Err(e) = path_ok(&p) {
                c.bad(&["C12"], "path", "well formed", e);
            }
            c.eq(&["C12"], "segments", segs.iter().map(|s| (s.sep, s.ident.clone(), s.args.is_some())).collect::<Vec<_>>(), p.segments.iter().map(|s| (s.tk_separator_colons.is_some(), s.ident.to_string(), s.generic_args.is_some())).collect::<Vec<_>>());
            for (a, b) in segs.iter().zip(&p.segments) {
                if let (Some((tf, args, trailing)), Some(g)) = (&a.args, &b.generic_args) {
                    c.eq(&["C12"], "turbofish", *tf, g.tk_turbofish_colons.is_some());
                    c.eq(&["C12"], "number of generic arguments", args.len(), g.args.inner.len());
                    if !args.is_empty() {
                        c.eq(&["C12"], "trailing comma of the generic arguments", *trailing, !g.args.skip_last);
                    }
                    let lx = |v: &[String]| txt(&render(lex_more(&v.join(" ")).unwrap())).iter().map(|s| s.trim_end_matches('~').to_string()).collect::<Vec<_>>();
                    let tx = |v: &TypeExpr| txt(&render(v.tokens.iter().cloned())).iter().map(|s| s.trim_end_matches('~').to_string()).collect::<Vec<_>>();
                    for (x, (y, _)) in args.iter().zip(&g.args.inner) {
                        match (x, y) {
                            (Arg::Life(l), GenericArg::Lifetime { lifetime }) => c.eq(&["C12"], "lifetime argument", l.clone(), format!("'{}", lifetime.name)),
                            (Arg::Bind(i, t), GenericArg::Binding { ident, ty, .. }) => {
                                c.eq(&["C12"], "binding argument", i.clone(), ident.to_string());
                                c.eq(&["C12"], "type of a binding argument", lx(t), tx(ty));
                            }
                            (Arg::Ty(t), GenericArg::TypeOrConst { expr }) => c.eq(&["C12"], "type argument", lx(t), tx(expr)),
                            _ => c.bad(&["C12"], "kind of a generic argument", "", show(&toks(y))),
                        }
                    }
                }
            }
        }
        2 => {
            let mut src = r.pick(&NOT_PATHS.iter().collect::<Vec<_>>()).to_string();
            if r.chance(1, 3) {
                // a path in other clothes
                let mut out = vec![];
                gen_path(r, 2, &mut out);
                let p = out.join(" ");
                let pre = ["&", "*const", "dyn", "impl", "&'a mut", "!", "?", "for<'a>"];
                let post = ["+ A", "!", ";", "-> T", "?", "= T", "as T", "::", "::*", "!()", "{}", "()", "[]", ", A", ",", ".."];
                src = match r.below(5) {
                    0 => format!("({p})"),
                    1 => format!("[{p}]"),
                    2 => format!("{{{p}}}"),
                    3 => format!("{} {p}", r.pick(&pre)),
                    _ => format!("{p} {}", r.pick(&post)),
                };
            }
            c.input(src.to_string());
            let Some(ts) = lex(&src) else { return };
            let (t, _) = ty_expr(ts, r);
            match quiet(|| t.as_path()) {
                Err(e) => c.bad(&["C12"], "as_path panicked", "None", e),
                Ok(Some(p)) => c.bad(&["C12"], "as_path of something else", "None", show(&toks(&p))),
                Ok(None) => (),
            }
        }
        k => {
            let ts = if k == 3 {
                let mut out = vec![];
                gen_path(r, 2, &mut out);
                let Some(ts) = lex(&out.join(" ")) else { return };
                let mut k = 0;
                mutate_at(ts.into_iter().collect(), &mut k, r).into_iter().collect()
            } else {
                let size = 2;
                let mut g = Gen::new(r, size);
                g.ty(2, false);
                let s = g.s;
                let Some(ts) = lex(&s) else { return };
                ts
            };
            c.input(show(&render(ts.clone())));
            let (t, want) = ty_expr(ts, r);
            match quiet(|| t.as_path()) {
                // (an apostrophe not followed by a name cannot come from a lexer)
                Err(_) if (0..want.len()).any(|i| want[i].text.starts_with('\'') && want[i].text.len() <= 2 && !want.get(i + 1).map_or(false, |t| t.text.starts_with(|c: char| c.is_alphabetic() || c == '_'))) => (),
                Err(e) => c.bad(&["C12"], "as_path panicked", "a path or none", e),
                Ok(None) => (),
                Ok(Some(p)) => {
                    // (a type which is itself an invisible group)
                    let want2 = match t.tokens.as_slice() {
                        [TokenTree::Group(g)] if g.delimiter() == Delimiter::None => render(g.stream()),
                        _ => want,
                    };
                    cmp_toks(c, &["C12"], "tokens of the path", &want2, &toks(&p));
                    if let Err(e) = path_ok(&p) {
                        c.bad(&["C12"], "path", "well formed", e);
                    }
                }
            }
        }
    }
}

// --- errors ---
fn error(c: &mut Case, r: &mut Rng) {
    c.hits(&["C13"]);
    let msgs = ["a", "", "with \"quotes\" and \\ and {}", "line\nbreak", "ünï", "\u{0}\t'"];
    let pieces = [" ", "\n", "\r\n", "\r", "\t", "{}", "{x}", "%", "\\", "\"", "'", "#", "\u{1f600}", "\u{feff}", "\u{7f}", "error: ", "a", "B", "0", ".", "://", "<T>", "compile_error!", ";"];
    let src = ["aa bb (cc dd) ee ff", "a::b<c, 'd> = \"x\" [y] {}", "(only)", "x"][r.below(4)];
    let Some(ts) = lex(src) else { return };
    let v: Vec<TokenTree> = ts.into_iter().collect();
    // (message, start, end)
    let mk = |r: &mut Rng| -> (Error, Vec<(String, Sp, Sp)>, String) {
        let m = if r.chance(1, 4) {
            let mut m = String::new();
            for _ in 0..r.below(6) {
                let k = if r.chance(1, 10) { 1 << r.below(12) } else { 1 };
                let p = word(r).unwrap_or_else(|| pieces[r.below(pieces.len())].to_string());
                m += &p.repeat(k);
            }
            m
        } else {
            word(r).unwrap_or_else(|| msgs[r.below(msgs.len())].to_string())
        };
        match r.below(3) {
            0 => (Error::new(&m), vec![(m.clone(), (0, 0), (0, 0))], format!("new({m:?})")),
            1 => {
                let s = v[r.below(v.len())].span();
                (Error::new_at_span(s, &m), vec![(m.clone(), sp(s), sp(s))], format!("new_at_span({m:?})"))
            }
            _ => {
                let a = r.below(v.len() + 1);
                let b = a + r.below(v.len() + 1 - a);
                let t: TokenStream = v[a..b].iter().cloned().collect();
                let (s, e) = if a == b { ((0, 0), (0, 0)) } else { (sp(v[a].span()), sp(v[b - 1].span())) };
                (Error::new_at_tokens(t, &m), vec![(m.clone(), s, e)], format!("new_at_tokens({a}..{b}, {m:?})"))
            }
        }
    };
    let (mut e, mut want, mut log) = mk(r);
    let n = if r.chance(1, 12) { r.below(40) } else { r.below(4) };
    for _ in 0..n {
        let (mut f, mut w, mut l) = mk(r);
        if r.chance(1, 8) {
            f = f.clone();
        }
        if r.chance(1, 40) {
            // an error combined with a copy of itself
            let (g, x) = (f.clone(), w.clone());
            f.combine(g);
            w.extend(x);
            l = format!("({l} * 2)");
        }
        if r.chance(1, 3) {
            let (g, x, l2) = mk(r);
            f.combine(g);
            w.extend(x);
            l = format!("({l} + {l2})");
        }
        e.combine(f);
        want.extend(w);
        log += &format!(" + {l}");
    }
    c.input(log);
    c.eq(&["C13"], "display", want[0].0.clone(), e.to_string());
    let g = (want[0].1 .0.min(want[0].2 .0), want[0].1 .1.max(want[0].2 .1));
    c.eq(&["C13"], "span", g, sp(e.span()));
    for e in [&e, &e.clone()] {
        let mut w = vec![];
        for (m, a, b) in &want {
            w.push(format!("compile_error@{a:?}"));
            w.push(format!("!@{a:?}"));
            w.push(format!("@{b:?}"));
            w.push(format!("{}@{b:?}", Literal::string(m)));
        }
        let mut got = vec![];
        for t in e.to_compile_error() {
            let s = sp(t.span());
            match t {
                TokenTree::Group(g) => {
                    got.push(format!("@{s:?}"));
                    for t in g.stream() {
                        got.push(format!("{}@{:?}", t, sp(t.span())));
                    }
                }
                TokenTree::Punct(p) => got.push(format!("{}@{s:?}", p.as_char())),
                t => got.push(format!("{t}@{s:?}")),
            }
        }
        // (a semicolon between or after the invocations would do no harm)
        got.retain(|x| !x.starts_with(';'));
        c.eq(&["C13"], "to_compile_error", w, got);
    }
}

// --- spans ---
fn sp_eq<T: ToTokens>(c: &mut Case, what: &str, t: &T, s: Span) {
    let want = joined(t.to_token_stream());
    if want != sp(s) {
        c.bad(&["C15"], format!("span of {what} `{}`", show(&toks(t))), format!("{want:?}"), format!("{:?}", sp(s)));
    }
}
fn attr_spans(c: &mut Case, v: &[Attribute]) {
    for a in v {
        sp_eq(c, "attribute", a, a.span());
        sp_eq(c, "attribute value", &a.value, a.value.span());
    }
}
fn vis_span(c: &mut Case, v: &Option<VisMarker>) {
    if let Some(v) = v {
        sp_eq(c, "visibility marker", v, v.span());
    }
}
fn gp_spans(c: &mut Case, g: &Option<GenericParamList>) {
    if let Some(g) = g {
        sp_eq(c, "generic parameters", g, g.span());
        sp_eq(c, "inline arguments", &g.as_inline_args(), g.as_inline_args().span());
        for (p, _) in &g.params.inner {
            sp_eq(c, "generic parameter", p, p.span());
            if let Some(b) = &p.bound {
                sp_eq(c, "bound", b, b.span());
            }
        }
    }
}
fn wh_spans(c: &mut Case, w: &Option<WhereClause>) {
    if let Some(w) = w {
        sp_eq(c, "where clause", w, w.span());
        for (p, _) in &w.items.inner {
            sp_eq(c, "predicate", p, p.span());
            sp_eq(c, "bound", &p.bound, p.bound.span());
        }
    }
}
fn named_spans(c: &mut Case, f: &NamedFields) {
    for (f, _) in &f.fields.inner {
        sp_eq(c, "field", f, f.span());
        sp_eq(c, "type", &f.ty, f.ty.span());
        vis_span(c, &f.vis_marker);
        attr_spans(c, &f.attributes);
    }
}
fn field_spans(c: &mut Case, f: &Fields) {
    sp_eq(c, "fields", f, f.span());
    match f {
        Fields::Unit => (),
        Fields::Named(f) => named_spans(c, f),
        Fields::Tuple(f) => {
            for (f, _) in &f.fields.inner {
                sp_eq(c, "field", f, f.span());
                sp_eq(c, "type", &f.ty, f.ty.span());
                vis_span(c, &f.vis_marker);
                attr_spans(c, &f.attributes);
            }
        }
    }
}
fn fn_spans(c: &mut Case, x: &Function) {
    sp_eq(c, "function", x, x.span());
    gp_spans(c, &x.generic_params);
    wh_spans(c, &x.where_clause);
    vis_span(c, &x.vis_marker);
    attr_spans(c, &x.attributes);
    if let Some(t) = &x.return_ty {
        sp_eq(c, "type", t, t.span());
    }
    for (p, _) in &x.params.inner {
        if let FnParam::Typed(p) = p {
            sp_eq(c, "type", &p.ty, p.ty.span());
        }
    }
}
pub fn check_spans(c: &mut Case, it: &Item) {
    if let Err(e) = quiet(|| spans_in(c, it)) {
        c.bad(&["C15"], "taking a span panicked", "", e);
    }
}
fn spans_in(c: &mut Case, it: &Item) {
    c.hits(&["C15"]);
    sp_eq(c, "item", it, it.span());
    match it {
        Item::Struct(x) => {
            sp_eq(c, "struct", x, x.span());
            gp_spans(c, &x.generic_params);
            wh_spans(c, &x.where_clause);
            vis_span(c, &x.vis_marker);
            attr_spans(c, &x.attributes);
            field_spans(c, &x.fields);
        }
        Item::Enum(x) => {
            sp_eq(c, "enum", x, x.span());
            gp_spans(c, &x.generic_params);
            wh_spans(c, &x.where_clause);
            vis_span(c, &x.vis_marker);
            attr_spans(c, &x.attributes);
            for (v, _) in &x.variants.inner {
                sp_eq(c, "variant", v, v.span());
                field_spans(c, &v.fields);
                attr_spans(c, &v.attributes);
                if let Some(v) = &v.value {
                    sp_eq(c, "variant value", v, v.span());
                }
            }
        }
        Item::Union(x) => {
            sp_eq(c, "union", x, x.span());
            gp_spans(c, &x.generic_params);
            wh_spans(c, &x.where_clause);
            vis_span(c, &x.vis_marker);
            named_spans(c, &x.fields);
        }
        Item::Function(x) => fn_spans(c, x),
        Item::Module(x) => {
            attr_spans(c, &x.inner_attributes);
            for m in &x.members {
                spans_in(c, m)
            }
        }
        Item::Impl(x) => {
            attr_spans(c, &x.inner_attributes);
            sp_eq(c, "type", &x.self_ty, x.self_ty.span());
            for m in &x.body_items {
                if let ImplMember::AssocFunction(f) = m {
                    fn_spans(c, f)
                }
            }
        }
        Item::Trait(x) => {
            attr_spans(c, &x.inner_attributes);
            if let Some(b) = &x.bound {
                sp_eq(c, "bound", b, b.span());
            }
            for m in &x.body_items {
                if let TraitMember::AssocFunction(f) = m {
                    fn_spans(c, f)
                }
            }
        }
        Item::Constant(x) => {
            sp_eq(c, "type", &x.ty, x.ty.span());
            vis_span(c, &x.vis_marker);
        }
        _ => (),
    }
}

pub const SCENARIOS: &[&str] = &["items", "concat", "mutate", "templates", "enumval", "punct", "build", "inline", "access", "path", "error", "long"];
/// Scenarios (with weights) used for a property.
pub fn plan(prop: &str) -> Vec<(&'static str, usize)> {
    match prop {
        "C01" => vec![("items", 4), ("mutate", 3), ("templates", 4), ("concat", 1), ("long", 1)],
        "C02" => vec![("concat", 5), ("items", 2), ("mutate", 3), ("templates", 4), ("long", 1)],
        "C03" => vec![("items", 2), ("mutate", 3), ("templates", 4), ("path", 2), ("long", 1)],
        "C04" => vec![("items", 5), ("mutate", 3), ("templates", 4), ("long", 1)],
        "C05" => vec![("items", 5), ("mutate", 3), ("templates", 4), ("long", 1)],
        "C06" => vec![("items", 5), ("mutate", 3), ("templates", 4), ("long", 1)],
        "C07" => vec![("enumval", 5), ("items", 2), ("mutate", 2), ("templates", 2)],
        "C08" => vec![("punct", 1)],
        "C09" => vec![("build", 1)],
        "C10" => vec![("inline", 4), ("access", 1)],
        "C11" => vec![("access", 4), ("build", 1)],
        "C12" => vec![("path", 1)],
        "C13" => vec![("error", 1)],
        "C14" => vec![("items", 4), ("concat", 2), ("enumval", 1), ("mutate", 4), ("templates", 4), ("long", 1)],
        "C15" => vec![("items", 4), ("mutate", 2), ("build", 2), ("templates", 2), ("inline", 1)],
        _ => SCENARIOS.iter().map(|s| (*s, 1)).collect(),
    }
}
/// runs a case; `tape` holds the choices to begin with
pub fn run(scenario: &str, seed: u64, tape: Vec<u64>, on_input: Box<dyn Fn(&str) + Send>) -> (Case, Vec<u64>) {
    let mut c = Case { input: String::new(), viol: vec![], hit: vec![], on_input };
    let mut r = Rng::with_tape(seed, tape);
    let res = quiet(|| match scenario {
        "items" => items(&mut c, &mut r, false),
        "enumval" => items(&mut c, &mut r, true),
        "concat" => concat(&mut c, &mut r),
        "mutate" => mutate(&mut c, &mut r),
        "templates" => templates(&mut c, &mut r),
        "punct" => punct(&mut c, &mut r),
        "build" => build(&mut c, &mut r),
        "inline" => inline(&mut c, &mut r),
        "access" => access(&mut c, &mut r),
        "path" => path(&mut c, &mut r),
        "error" => error(&mut c, &mut r),
        "long" => long(&mut c, &mut r),
        _ => panic!("unknown scenario"),
    });
    if let Err(e) = res {
        eprintln!("ORACLE-BUG {scenario} {seed}: {e} on {}", c.input);
        if let Ok(f) = std::env::var("ORACLE_BUG_TAPE") {
            let _ = std::fs::write(f, tape_text(&r.1.as_ref().unwrap().t));
        }
    }
    (c, r.choices())
}
pub fn tape_text(t: &[u64]) -> String {
    t.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(",")
}
