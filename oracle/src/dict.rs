//! Words of the source under test: string and number literals which the unchanged tree does not have. A change that
//! depends on a particular name or count has to spell it, so the generators use such words now and then.
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeSet;
use std::sync::OnceLock;
const BASE: &str = include_str!("../dict_base.txt");
const KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true",
    "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "union", "macro_rules", "default", "auto", "raw", "safe", "_",
];
#[derive(Default, Debug)]
pub struct Dict {
    pub names: Vec<String>,
    pub strs: Vec<String>,
    pub counts: Vec<usize>,
}
pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let base: BTreeSet<&str> = BASE.lines().collect();
        let mut d = Dict::default();
        for l in literals() {
            if base.contains(l.as_str()) {
                continue;
            }
            if let Some(s) = l.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
                if !s.is_ascii() || s.len() > 40 || s.contains('\\') || s.contains('"') {
                    continue;
                }
                d.strs.push(format!("\"{s}\""));
                for n in [s.to_string(), format!("{s}1"), format!("x{s}")] {
                    let ok = n.chars().next().map_or(false, |c| c.is_ascii_alphabetic() || c == '_') && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
                    if ok && !KEYWORDS.contains(&n.as_str()) {
                        d.names.push(n);
                    }
                }
            } else if let Ok(n) = l.parse::<usize>() {
                if n <= 1100 {
                    d.counts.extend([n.saturating_sub(1), n, n + 1]);
                }
            }
        }
        d
    })
}
/// all string and integer literals of the source files, in a canonical form
pub fn literals() -> BTreeSet<String> {
    fn walk(ts: TokenStream, out: &mut BTreeSet<String>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let at = |k: usize, c: char| i >= k && matches!(&v[i - k], TokenTree::Punct(p) if p.as_char() == c);
                    let attr = at(1, '#') || (at(1, '!') && at(2, '#'));
                    if !attr {
                        walk(g.stream(), out)
                    }
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    if s.starts_with('"') {
                        out.insert(s.replace('\n', " "));
                    } else if s.starts_with(|c: char| c.is_ascii_digit()) && !s.contains('.') {
                        let body: String = s.replace('_', "");
                        let n = match body.strip_prefix("0x") {
                            Some(h) => usize::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok(),
                            None => body.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok(),
                        };
                        if let Some(n) = n {
                            out.insert(n.to_string());
                        }
                    }
                }
                _ => (),
            }
        }
    }
    let mut out = BTreeSet::new();
    let dir = std::env::var("ORACLE_SRC").unwrap_or("/repo/src".into());
    let Ok(rd) = std::fs::read_dir(dir) else { return out };
    for e in rd.flatten() {
        let p = e.path();
        if p.extension().map_or(false, |x| x == "rs") && !p.ends_with("tests.rs") {
            if let Some(ts) = std::fs::read_to_string(&p).ok().and_then(|s| s.parse::<TokenStream>().ok()) {
                walk(ts, &mut out);
            }
        }
    }
    out
}
