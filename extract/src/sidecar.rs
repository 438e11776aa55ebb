//! The contracts (verus/contracts.spec): a line starting with `@` opens a clause, which extends to the next one.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Clause {
    pub tag: String,
    pub text: String,
}
#[derive(Clone, Debug, Default)]
pub struct LoopSpec {
    pub inv: Vec<Clause>,
    pub invx: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Option<String>,
    pub before: String,
    pub body_start: String,
    pub body_end: String,
    pub after: String,
}
#[derive(Clone, Debug, Default)]
pub struct ClosureSpec {
    pub param: String,
    pub ret: String,
    pub spec: String,
}
#[derive(Clone, Debug, Default)]
pub struct FnContract {
    pub params: Vec<String>,
    pub ret: String,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: Option<String>,
    pub attrs: String,
    pub roles: Vec<(String, String, usize)>,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub closures: BTreeMap<usize, ClosureSpec>,
    pub start: String,
    pub end: String,
    pub explicit_loops: bool,
}
#[derive(Default)]
pub struct Sidecar {
    pub fns: BTreeMap<String, FnContract>,
    pub toks: BTreeMap<String, String>,
}

fn clauses(head: &str, v: &[Clause], out: &mut String) {
    if v.is_empty() {
        return;
    }
    out.push_str(&format!("\n    {head}\n"));
    for c in v {
        out.push_str(&format!("        {}, // @@CL {}\n", c.text, c.tag));
    }
}

impl LoopSpec {
    pub fn render(&self) -> String {
        let mut s = String::new();
        clauses("invariant_except_break", &self.invx, &mut s);
        clauses("invariant", &self.inv, &mut s);
        clauses("ensures", &self.ens, &mut s);
        s.push_str(&format!("\n    decreases {}, // @@CL C03\n    ", self.dec.clone().unwrap_or_else(|| "0int".into())));
        s
    }
}

fn subst(s: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut prev = ' ';
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let j0 = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[j0..i].iter().collect();
            match map.get(&w) {
                Some(x) if prev != '.' => out.push_str(x),
                _ => out.push_str(&w),
            }
            prev = 'x';
        } else {
            out.push(b[i]);
            prev = b[i];
            i += 1;
        }
    }
    out
}

impl Sidecar {
    /// types whose printed form is a folded definition
    pub fn opaque(&self, ty: &str) -> bool {
        self.toks.contains_key(ty) && !["Item", "Module", "Punctuated", "InlineGenericArgs", "TypeExpr", "ValueExpr"].contains(&ty)
    }
}

impl FnContract {
    pub fn render_spec(&self) -> String {
        let mut s = String::new();
        clauses("requires", &self.requires, &mut s);
        clauses("ensures", &self.ensures, &mut s);
        if let Some(d) = &self.decreases {
            s.push_str(&format!("\n    decreases {d}, // @@CL C03\n"));
        }
        s
    }
    pub fn rename(&mut self, m: &BTreeMap<String, String>) {
        let r = |v: &mut Vec<Clause>| {
            for c in v {
                c.text = subst(&c.text, m);
            }
        };
        r(&mut self.requires);
        r(&mut self.ensures);
        self.decreases = self.decreases.as_ref().map(|d| subst(d, m));
        self.start = subst(&self.start, m);
        self.end = subst(&self.end, m);
        for l in self.loops.values_mut() {
            r(&mut l.inv);
            r(&mut l.invx);
            r(&mut l.ens);
            l.dec = l.dec.as_ref().map(|d| subst(d, m));
            l.before = subst(&l.before, m);
            l.body_start = subst(&l.body_start, m);
            l.body_end = subst(&l.body_end, m);
            l.after = subst(&l.after, m);
        }
    }
}

fn tagged(s: &str) -> Clause {
    let s = s.trim();
    let (a, b) = s.split_once(char::is_whitespace).unwrap_or((s, ""));
    let is_tag = a.split(',').all(|x| x.len() >= 3 && x.starts_with('C') && x[1..].chars().all(|c| c.is_ascii_digit()));
    let (tag, text) = if is_tag { (a.to_string(), b.trim()) } else { ("-".to_string(), s) };
    Clause { tag, text: text.trim_end_matches(',').to_string() }
}

fn brace_expand(k: &str) -> Vec<String> {
    if let (Some(a), Some(b)) = (k.find('{'), k.find('}')) {
        k[a + 1..b].split(',').map(|x| format!("{}{}{}", &k[..a], x.trim(), &k[b + 1..])).collect()
    } else {
        vec![k.to_string()]
    }
}

pub fn parse(text: &str) -> Result<Sidecar, String> {
    let mut clauses: Vec<(String, String)> = vec![];
    for line in text.lines() {
        let l = line.trim();
        if l.starts_with("//") {
            continue;
        }
        if let Some(rest) = l.strip_prefix('@') {
            let (k, v) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
            clauses.push((k.to_string(), v.trim().to_string()));
        } else if let Some(c) = clauses.last_mut() {
            c.1.push(' ');
            c.1.push_str(l);
        }
    }
    let mut sc = Sidecar::default();
    let mut keys: Vec<String> = vec![];
    let mut cur = FnContract::default();
    let mut lp = 0;
    let mut cl = 0;
    let flush = |keys: &mut Vec<String>, cur: &mut FnContract, sc: &mut Sidecar| -> Result<(), String> {
        for k in keys.drain(..) {
            if sc.fns.insert(k.clone(), cur.clone()).is_some() {
                return Err(format!("duplicate contract {k}"));
            }
        }
        *cur = FnContract { ret: "r".into(), ..Default::default() };
        Ok(())
    };
    for (k, v) in clauses {
        let v = v.replace("$o", "old(tokens)@").replace("$f", "final(tokens)@").replace("$t", "tokens@");
        match k.as_str() {
            "fn" => {
                flush(&mut keys, &mut cur, &mut sc)?;
                cur.ret = "r".into();
                keys = brace_expand(v.trim());
                lp = 0;
                cl = 0;
            }
            "toks" => {
                let (a, b) = v.split_once(char::is_whitespace).ok_or("toks")?;
                sc.toks.insert(a.to_string(), b.trim().to_string());
            }
            "params" => cur.params = v.split_whitespace().map(String::from).collect(),
            "ret" => cur.ret = v,
            "reveal" => {
                for w in v.split_whitespace() {
                    let f = if sc.opaque(w) { format!("toks_{w}") } else { w.to_string() };
                    cur.start.push_str(&format!(" proof {{ reveal({f}); }}"));
                }
            }
            "requires" => cur.requires.push(tagged(&v)),
            "ensures" => cur.ensures.push(tagged(&v)),
            "decreases" => cur.decreases = Some(v),
            "wf" => {
                for a in 4..=6 {
                    cur.ensures.push(Clause { tag: format!("C0{a}"), text: v.replace("$a", &a.to_string()) });
                }
            }
            "winv" => {
                for a in 4..=6 {
                    cur.loops.entry(lp).or_default().inv.push(Clause { tag: format!("C0{a}"), text: v.replace("$a", &a.to_string()) });
                }
            }
            "wreq" => {
                for a in 4..=6 {
                    cur.requires.push(Clause { tag: format!("C0{a}"), text: v.replace("$a", &a.to_string()) });
                }
            }
            "attr" => {
                cur.attrs.push_str(&v);
                cur.attrs.push(' ');
            }
            "role" => {
                let mut it = v.splitn(3, char::is_whitespace);
                let n = it.next().unwrap_or("").to_string();
                let i: usize = it.next().unwrap_or("0").parse().map_err(|_| "role")?;
                cur.roles.push((n, it.next().unwrap_or("").to_string(), i));
            }
            "loop" => {
                lp = v.trim().parse().map_err(|_| format!("loop {v}"))?;
                cur.loops.entry(lp).or_default();
            }
            "inv" => cur.loops.entry(lp).or_default().inv.push(tagged(&v)),
            "invx" => cur.loops.entry(lp).or_default().invx.push(tagged(&v)),
            "lens" => cur.loops.entry(lp).or_default().ens.push(tagged(&v)),
            "dec" => cur.loops.entry(lp).or_default().dec = Some(v),
            "before" => cur.loops.entry(lp).or_default().before.push_str(&v),
            "body" => cur.loops.entry(lp).or_default().body_start.push_str(&v),
            "bodyend" => cur.loops.entry(lp).or_default().body_end.push_str(&v),
            "after" => cur.loops.entry(lp).or_default().after.push_str(&v),
            "closure" => {
                cl = v.trim().parse().map_err(|_| format!("closure {v}"))?;
            }
            "cparam" => cur.closures.entry(cl).or_default().param = v,
            "cret" => cur.closures.entry(cl).or_default().ret = v,
            "cspec" => cur.closures.entry(cl).or_default().spec = v,
            "start" => cur.start.push_str(&v),
            "end" => cur.end.push_str(&v),
            "explicit" => cur.explicit_loops = true,
            x => return Err(format!("unknown directive @{x}")),
        }
    }
    flush(&mut keys, &mut cur, &mut sc)?;
    Ok(sc)
}
