mod deret;
mod engine;
mod p2;
mod passes;
mod sidecar;
use passes::*;
use std::collections::{BTreeMap, BTreeSet};

fn esc(s: &str) -> String {
    format!("{:?}", s).replace("\\'", "'")
}

fn run() -> Result<(), String> {
    let a: Vec<String> = std::env::args().collect();
    // vextract <repo/src> <verusdir> <out.rs> <report.json> [external keys...]
    let (srcdir, vdir, out, report) = (&a[1], &a[2], &a[3], &a[4]);
    let external: BTreeSet<String> = a[5..].iter().cloned().collect();
    let read = |p: String| std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"));
    // the strict directory shares the prelude, the specifications and the printing contracts with its parent and has
    // parsing contracts of its own, under which no panic is allowed
    let strict = std::path::Path::new(&format!("{vdir}/strict.spec")).exists();
    let base = if strict { format!("{vdir}/..") } else { vdir.clone() };
    let mut side = sidecar::Sidecar::default();
    for f in ["toks.spec", "parse.spec", "edition.spec", "strict.spec"] {
        if (f == "parse.spec" && strict) || (f == "strict.spec" && !strict) {
            continue;
        }
        let d = if f == "strict.spec" { vdir } else { &base };
        let x = sidecar::parse(&read(format!("{d}/{f}"))?).map_err(|e| format!("{f}: {e}"))?;
        for (k, v) in x.fns {
            // only strict.spec may replace a contract
            if side.fns.insert(k.clone(), v).is_some() && f != "strict.spec" {
                return Err(format!("{f}: {k} has two contracts"));
            }
        }
        side.toks.extend(x.toks);
    }
    let lib = read(format!("{srcdir}/lib.rs"))?;
    let libf = syn::parse_file(&lib).map_err(|e| e.to_string())?;
    let mut counts: Counts = BTreeMap::new();
    let mut dropped = vec![];
    let mut mods = vec![];
    let mut reexports = String::new();
    for it in &libf.items {
        match it {
            syn::Item::Mod(m) if m.content.is_none() => {
                if is_cfg_test(&m.attrs) {
                    dropped.push(format!("mod {}", m.ident));
                    continue;
                }
                let mut p = format!("{srcdir}/{}.rs", m.ident);
                if !std::path::Path::new(&p).exists() {
                    p = format!("{srcdir}/{}/mod.rs", m.ident);
                }
                mods.push(Module { name: m.ident.to_string(), file: p.clone(), src: read(p)? });
            }
            syn::Item::Use(u) => {
                reexports.push_str(&lib[rg(u)]);
                reexports.push('\n');
            }
            syn::Item::Mod(m) => dropped.push(format!("inline mod {}", m.ident)),
            _ => dropped.push("item in lib.rs".into()),
        }
    }
    let mut clone_types = vec![];
    for m in mods.iter_mut() {
        m.src = expand_macros(&m.src, &mut counts)?;
        m.src = pass_items(m, &mut counts, &mut dropped, &mut clone_types)?;
    }
    let contracted: BTreeSet<String> = side.fns.keys().cloned().collect();
    let mut used = BTreeSet::new();
    let mut missing = BTreeSet::new();
    pass_inline(&mut mods, &contracted, &mut counts, &mut used, &mut missing)?;
    let still: BTreeSet<String> = missing.iter().map(|x| x.1.clone()).collect();
    let drop: BTreeSet<String> = used.iter().filter(|k| !still.contains(*k) && !contracted.contains(*k)).cloned().collect();
    // fields of a Punctuated type
    let mut punct_fields = BTreeSet::new();
    for m in &mods {
        let f = syn::parse_file(&m.src).map_err(|e| e.to_string())?;
        for it in &f.items {
            if let syn::Item::Struct(s) = it {
                for fl in &s.fields {
                    if let (Some(n), syn::Type::Path(p)) = (&fl.ident, &fl.ty) {
                        if last_seg(&p.path) == "Punctuated" {
                            punct_fields.insert(n.to_string());
                        }
                    }
                }
            }
        }
    }
    let mut reports = vec![];
    let mut text = String::new();
    text.push_str("#![allow(unused, dead_code, non_snake_case)]\nuse vstd::prelude::*;\nverus!{\n");
    let mut prelude = read(format!("{base}/prelude.rs"))?;
    if strict {
        let (a, b) = ("fn lenient() -> bool { true }", "fn lenient() -> bool { false }");
        if prelude.matches(a).count() != 1 {
            return Err("prelude.rs: lenient".into());
        }
        prelude = prelude.replace(a, b);
    }
    if !external.is_empty() {
        // the stand-in for the body of a function that is set aside (it is not `external_body` itself: a function outside
        // of the verified ones changes the order in which Verus makes facts about the others available)
        let a = "pub open spec fn lenient()";
        let b = "#[verifier::external_body]\npub fn vx_aside<T>() -> (r: T) ensures false { unimplemented!() }\n";
        prelude = prelude.replacen(a, &format!("{b}{a}"), 1);
    }
    text.push_str(&prelude);
    text.push_str(&read(format!("{base}/prelude2.rs"))?);
    text.push_str(&read(format!("{base}/prelude3.rs"))?);
    text.push_str("\n}\n");
    text.push_str("pub mod specs {\nuse vstd::prelude::*; use crate::proc_macro2::*; use crate::types::*; use crate::punctuated::*; use crate::error::*;\n");
    text.push_str(&read(format!("{base}/specs.rs"))?);
    if strict {
        text.push_str(&read(format!("{vdir}/grammar.rs"))?);
    }
    text.push_str("\n}\n");
    for m in &mods {
        let globs: String = mods.iter().filter(|x| x.name != m.name).map(|m| format!("use crate::{}::*; ", m.name)).collect();
        let body = p2::pass_render(m, &side, &external, &drop, &punct_fields, &mut counts, &mut reports)?;
        text.push_str(&format!(
            "// @@MODULE {} {}\npub mod {} {{\nuse vstd::prelude::*; use crate::proc_macro2::*; use crate::specs::*; {}\nbroadcast use {{crate::proc_macro2::seqs, crate::proc_macro2::toks_group, crate::specs::spec_group{}}};\n{}\n",
            m.name, m.file, m.name, globs, if body.contains("ToTokens for") { "" } else { ", crate::specs::item_group" }, body
        ));
        text.push_str("\n}\n");
    }
    text.push_str(&reexports);
    text.push_str("\n}\nfn main() {}\n");
    std::fs::write(out, &text).map_err(|e| e.to_string())?;
    // report
    let mut j = String::from("{\n");
    j.push_str(&format!("\"rules\": {{{}}},\n", counts.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"dropped\": [{}],\n", dropped.iter().map(|d| esc(d)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"inlined\": [{}],\n", drop.iter().map(|d| esc(d)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"clone_types\": [{}],\n", clone_types.iter().map(|d| esc(&d.1)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"calls_without_contract\": [{}],\n", missing.iter().map(|(a, b)| format!("[{}, {}]", esc(a), esc(b))).collect::<Vec<_>>().join(", ")));
    let have: BTreeSet<&String> = reports.iter().map(|r| &r.key).collect();
    let lost: Vec<&String> = contracted.iter().filter(|k| !have.contains(k)).collect();
    j.push_str(&format!("\"lost_contracts\": [{}],\n", lost.iter().map(|d| esc(d)).collect::<Vec<_>>().join(", ")));
    j.push_str("\"functions\": [\n");
    j.push_str(
        &reports
            .iter()
            .map(|r| {
                format!(
                    "{{\"key\": {}, \"module\": {}, \"contract\": {}, \"external\": {}, \"loops\": {}, \"problems\": [{}]}}",
                    esc(&r.key), esc(&r.module), r.contract, r.external, r.loops,
                    r.problems.iter().map(|p| esc(p)).collect::<Vec<_>>().join(", ")
                )
            })
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    j.push_str("\n]}\n");
    std::fs::write(report, j).map_err(|e| e.to_string())?;
    Ok(())
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vextract: {e}");
        std::process::exit(3);
    }
}
