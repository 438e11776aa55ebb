//! Falsifier: runs cases against the real crate and compares with independent references.
//! It never decides a property alone: it turns a failed obligation into a concrete input and
//! samples the contracts assumed of dependencies and dropped code.
//!
//! oracle --prop C01 --seconds 20 --seed 1 --out OUT.json [--threads 8] [--trace FILE]
//! oracle --prop C01 --replay SCENARIO:SEED [--tape FILE]   (FILE: choices, or a replay file that has a "tape")
mod cov;
mod dict;
mod dump;
mod gen;
mod grammar;
mod props;
mod toks;
mod wf;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn cut(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "…"
    } else {
        s.into()
    }
}
struct Cur {
    started: Option<Instant>,
    what: (String, u64),
    tape: Vec<u64>,
    input: String,
}
fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 / 1_000_000
}
fn viol_json(prop: &str, scenario: &str, seed: u64, tape: &[u64], input: &str, what: &str, expected: &str, got: &str, all: &str) -> String {
    format!(
        "{{\"property\":{},\"scenario\":{},\"case_seed\":{},\"tape\":{},\"input\":{},\"what\":{},\"expected\":{},\"got\":{},\"all_props\":{}}}",
        esc(prop),
        esc(scenario),
        seed,
        esc(&props::tape_text(tape)),
        esc(input),
        esc(what),
        esc(&cut(expected, 2000)),
        esc(&cut(got, 2000)),
        esc(all)
    )
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--prop").unwrap_or("ALL".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let max_cases: u64 = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let trace = get("--trace");
    std::panic::set_hook(Box::new(|_| ()));
    if std::env::args().any(|a| a == "--dump-dict") {
        for l in dict::literals() {
            println!("{l}");
        }
        return;
    }
    dict::get();
    if let Some(p) = get("--probe") {
        let bad = match p.as_str() {
            // an apostrophe which is not joint does not form a lifetime with the name after it
            "bounded-lifetime-apostrophe" => props::quiet(|| {
                let p = venial::GenericParam::bounded_lifetime("a", vec![]);
                matches!(p.tk_prefix, Some(proc_macro2::TokenTree::Punct(q)) if q.spacing() != proc_macro2::Spacing::Joint)
            })
            .unwrap_or(true),
            _ => std::process::exit(2),
        };
        println!("{p}: {}", if bad { "fails" } else { "holds" });
        std::process::exit(if bad { 1 } else { 0 });
    }
    if let Some(r) = get("--replay") {
        let (s, n) = r.rsplit_once(':').expect("SCENARIO:SEED");
        let n: u64 = n.parse().expect("seed");
        let s2 = s.to_string();
        let tape: Vec<u64> = get("--tape").map_or(vec![], |f| {
            let t = std::fs::read_to_string(f).expect("tape");
            let t = match t.find("\"tape\": \"").map(|i| i + 9).or(t.find("\"tape\":\"").map(|i| i + 8)) {
                Some(i) => t[i..].split('"').next().unwrap().to_string(),
                None => t,
            };
            t.trim().split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).expect("tape")).collect()
        });
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || props::run(&s2, n, tape, Box::new(|i| eprintln!("input: {i}")))).unwrap();
        let (c, _) = h.join().unwrap();
        println!("input: {}", c.input);
        let mut bad = false;
        for v in &c.viol {
            if prop == "ALL" || v.props.iter().any(|p| *p == prop) {
                bad = true;
                println!("{:?} {}\n  expected {}\n  got      {}", v.props, v.what, v.expected, v.got);
            }
        }
        std::process::exit(if bad { 1 } else { 0 });
    }
    let out = get("--out");
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<String>>> = Default::default();
    let evals = Arc::new(AtomicU64::new(0));
    let hits = Arc::new(AtomicU64::new(0));
    let distinct: Arc<Mutex<HashSet<u64>>> = Default::default();
    let per: Arc<Mutex<BTreeMap<String, u64>>> = Default::default();
    let samples: Arc<Mutex<Vec<String>>> = Default::default();
    let plan = props::plan(&prop);
    let seen_cov: Arc<Vec<std::sync::atomic::AtomicU8>> = Arc::new((0..cov::N).map(|_| Default::default()).collect());
    let corpus = Arc::new(cov::Corpus(Mutex::new(vec![])));
    let guided = Arc::new(AtomicU64::new(0));
    let total: usize = plan.iter().map(|x| x.1).sum();
    let start = Instant::now();
    let tracef = trace.map(|t| Arc::new(Mutex::new(std::fs::File::create(t).expect("trace file"))));
    let mut hs = vec![];
    let mut curs = vec![];
    for t in 0..threads {
        let cur = Arc::new(Mutex::new(Cur { started: None, what: (String::new(), 0), tape: vec![], input: String::new() }));
        curs.push(cur.clone());
        let (seen_cov, corpus, guided) = (seen_cov.clone(), corpus.clone(), guided.clone());
        let (stop, found, evals, hits, distinct, per, samples, plan, prop, tracef) =
            (stop.clone(), found.clone(), evals.clone(), hits.clone(), distinct.clone(), per.clone(), samples.clone(), plan.clone(), prop.clone(), tracef.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut rng = toks::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t));
                    let mut mine: BTreeMap<String, u64> = BTreeMap::new();
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut n = 0u64;
                    while !stop.load(SeqCst) && start.elapsed().as_secs_f64() < secs && n * threads < max_cases {
                        n += 1;
                        let mut k = rng.below(total);
                        let mut sc = plan[0].0;
                        for (s, w) in &plan {
                            if k < *w {
                                sc = s;
                                break;
                            }
                            k -= w;
                        }
                        let cs = rng.next();
                        let mut tape = vec![];
                        if cov::edges() > 0 && rng.chance(1, 3) {
                            if let Some((s, t)) = corpus.vary(&mut rng) {
                                (sc, tape) = (s, t);
                                guided.fetch_add(1, SeqCst);
                            }
                        }
                        {
                            let mut c = cur.lock().unwrap();
                            c.started = Some(Instant::now());
                            c.what = (sc.to_string(), cs);
                            c.tape.clone_from(&tape);
                            c.input.clear();
                        }
                        if let Some(f) = &tracef {
                            use std::io::Write;
                            let mut f = f.lock().unwrap();
                            let _ = writeln!(f, "{t} {sc}:{cs}");
                        }
                        let (cur2, tf) = (cur.clone(), tracef.clone());
                        cov::start();
                        let (c, made) = props::run(
                            sc,
                            cs,
                            tape,
                            Box::new(move |i| {
                                cur2.lock().unwrap().input = i.to_string();
                                if let Some(f) = &tf {
                                    use std::io::Write;
                                    let _ = writeln!(f.lock().unwrap(), "{t} = {}", i.replace('\n', " "));
                                }
                            }),
                        );
                        cur.lock().unwrap().started = None;
                        let fresh = cov::new_features(&seen_cov);
                        evals.fetch_add(1, SeqCst);
                        *mine.entry(sc.into()).or_default() += 1;
                        if prop == "ALL" || c.hit.iter().any(|h| *h == prop) {
                            hits.fetch_add(1, SeqCst);
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            c.input.hash(&mut h);
                            if seen.len() < 2_000_000 {
                                seen.insert(h.finish());
                            }
                            if n <= 2 {
                                samples.lock().unwrap().push(cut(&c.input, 300));
                            }
                        }
                        for v in &c.viol {
                            if prop == "ALL" || v.props.iter().any(|p| *p == prop) {
                                let p = if prop == "ALL" { v.props.join("+") } else { prop.clone() };
                                let mut f = found.lock().unwrap();
                                let j = viol_json(&p, sc, cs, &made, &c.input, &v.what, &v.expected, &v.got, &v.props.join(","));
                                // keep the shortest one
                                if f.as_ref().map_or(true, |x| x.len() > j.len()) {
                                    *f = Some(j);
                                }
                                stop.store(true, SeqCst);
                                break;
                            }
                        }
                        if fresh > 0 {
                            corpus.add(sc, made);
                        }
                    }
                    let mut p = per.lock().unwrap();
                    for (k, v) in mine {
                        *p.entry(k).or_default() += v;
                    }
                    distinct.lock().unwrap().extend(seen);
                })
                .unwrap(),
        );
    }
    // watchdog
    let stuck: Option<String> = loop {
        std::thread::sleep(Duration::from_millis(100));
        if hs.iter().all(|h| h.is_finished()) {
            break None;
        }
        let mem = rss_mb();
        let slow = curs.iter().find(|c| c.lock().unwrap().started.map_or(false, |s| s.elapsed().as_secs() > if mem > 6000 { 1 } else { 25 }));
        if let Some(c) = slow {
            let c = c.lock().unwrap();
            break Some(viol_json("C03", &c.what.0, c.what.1, &c.tape, &cut(&c.input, 4000), "did not finish", "returns or panics within 25 s", &format!("still running, {mem} MB in use"), "C03"));
        }
    };
    let finished = stuck.is_none();
    if finished {
        for h in hs {
            let _ = h.join();
        }
    }
    let f = found.lock().unwrap().clone();
    let per = per.lock().map(|p| p.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")).unwrap_or_default();
    let smp = samples.lock().unwrap().iter().take(8).map(|s| esc(s)).collect::<Vec<_>>().join(",");
    let nd = if finished { distinct.lock().unwrap().len() } else { 0 };
    let j = format!(
        "{{\"property\":{},\"seed\":{seed},\"seconds\":{:.1},\"evaluations\":{},\"relevant\":{},\"distinct\":{nd},\"guided\":{},\"edges\":{},\"edges_hit\":{},\"corpus\":{},\"per_scenario\":{{{per}}},\"samples\":[{smp}],\"violation\":{},\"stuck\":{}}}",
        esc(&prop),
        start.elapsed().as_secs_f64(),
        evals.load(SeqCst),
        hits.load(SeqCst),
        guided.load(SeqCst),
        cov::edges(),
        seen_cov.iter().filter(|x| x.load(SeqCst) > 0).count(),
        corpus.0.lock().map(|c| c.len()).unwrap_or(0),
        f.clone().unwrap_or("null".into()),
        stuck.clone().unwrap_or("null".into()),
    );
    match out {
        Some(o) => std::fs::write(o, &j).expect("write output"),
        None => println!("{j}"),
    }
    let bad = f.is_some() || (stuck.is_some() && (prop == "C03" || prop == "ALL"));
    std::process::exit(if bad { 1 } else { 0 });
}
