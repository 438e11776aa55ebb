//! Coverage of the crate under test, per case: edge counters filled by the callbacks that the compiler puts into it
//! (see cov-rustc.sh). Without the callbacks the counters stay empty and the search is purely random.
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};
use std::sync::Mutex;

/// longer cases are not varied: they cost more than they find
pub const LONGEST: usize = 1000;
pub const N: usize = 1 << 16;
static NEXT: AtomicU32 = AtomicU32::new(1);
struct Local {
    on: bool,
    map: Vec<u8>,
    hit: Vec<u32>,
}
thread_local! {
    static L: UnsafeCell<Local> = const { UnsafeCell::new(Local { on: false, map: Vec::new(), hit: Vec::new() }) };
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT.fetch_add(1, Relaxed) % N as u32;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard;
    let _ = L.try_with(|l| {
        let l = &mut *l.get();
        if l.on {
            let x = &mut l.map[g as usize];
            if *x == 0 {
                l.hit.push(g);
            }
            *x = x.saturating_add(1);
        }
    });
}
pub fn start() {
    L.with(|l| unsafe {
        let l = &mut *l.get();
        l.on = false;
        if l.map.is_empty() {
            l.map = vec![0; N];
            l.hit.reserve(N);
        }
        for h in l.hit.drain(..) {
            l.map[h as usize] = 0;
        }
        l.on = true;
    })
}
/// features (edge, magnitude of its count) of the case just run that `seen` does not have yet; they are added
pub fn new_features(seen: &[AtomicU8]) -> usize {
    L.with(|l| unsafe {
        let l = &mut *l.get();
        l.on = false;
        let mut n = 0;
        for h in &l.hit {
            let c = l.map[*h as usize];
            let b = 1u8 << (match c { 1 => 0, 2 => 1, _ => 2 });
            if seen[*h as usize].load(Relaxed) & b == 0 {
                seen[*h as usize].fetch_or(b, Relaxed);
                n += 1;
            }
        }
        n
    })
}
pub fn edges() -> u32 {
    NEXT.load(Relaxed) - 1
}
/// cases worth varying: scenario and the choices made
pub struct Corpus(pub Mutex<Vec<(&'static str, Vec<u64>)>>);
impl Corpus {
    /// a variation of a case of the corpus
    pub fn vary(&self, r: &mut crate::toks::Rng) -> Option<(&'static str, Vec<u64>)> {
        let c = self.0.lock().unwrap();
        if c.is_empty() {
            return None;
        }
        let pick = |r: &mut crate::toks::Rng| if r.chance(1, 2) { c.len() - 1 - r.below(c.len().min(64)) } else { r.below(c.len()) };
        let (sc, mut t) = c[pick(r)].clone();
        for _ in 0..1 + r.below(3) {
            if t.is_empty() {
                break;
            }
            let i = r.below(t.len());
            match r.below(8) {
                0..=2 => t[i] = r.next(),
                3 => t[i] = r.below(4) as u64,
                4 => t.truncate(i),
                5 => {
                    let n = (1 + r.below(8)).min(t.len() - i);
                    t.drain(i..i + n);
                }
                6 => {
                    for _ in 0..1 + r.below(4) {
                        let x = r.next();
                        t.insert(i, x);
                    }
                }
                _ => {
                    let o = &c[pick(r)];
                    if o.0 == sc && !o.1.is_empty() {
                        let j = r.below(o.1.len());
                        t.truncate(i);
                        t.extend_from_slice(&o.1[j..]);
                    }
                }
            }
        }
        Some((sc, t))
    }
    pub fn add(&self, sc: &'static str, t: Vec<u64>) {
        let mut c = self.0.lock().unwrap();
        if c.len() < 20_000 && t.len() < LONGEST {
            c.push((sc, t));
        }
    }
}
