//! generation, driving and reporting of executable contracts
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0; 32];
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.next().to_le_bytes());
        }
        b
    }
    /// a canonical scalar (below 2^253)
    pub fn scalar(&mut self) -> [u8; 32] {
        let mut b = self.bytes32();
        b[31] &= 0x1f;
        b
    }
    pub fn key(&mut self) -> solana_program::pubkey::Pubkey {
        solana_program::pubkey::Pubkey::new_from_array(self.bytes32())
    }
    /// interesting u64 values: edges, powers of two and their neighbours, small and random
    pub fn edge64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(20),
            1 => u64::MAX - self.below(20),
            2 => (1u64 << self.below(64)).wrapping_add(self.below(3)).wrapping_sub(1),
            3 => self.below(10_000_000_000),
            4 => self.next() >> self.below(64),
            _ => self.next(),
        }
    }
}

/// trace of one case
#[derive(Default)]
pub struct Tr {
    pub lines: Vec<String>,
    pub nontrivial: bool,
    pub sig: u64,
}
impl Tr {
    pub fn say(&mut self, s: String) {
        for b in s.bytes() {
            self.sig = (self.sig ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if self.lines.len() < 400 {
            self.lines.push(s);
        }
    }
    pub fn mark(&mut self) {
        self.nontrivial = true;
    }
}
#[macro_export]
macro_rules! say { ($t:expr, $($a:tt)*) => { $t.say(format!($($a)*)) } }

/// a contract that does not hold: `key` identifies which one and how
#[derive(Debug, Clone)]
pub struct Viol {
    pub key: String,
    pub what: String,
}
pub type R = Result<(), Viol>;
#[macro_export]
macro_rules! ck {
    ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return Err($crate::Viol { key: $key.to_string(), what: format!($($a)*) }) } };
}
pub type Case = fn(&mut Rng, &mut Tr) -> R;

fn run_case(f: Case, seed: u64) -> (Tr, R) {
    let mut t = Tr::default();
    let mut r = Rng(seed);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, &mut t)));
    match res {
        Ok(x) => (t, x),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            (t, Err(Viol { key: "unexpected-abort".into(), what: format!("the code aborted outside a guarded call: {m}") }))
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type Registry = Vec<(&'static str, Vec<(&'static str, Case)>)>;

pub fn drive(reg: Registry) {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (p, cs) in &reg {
                println!("{p} {}", cs.iter().map(|c| c.0).collect::<Vec<_>>().join(" "));
            }
        }
        // run <property> <seed> <seconds> <known keys file|-> <threads>
        Some("run") => {
            let prop = &a[2];
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let known: HashSet<String> = std::fs::read_to_string(&a[5]).unwrap_or_default().lines().map(|s| s.to_string()).collect();
            let threads: u64 = a.get(6).and_then(|s| s.parse().ok()).unwrap_or(8);
            let Some((_, cases)) = reg.iter().find(|(p, _)| p == prop) else {
                println!("{{\"missing\":true}}");
                return;
            };
            let t0 = std::time::Instant::now();
            let stop = AtomicBool::new(false);
            let next = AtomicU64::new(0);
            let evals = AtomicU64::new(0);
            let nontriv: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
            let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
            let found: Mutex<Vec<(String, u64, Viol, Vec<String>)>> = Mutex::new(vec![]);
            let knownhit: Mutex<Vec<(String, u64, Viol)>> = Mutex::new(vec![]);
            // (started, name, case) of the case each thread runs, for the watchdog
            let busy: Vec<Mutex<Option<(std::time::Instant, &'static str, u64)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
            let over = AtomicU64::new(0);
            let (busy, over) = (&busy, &over);
            let known = &known;
            let (next, stop, evals, nontriv, samples, found, knownhit) = (&next, &stop, &evals, &nontriv, &samples, &found, &knownhit);
            std::thread::scope(|s| {
                s.spawn(move || {
                    while over.load(Ordering::SeqCst) < threads {
                        std::thread::sleep(std::time::Duration::from_millis(50));
                        for b in busy {
                            let Some((t, name, cs)) = *b.lock().unwrap() else { continue };
                            if t.elapsed().as_secs() >= 40 {
                                let mut f = found.lock().unwrap();
                                if f.is_empty() {
                                    f.push((name.to_string(), cs, Viol { key: "no-termination".into(), what: "the code under test does not return within 40 s".into() }, vec![]));
                                }
                                let (n, cs, v, _) = &f[0];
                                println!(
                                    "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[],\"known\":[],\"violation\":{{\"name\":{},\"case\":{},\"key\":{},\"what\":{},\"trace\":[]}}}}",
                                    evals.load(Ordering::SeqCst),
                                    nontriv.lock().unwrap().len(),
                                    esc(n),
                                    cs,
                                    esc(&v.key),
                                    esc(&v.what)
                                );
                                std::process::exit(0);
                            }
                        }
                    }
                });
                for th in 0..threads {
                    s.spawn(move || { loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        // every kind of case runs at least a few times, whatever the time limit
                        if stop.load(Ordering::SeqCst) || (t0.elapsed().as_secs_f64() > secs && i >= 2 * cases.len() as u64) {
                            break;
                        }
                        let (name, f) = cases[(i % cases.len() as u64) as usize];
                        let cs = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ (i + 1)).next();
                        *busy[th as usize].lock().unwrap() = Some((std::time::Instant::now(), name, cs));
                        let (tr, r) = run_case(f, cs);
                        *busy[th as usize].lock().unwrap() = None;
                        evals.fetch_add(1, Ordering::SeqCst);
                        if tr.nontrivial {
                            nontriv.lock().unwrap().insert(tr.sig);
                        }
                        if samples.lock().unwrap().len() < 3 && tr.nontrivial {
                            samples.lock().unwrap().push(format!("{name} case {cs}: {}", tr.lines.iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
                        }
                        if let Err(v) = r {
                            let k = format!("{name}/{}", v.key);
                            if known.contains(&k) {
                                let mut kh = knownhit.lock().unwrap();
                                if !kh.iter().any(|x| format!("{}/{}", x.0, x.2.key) == k) {
                                    kh.push((name.to_string(), cs, v));
                                }
                            } else {
                                found.lock().unwrap().push((name.to_string(), cs, v, tr.lines));
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    } over.fetch_add(1, Ordering::SeqCst); });
                }
            });
            let f = found.lock().unwrap();
            let viol = f.first().map(|(n, cs, v, l)| {
                format!("{{\"name\":{},\"case\":{},\"key\":{},\"what\":{},\"trace\":[{}]}}", esc(n), cs, esc(&v.key), esc(&v.what), l.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","))
            });
            let kn: Vec<String> = knownhit.lock().unwrap().iter().map(|(n, cs, v)| format!("{{\"key\":{},\"case\":{},\"what\":{}}}", esc(&format!("{}/{}", n, v.key)), cs, esc(&v.what))).collect();
            println!(
                "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"known\":[{}],\"violation\":{}}}",
                evals.load(Ordering::SeqCst),
                nontriv.lock().unwrap().len(),
                samples.lock().unwrap().iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
                kn.join(","),
                viol.unwrap_or("null".into())
            );
        }
        // replay <property> <name> <case seed>
        Some("replay") => {
            let c = reg.iter().find(|(p, _)| *p == a[2]).and_then(|(_, c)| c.iter().find(|x| x.0 == a[3])).expect("no such contract");
            let (tr, r) = run_case(c.1, a[4].parse().unwrap());
            for l in tr.lines {
                println!("  {l}");
            }
            match r {
                Ok(()) => println!("the contract holds on this input"),
                Err(v) => {
                    println!("VIOLATED {}: {}", v.key, v.what);
                    std::process::exit(1)
                }
            }
        }
        _ => eprintln!("usage: run|replay|list"),
    }
}
