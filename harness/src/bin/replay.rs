//! Native side of the harnesses: explore inputs, write failing ones to replay files, and run replay files.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    native::main()
}

#[cfg(not(kani))]
mod native {
    use std::collections::HashSet;
    use std::hash::{Hash, Hasher};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::{Arc, Mutex};
    use std::time::{Duration, Instant};
    use vh::{Gen, Harness};

    fn js(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }

    thread_local!(static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

    /// Run once; on failure give back the message and the draws that led to it.
    fn once(h: &Harness, mut g: Gen) -> (Gen, Option<String>) {
        let r = catch_unwind(AssertUnwindSafe(|| (h.run)(&mut g)));
        match r {
            Ok(()) => (g, None),
            Err(_) => {
                let m = LAST.with(|l| l.borrow().clone());
                (g, Some(m))
            }
        }
    }

    fn shrink(h: &Harness, draws: Vec<u128>, msg: String) -> (Vec<u128>, String) {
        let mut best = draws;
        let mut bmsg = msg;
        let deadline = Instant::now() + Duration::from_secs(10);
        let mut changed = true;
        while changed && Instant::now() < deadline {
            changed = false;
            let mut i = 0;
            while i < best.len() && Instant::now() < deadline {
                let mut cands: Vec<Vec<u128>> = Vec::new();
                let mut del = best.clone();
                del.remove(i);
                cands.push(del);
                if best[i] != 0 {
                    for v in [0, best[i] / 2, best[i] - 1] {
                        let mut c = best.clone();
                        c[i] = v;
                        cands.push(c);
                    }
                }
                let mut hit = false;
                for c in cands {
                    let (g, m) = once(h, Gen::replay(c));
                    if let Some(m) = m {
                        // what it actually drew
                        let smaller = g.log.len() < best.len() || (g.log.len() == best.len() && g.log < best);
                        if smaller {
                            best = g.log;
                            bmsg = m;
                            hit = true;
                            changed = true;
                            break;
                        }
                    }
                }
                if !hit {
                    i += 1;
                }
            }
        }
        (best, bmsg)
    }

    struct Stats {
        evals: u64,
        distinct: u64,
        exhausted: bool,
        fail: Option<(Vec<u128>, String)>,
        wall: f64,
        sample: Vec<u128>,
    }

    fn explore(h: &Harness, seed: u64, mult: f64, budget: Duration) -> Stats {
        let start = Instant::now();
        let mut st = Stats { evals: 0, distinct: 0, exhausted: false, fail: None, wall: 0.0, sample: vec![] };
        let mut seen: HashSet<u64> = HashSet::new();
        let key = |l: &Vec<u128>| {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            l.hash(&mut s);
            s.finish()
        };
        let cap = |n: u64| (n as f64 * mult) as u64;
        if h.exhaustive {
            let mut odo = Some(Vec::new());
            let limit = cap(h.random.max(200));
            while let Some(o) = odo.take() {
                if st.evals >= limit || start.elapsed() > budget / 2 {
                    odo = Some(o);
                    break;
                }
                let (g, f) = once(h, Gen::exhaustive(o));
                st.evals += 1;
                seen.insert(key(&g.log));
                if let Some(m) = f {
                    st.fail = Some((g.log, m));
                    break;
                }
                odo = g.next_odometer();
            }
            st.exhausted = odo.is_none();
        }
        if st.fail.is_none() {
            let mut hs = std::collections::hash_map::DefaultHasher::new();
            h.name.hash(&mut hs);
            let base = seed ^ hs.finish();
            let n = cap(h.random);
            let mut i = 0;
            while i < n && start.elapsed() < budget {
                let (g, f) = once(h, Gen::random(base.wrapping_add(i)));
                st.evals += 1;
                if seen.len() < 2_000_000 {
                    seen.insert(key(&g.log));
                }
                if i == 0 {
                    st.sample = g.log.iter().take(40).copied().collect();
                }
                if let Some(m) = f {
                    st.fail = Some((g.log, m));
                    break;
                }
                i += 1;
            }
        }
        if let Some((d, m)) = st.fail.take() {
            st.fail = Some(shrink(h, d, m));
        }
        st.distinct = seen.len() as u64;
        st.wall = start.elapsed().as_secs_f64();
        st
    }

    fn arg(name: &str) -> Option<String> {
        let a: Vec<String> = std::env::args().collect();
        a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
    }

    fn nums(d: &[u128]) -> String {
        let v: Vec<String> = d.iter().map(|x| js(&x.to_string())).collect();
        format!("[{}]", v.join(","))
    }

    pub fn main() {
        std::panic::set_hook(Box::new(|i| {
            LAST.with(|l| *l.borrow_mut() = i.to_string());
        }));
        let mode = std::env::args().nth(1).unwrap_or_default();
        match &*mode {
            "list" => {
                for h in vh::all() {
                    println!(
                        "{{\"prop\":{},\"name\":{},\"kani\":{},\"bound\":{},\"random\":{},\"exhaustive\":{}}}",
                        js(h.prop), js(h.name), js(h.kani), js(h.bound), h.random, h.exhaustive
                    );
                }
            }
            "run" => {
                let name = arg("--harness").unwrap();
                let draws: Vec<u128> = arg("--draws").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
                let h = vh::all().find(|h| h.name == name).expect("no such harness");
                let (_, f) = once(h, Gen::replay(draws));
                match f {
                    Some(m) => {
                        println!("FAILS {}", m);
                        std::process::exit(1)
                    }
                    None => println!("PASSES"),
                }
            }
            "explore" => {
                let prop = arg("--prop");
                let only = arg("--harness");
                let seed: u64 = arg("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
                let mult: f64 = arg("--mult").map(|s| s.parse().unwrap()).unwrap_or(1.0);
                let budget = Duration::from_secs(arg("--budget").map(|s| s.parse().unwrap()).unwrap_or(60));
                let hs: Vec<&'static Harness> = vh::all()
                    .filter(|h| prop.as_deref().map(|p| p == h.prop).unwrap_or(true))
                    .filter(|h| only.as_deref().map(|p| p == h.name).unwrap_or(true))
                    .collect();
                let next = Arc::new(AtomicUsize::new(0));
                let out = Arc::new(Mutex::new(()));
                let bad = Arc::new(AtomicUsize::new(0));
                let mut ts = vec![];
                for _ in 0..8 {
                    let (next, out, hs, bad) = (next.clone(), out.clone(), hs.clone(), bad.clone());
                    ts.push(
                        std::thread::Builder::new()
                            .stack_size(256 << 20)
                            .spawn(move || loop {
                                let i = next.fetch_add(1, Ordering::SeqCst);
                                if i >= hs.len() {
                                    return;
                                }
                                let h = hs[i];
                                let s = explore(h, seed, mult, budget);
                                let _l = out.lock().unwrap();
                                let fail = match &s.fail {
                                    None => "null".to_string(),
                                    Some((d, m)) => {
                                        bad.fetch_add(1, Ordering::SeqCst);
                                        format!("{{\"draws\":{},\"message\":{}}}", nums(d), js(m))
                                    }
                                };
                                println!(
                                    "{{\"prop\":{},\"name\":{},\"evals\":{},\"distinct\":{},\"exhausted\":{},\"wall\":{:.3},\"sample\":{},\"fail\":{}}}",
                                    js(h.prop), js(h.name), s.evals, s.distinct, s.exhausted, s.wall, nums(&s.sample), fail
                                );
                            })
                            .unwrap(),
                    );
                }
                for t in ts {
                    t.join().unwrap();
                }
                if bad.load(Ordering::SeqCst) > 0 {
                    std::process::exit(1);
                }
            }
            _ => {
                eprintln!("usage: replay list | run --harness N --draws a,b,c | explore [--prop P] [--harness N] [--seed S] [--mult M] [--budget S]");
                std::process::exit(2);
            }
        }
    }
}
