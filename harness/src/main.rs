//! Concrete executions of the real crate: finds and replays failing inputs.
//!   harness search <prop> <seed> <ms>      worker: random cases; prints FAIL + the shrunk case, or DONE with counts
//!   harness replay <prop> <file>           runs one case: exit 1 and a message when it violates prop
//!   harness known <name>                   runs a listed finding: exit 1 when it (still) fails
mod certs;
mod groups;
mod maps;
mod paged;
mod seqs;
mod typed;
mod util;
mod known;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static A: Poison = Poison;

pub type Case = Vec<String>;

/// the first violation of `prop` in this case
pub fn run_case(prop: &str, case: &Case) -> Result<(), String> {
    let kind = case[0].split(' ').next().unwrap().to_string();
    let f = || match kind.as_str() {
        "map" | "tree" => maps::run(prop, case),
        "typed" => typed::run(prop, case),
        "paged" => paged::run(prop, case),
        "seq" => seqs::run(prop, case),
        "deep" => seqs::deep(prop, case),
        "group" => groups::run(prop, case),
        "value" | "label" | "digest" | "cbor" | "read" | "prefix" => certs::run(prop, case),
        k => panic!("unknown kind of case {}", k),
    };
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(&e))),
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

/// a panic of the real code inside f is a violation of the properties the operation serves
pub fn guard<T>(prop: &str, serves: &[&str], what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(Some(x)),
        Err(e) => {
            if serves.contains(&prop) {
                Err(format!("{} panics: {}", what, panic_text(&e)))
            } else {
                Ok(None)
            }
        }
    }
}

fn gen_scale(prop: &str, r: &mut Rng, huge: bool) -> Case {
    match prop {
        "C12" if !huge && r.chance(20) => seqs::gen_deep(r, true),
        "C12" => seqs::gen_scale(prop, r, huge),
        "C13" | "C14" => paged::gen_scale(prop, r, huge),
        "C15" | "C21" => groups::gen_scale(prop, r),
        "C19" if r.chance(40) => seqs::gen_scale(prop, r, huge),
        "C11" => paged::gen_scale(prop, r, false),
        _ => maps::gen_scale(prop, r, huge),
    }
}

/// now and then something large (1) or very large (2)
fn size(prop: &str, i: u64) -> u8 {
    let often = if lits().nums.is_empty() { 24 } else { 6 };
    let certs_only = matches!(prop, "C09" | "C10" | "C20" | "C22");
    if !certs_only && (i == 15 || i == 33) {
        return 2;
    }
    (!certs_only && i % often == 5 && !(prop == "C11" && i % 96 != 5)) as u8
}

fn gen(prop: &str, r: &mut Rng, i: u64, size: u8) -> Case {
    if size > 0 {
        return gen_scale(prop, r, size == 2);
    }
    if typed::PROPS.contains(&prop) && i % 9 == 8 {
        return typed::gen(prop, r);
    }
    if matches!(prop, "C12" | "C18" | "C04") && i % 8 == 6 || matches!(prop, "C01" | "C02") && i % 16 == 6 {
        return seqs::gen_deep(r, false);
    }
    match prop {
        "C09" | "C10" | "C11" | "C20" | "C22" => {
            if prop == "C11" && i % 8 == 7 {
                return paged::gen(prop, r, i);
            }
            certs::gen(prop, r, i)
        }
        "C12" => seqs::gen(prop, r, i),
        "C13" | "C14" => paged::gen(prop, r, i),
        "C15" | "C21" => groups::gen(prop, r, i),
        "C19" => {
            if i % 9 == 1 {
                paged::gen(prop, r, i)
            } else if i % 3 == 2 {
                seqs::gen(prop, r, i)
            } else {
                maps::gen(prop, r, i)
            }
        }
        "C18" => {
            if i % 6 == 5 {
                paged::gen(prop, r, i)
            } else {
                maps::gen(prop, r, i)
            }
        }
        _ => maps::gen(prop, r, i),
    }
}

fn fails(prop: &str, case: &Case, file: Option<&str>) -> Option<String> {
    if let Some(f) = file {
        let _ = std::fs::write(f, case.join("\n"));
    }
    run_case(prop, case).err()
}

fn shrink(prop: &str, mut case: Case, mut why: String, file: Option<&str>, end: Instant) -> (Case, String) {
    let mut step = (case.len() / 2).max(1);
    loop {
        let mut i = 1;
        let mut any = false;
        while i < case.len() && Instant::now() < end {
            let j = (i + step).min(case.len());
            let mut c = case.clone();
            c.drain(i..j);
            if let Some(w) = fails(prop, &c, file) {
                case = c;
                why = w;
                any = true;
            } else {
                i = j;
            }
        }
        if step == 1 && !any {
            for i in 1..case.len() {
                let w: Vec<String> = case[i].split(' ').map(|x| x.to_string()).collect();
                let mut n: u64 = match w.get(1).map(|x| x.parse()) {
                    Some(Ok(n)) if w[0].starts_with("many") => n,
                    _ => continue,
                };
                let mut d = n / 2;
                while d > 0 && Instant::now() < end {
                    let mut c = case.clone();
                    let mut w = w.clone();
                    w[1] = (n - d).to_string();
                    c[i] = w.join(" ");
                    match fails(prop, &c, file) {
                        Some(x) => {
                            n -= d;
                            case = c;
                            why = x;
                            d = d.min(n / 2);
                        }
                        None => d /= 2,
                    }
                }
            }
        }
        if Instant::now() >= end || (step == 1 && !any) {
            return (case, why);
        }
        step = if any { step } else { (step / 2).max(1) };
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::env::var("CASE_FILE").ok();
    match a[1].as_str() {
        "search" => {
            let (prop, seed, ms) = (a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
            let end = Instant::now() + Duration::from_millis(ms);
            let (mut n, mut i, mut sizes) = (0u64, 0u64, std::collections::BTreeMap::<usize, u64>::new());
            let (start, mut large, mut owed) = (Instant::now(), Duration::ZERO, 0u32);
            let mut distinct = std::collections::HashSet::new();
            let mut sample: Option<Case> = None;
            while Instant::now() < end || n < 20 {
                let mut r = Rng(seed.wrapping_mul(0x1000003).wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15)));
                r.next();
                // the large ones take at most half of the time; a very large one that is due then comes later
                let mut sz = size(prop, i);
                let room = large * 2 <= start.elapsed();
                if room && owed > 0 {
                    sz = 2;
                    owed -= 1;
                } else if !room && sz > 0 {
                    owed += (sz == 2) as u32;
                    i += 1;
                    continue;
                }
                let case = gen(prop, &mut r, i, sz);
                i += 1;
                n += 1;
                let t = Instant::now();
                if distinct.len() < 2_000_000 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    case.hash(&mut h);
                    if case.len() > 2 {
                        distinct.insert(h.finish());
                    }
                }
                *sizes.entry(case.len().next_power_of_two()).or_insert(0) += 1;
                if n == 17 {
                    sample = Some(case.iter().take(14).cloned().collect());
                }
                if let Some(w) = fails(prop, &case, file.as_deref()) {
                    let (c, w) = shrink(prop, case, w, file.as_deref(), Instant::now() + Duration::from_secs(10));
                    println!("FAIL {}", w.replace('\n', " "));
                    println!("{}", c.join("\n"));
                    std::process::exit(1);
                }
                if sz > 0 {
                    large += t.elapsed();
                }
            }
            println!("DONE {} {}", n, distinct.len());
            for l in sample.unwrap_or_default() {
                println!("{}", l);
            }
        }
        "replay" => {
            let case: Case = std::fs::read_to_string(&a[3]).unwrap().lines().filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| l.to_string()).collect();
            match run_case(&a[2], &case) {
                Ok(()) => println!("OK"),
                Err(w) => {
                    println!("FAIL {}", w.replace('\n', " "));
                    std::process::exit(1)
                }
            }
        }
        "known" => match known::run(&a[2]) {
            Ok(()) => println!("OK"),
            Err(w) => {
                println!("FAIL {}", w);
                std::process::exit(1)
            }
        },
        _ => panic!("usage"),
    }
}
