//! Executable oracles over the public interface of the real code.
//! native <property> --seed S --ms T [--from A] [--cases N]    explore; prints one JSON line
//! native <property> --seed S --case K                         replay one case
mod common;
#[cfg(feature = "core")]
mod cs;
#[cfg(feature = "core")]
mod guest;
#[cfg(feature = "host")]
mod host;
mod mp;
#[cfg(feature = "host")]
mod store;
#[cfg(feature = "core")]
mod verify;
use common::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

static CURRENT: AtomicU64 = AtomicU64::new(0);
static STARTED_MS: AtomicU64 = AtomicU64::new(0);

#[cfg(feature = "core")]
fn core_props(p: &str) -> Option<fn(&mut Rng, u64) -> Case> {
    Some(match p {
        "C06" => cs::c06, "C07" => cs::c07, "C15" => cs::c15, "C21" => cs::c21,
        "C08" => verify::c08, "C09" => verify::c09, "C10" => verify::c10, "C11" => verify::c11, "C12" => verify::c12, "C13" => verify::c13, "C14" => verify::c14,
        "C16" => guest::c16, "C17" => guest::c17, "C18" => guest::c18, "C19" => guest::c19, "C20" => guest::c20, "C22" => guest::c22, "C23" => guest::c23, "C29" => guest::c29,
        #[cfg(feature = "host")]
        "C30" => store::c30,
        #[cfg(feature = "host")]
        "C24" | "C25" | "C26" | "C27" | "C28" => match p { "C24" => host::c24, "C25" => host::c25, "C26" => host::c26, "C27" => host::c27, _ => host::c28 },
        _ => return None,
    })
}
#[cfg(not(feature = "core"))]
fn core_props(_: &str) -> Option<fn(&mut Rng, u64) -> Case> { None }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    #[cfg(feature = "host")]
    if prop == "C30-save" { std::process::exit(store::save(&a[2], &a[3])) }
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].parse::<u64>().unwrap());
    let mp: Option<fn(&mut Rng, u64) -> Case> = match prop.as_str() {
        "C01" => Some(mp::c01), "C02" => Some(mp::c02), "C03" => Some(mp::c03), "C04" => Some(mp::c04), "C05" => Some(mp::c05),
        _ => None,
    };
    let Some(f) = mp.or_else(|| core_props(&prop)) else { eprintln!("unknown property"); std::process::exit(2) };
    let seed = opt("--seed").unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let fail = |case: u64, msg: &str| -> ! {
        println!("FAIL seed={seed} case={case} {}", msg.chars().take(6000).collect::<String>().replace('\n', " "));
        std::process::exit(1)
    };
    {
        let prop = prop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = STARTED_MS.load(Relaxed);
            if s != 0 && t0.elapsed().as_millis() as u64 > s + 30_000 {
                println!("FAIL seed={seed} case={} {prop}: no result after 30 s", CURRENT.load(Relaxed));
                std::process::exit(1);
            }
        });
    }
    let trace = a.iter().any(|x| x == "--trace");
    let one = |case: u64| -> Case {
        CURRENT.store(case, Relaxed);
        STARTED_MS.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
        if trace { eprintln!("case {case}"); }
        let mut rng = Rng::new(seed, &prop, case);
        match guard(|| f(&mut rng, case)) { Ok(r) => r, Err(e) => { eprintln!("oracle panicked in case {case}: {e}"); std::process::exit(3) } }
    };
    if let Some(c) = opt("--case") {
        match one(c) { Ok(t) => println!("OK case={c} {t}"), Err(m) => fail(c, &m) }
        return;
    }
    let ms = opt("--ms").unwrap_or(5000);
    let max = opt("--cases").unwrap_or(u64::MAX);
    let from = opt("--from").unwrap_or(0);
    let step = opt("--step").unwrap_or(1);
    let mut st = Stats::default();
    let mut case = from;
    let mut n = 0;
    while n < max && (t0.elapsed().as_millis() as u64) < ms {
        match one(case) {
            Ok(t) => { st.evaluations += 1; if t.is_empty() { *st.tags.entry("trivial".into()).or_default() += 1 } else { st.distinct.insert(case); *st.tags.entry(t).or_default() += 1 } }
            Err(m) => fail(case, &m),
        }
        case += step;
        n += 1;
    }
    let tags: Vec<String> = st.tags.iter().map(|(k, v)| format!("{:?}:{v}", k)).collect();
    println!("{{\"evaluations\":{},\"nontrivial\":{},\"first\":{from},\"step\":{step},\"next\":{case},\"tags\":{{{}}}}}", st.evaluations, st.distinct.len(), tags.join(","));
}
