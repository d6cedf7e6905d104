//! Run-time monitor of the contracts: bounded stand-in for what is not proved, and search for a
//! concrete failing input when a proof obligation fails.
//!   monitor check ID SEED CASES SECONDS   -> one JSON line
//!   monitor replay ID CASE_SEED           -> exit 1 if the case violates the property
mod checks;
mod refcma;
mod restarts;
mod scen;
mod util;

use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn open(p: *const std::os::raw::c_char, flags: i32, ...) -> i32;
}
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
/// the library prints to stdout: it goes to /dev/null, our own output to the saved descriptor
fn silence() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let saved = dup(1);
        let nul = open(b"/dev/null\0".as_ptr() as *const _, 1);
        dup2(nul, 1);
        close(nul);
        std::fs::File::from_raw_fd(saved)
    }
}

fn table(id: &str) -> Option<fn(&mut Rng, &mut Stats) -> Res> {
    Some(match id {
        "C01" => checks::c01,
        "C02" => checks::c02,
        "C03" => checks::c03,
        "C04" => checks::c04,
        "C05" => checks::c05,
        "C06" => checks::c06,
        "C07" => checks::c07,
        "C08" => checks::c08,
        "C09" => checks::c09,
        "C10" => checks::c10,
        "C11" => checks::c11,
        "C12" => checks::c12,
        "C13" => checks::c13,
        "C14" => restarts::c14,
        "C15" => restarts::c15,
        "C16" => restarts::c16,
        "C17" => restarts::c17,
        "C18" => checks::c18,
        "C19" => checks::c19,
        "C20" => checks::c20,
        "C21" => checks::c21,
        "C22" => checks::c22,
        _ => return None,
    })
}

fn run_case(id: &str, case: u64) -> (Res, Stats) {
    let f = table(id).expect("unknown property");
    let st = Arc::new(Mutex::new(Stats::default()));
    let st2 = st.clone();
    let res = panic::catch_unwind(panic::AssertUnwindSafe(move || {
        let mut s = Stats::default();
        let r = f(&mut Rng::new(case), &mut s);
        *st2.lock().unwrap() = s;
        r
    }));
    let s = std::mem::take(&mut *st.lock().unwrap());
    match res {
        Ok(r) => (r, s),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            (Err(format!("panic at {}: {}", LAST_PANIC.lock().unwrap(), m)), s)
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    }));
    use std::io::Write;
    let mut stdout = silence();
    match a[1].as_str() {
        "replay" => {
            let (r, s) = run_case(&a[2], a[3].parse().unwrap());
            let _ = writeln!(stdout, "case: {}", s.desc);
            match r {
                Ok(()) => {
                    let _ = writeln!(stdout, "holds");
                },
                Err(e) => {
                    let _ = writeln!(stdout, "violates {}: {}", a[2], e);
                    std::process::exit(1);
                }
            }
        }
        "check" => {
            let id = a[2].clone();
            let seed: u64 = a[3].parse().unwrap();
            let cases: u64 = a[4].parse().unwrap();
            let secs: f64 = a[5].parse().unwrap();
            let start = Instant::now();
            let next = Arc::new(AtomicU64::new(0));
            let out = Arc::new(Mutex::new((0u64, 0u64, Vec::<String>::new(), None::<(u64, u64, String, String)>, std::collections::BTreeMap::<String, u64>::new())));
            // several workers; a case that does not return is reported too
            let workers = if id == "C06" { 4 } else { 6 };
            let busy: Arc<Vec<Mutex<Option<(u64, u64, Instant)>>>> = Arc::new((0..workers).map(|_| Mutex::new(None)).collect());
            let mut hs = vec![];
            for w in 0..workers {
                let (id, next, out, busy) = (id.clone(), next.clone(), out.clone(), busy.clone());
                hs.push(std::thread::spawn(move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= cases || start.elapsed().as_secs_f64() > secs || out.lock().unwrap().3.is_some() {
                        break;
                    }
                    let case = Rng::new(seed.wrapping_mul(0x1000003).wrapping_add(k)).u64() >> 12;
                    *busy[w].lock().unwrap() = Some((k, case, Instant::now()));
                    let (r, s) = run_case(&id, case);
                    *busy[w].lock().unwrap() = None;
                    let mut o = out.lock().unwrap();
                    o.0 += 1;
                    if s.nontrivial > 0 {
                        o.1 += 1;
                    }
                    *o.4.entry("contract evaluations".into()).or_insert(0) += s.nontrivial;
                    for (k, v) in &s.counters {
                        *o.4.entry(k.to_string()).or_insert(0) += v;
                    }
                    if o.2.len() < 3 && s.nontrivial > 0 {
                        o.2.push(s.desc.clone());
                    }
                    if let Err(e) = r {
                        if o.3.as_ref().map_or(true, |x| k < x.0) {
                            o.3 = Some((k, case, s.desc.clone(), e));
                        }
                    }
                }));
            }
            loop {
                if hs.iter().all(|h| h.is_finished()) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
                for b in busy.iter() {
                    if let Some((k, case, t)) = *b.lock().unwrap() {
                        if t.elapsed().as_secs_f64() > 150.0 {
                            let mut o = out.lock().unwrap();
                            if o.3.is_none() {
                                o.3 = Some((k, case, "(see replay)".into(), "the case did not return within 150 s".into()));
                            }
                        }
                    }
                }
                if out.lock().unwrap().3.as_ref().map_or(false, |x| x.3.contains("did not return")) {
                    break;
                }
            }
            let o = out.lock().unwrap();
            let samples: Vec<String> = o.2.iter().map(|s| esc(s)).collect();
            let counters: Vec<String> = o.4.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
            let v = match &o.3 {
                None => "null".to_string(),
                Some((_, case, desc, e)) => format!("{{\"case\": {}, \"scenario\": {}, \"what\": {}}}", case, esc(desc), esc(e)),
            };
            let _ = writeln!(stdout, "{{\"cases\": {}, \"nontrivial\": {}, \"counters\": {{{}}}, \"samples\": [{}], \"violation\": {}, \"wall_s\": {:.2}}}", o.0, o.1, counters.join(", "), samples.join(", "), v, start.elapsed().as_secs_f64());
            std::process::exit(0);
        }
        "finding" => {
            let shows = match a[2].as_str() {
                "NoEffectCoord" => checks::finding_no_effect_coord(),
                _ => None,
            };
            std::process::exit(if shows == Some(true) { 1 } else { 0 });
        }
        _ => std::process::exit(2),
    }
}
