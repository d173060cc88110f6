//! proptest-driven search: generates tapes, runs a case function on each, shrinks the first
//! failure, writes a replay file and the evidence. Runs in a child process so that an abort
//! (signal, sanitizer report) or a hang of the code under test becomes a violation as well.
use crate::dec;
use crate::tape::fnv;
use proptest::collection::vec as pvec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What a case records about itself.
#[derive(Default)]
pub struct Rec {
    pub classes: Vec<String>,
    pub nontrivial: bool,
    /// identity of the case for counting distinct ones
    pub key: u64,
    pub desc: String,
    pub stream: Vec<u8>,
    pub known: Vec<String>,
    /// numeric observations: name -> value, aggregated as min/max/sum/count
    pub nums: Vec<(&'static str, f64)>,
    pub verbose: bool,
}
impl Rec {
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
    pub fn input(&mut self, bytes: &[u8]) {
        self.stream = bytes.to_vec();
        self.key = fnv(bytes);
    }
    pub fn num(&mut self, n: &'static str, v: f64) {
        self.nums.push((n, v));
    }
}

pub type CaseFn = fn(&[u32], &mut Rec) -> Result<(), String>;

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    /// cases in the quick tier; thorough multiplies
    pub quick: usize,
    pub tape: usize,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    /// run after all cases (global invariants)
    pub after: Option<fn() -> Result<(), String>>,
    /// fixed inputs reproducing the listed known findings: (finding id, still fails?)
    pub known: fn() -> Vec<(&'static str, bool)>,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
struct Agg {
    evals: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    nums: BTreeMap<&'static str, (f64, f64, f64, u64)>,
    nontrivial: u64,
}

pub fn verif() -> PathBuf {
    std::env::var_os("JD_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn journal_path(dir: &str, slot: usize) -> String {
    format!("{}/slot{}", dir, slot)
}

/// One in-flight case per worker thread.
struct Slot {
    tape: Mutex<(u64, String, Vec<u32>)>, // serial, sub, tape
    start_cpu: AtomicU64,
    tid: AtomicU64,
    busy: AtomicBool,
}

fn thread_cpu(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
fn proc_cpu() -> u64 {
    // CPU time consumed by the whole process (all threads), in clock ticks
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 2..].split(' ').collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
        + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
fn gettid() -> u64 {
    let l = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    l.file_name().and_then(|x| x.to_str()).and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub struct Found {
    pub sub: &'static str,
    pub tape: Vec<u32>,
    pub msg: String,
}

fn seed_of(seed: u64, id: &str, sub: &str, chunk: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let h = fnv(format!("{}/{}/{}/{}/{}", seed, id, sub, chunk, i).as_bytes());
        let h = (h ^ (h >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        out[i as usize * 8..i as usize * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub fn threads() -> usize {
    std::env::var("JD_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8)
}

pub fn write_replay(id: &str, sub: &str, tape: &[u32], msg: &str, stream: &[u8], seed: u64) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let base = format!("{}-{}-{:08x}", id, sub, fnv(&tape.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()) as u32);
    let p = dir.join(format!("{}.json", base));
    if !stream.is_empty() {
        let _ = std::fs::write(dir.join(format!("{}.jpg", base)), stream);
    }
    let v = json!({
        "property": id, "sub": sub, "seed": seed, "message": msg, "tape": tape,
        "stream": if stream.is_empty() { Value::Null } else { json!(format!("{}.jpg", base)) },
        "stream_len": stream.len(),
        "reproduce": format!("./check.sh {} --replay {}", id, p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn violation(id: &str, sub: &str, tape: &[u32], msg: &str, stream: &[u8], seed: u64) {
    let p = write_replay(id, sub, tape, msg, stream, seed);
    println!("{}/{}: {}", id, sub, msg);
    println!("VIOLATION property={} replay={}", id, p.display());
    let _ = std::io::stdout().flush();
}

/// Child process: do the search. Exit codes: 0 held, 1 violation printed, others = harness trouble.
pub fn child(check: &Check, seed: u64, tier: &str, dir: &str) -> i32 {
    let t0 = Instant::now();
    extern "C" {
        fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
    // do not outlive the parent: PR_SET_PDEATHSIG, SIGKILL
    unsafe { prctl(1, 9, 0, 0, 0) };
    dec::install_hook();
    let thorough = tier == "thorough";
    let mult: f64 = std::env::var("JD_MULT").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 25.0 } else { 1.0 });
    let budget = if thorough { 3600.0 } else { 420.0 };
    let only = std::env::var("JD_SUB").ok();

    // listed findings: confirm they still reproduce
    let listed = known_list(check.id);
    let reproduced = (check.known)();
    for (k, what) in &listed {
        match reproduced.iter().find(|x| x.0 == k) {
            Some((_, true)) => println!("KNOWN-FINDING: property={} {} {}", check.id, k, what),
            Some((_, false)) => println!("note: known finding {} no longer reproduces", k),
            None => println!("KNOWN-FINDING: property={} {} {} (not re-run)", check.id, k, what),
        }
    }
    let listed_ids: Arc<HashSet<String>> = Arc::new(listed.iter().map(|x| x.0.clone()).collect());

    // C28 counts the allocations of the whole process
    let nthreads = if check.id == "C28" { 1 } else { threads() };
    let slots: Vec<Arc<Slot>> = (0..nthreads)
        .map(|_| {
            Arc::new(Slot {
                tape: Mutex::new((0, String::new(), vec![])),
                start_cpu: AtomicU64::new(0),
                tid: AtomicU64::new(0),
                busy: AtomicBool::new(false),
            })
        })
        .collect();
    // watchdog
    {
        let slots = slots.clone();
        let id = check.id;
        let own = dir.to_string();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, u32)> = vec![(0, 0); slots.len()];
            let mut lastcpu = proc_cpu();
            let mut idle = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let cpu = proc_cpu();
                if cpu.saturating_sub(lastcpu) <= 1 { idle += 1 } else { idle = 0 }
                lastcpu = cpu;
                for (i, s) in slots.iter().enumerate() {
                    if !s.busy.load(SeqCst) {
                        last[i] = (0, 0);
                        continue;
                    }
                    let g = s.tape.lock().unwrap();
                    if g.0 != last[i].0 {
                        last[i] = (g.0, 0);
                        continue;
                    }
                    last[i].1 += 1;
                    let used = thread_cpu(s.tid.load(SeqCst)).unwrap_or(0).saturating_sub(s.start_cpu.load(SeqCst));
                    let spin = used > 9000; // 90 s of CPU time in one case
                    let dead = idle >= 60 && last[i].1 >= 60;
                    if spin || dead {
                        let m = if spin { "call does not return (90 s of CPU time in one case)" } else { "call does not return (all threads idle: deadlock)" };
                        let _ = std::fs::write(format!("{}/hang", own), format!("{}\n", m));
                        violation(id, &g.1, &g.2, m, &[], seed);
                        std::process::exit(1);
                    }
                }
            }
        });
    }

    let agg = Arc::new(Mutex::new(Agg::default()));
    let mut found: Option<Found> = None;
    let mut per_sub = BTreeMap::new();
    for sub in &check.subs {
        if only.as_deref().map_or(false, |o| o != sub.name) {
            continue;
        }
        let total = ((sub.quick as f64 * mult) as usize).max(1);
        let chunk_size = 250usize.min((total + nthreads - 1) / nthreads).max(1);
        let nchunks = (total + chunk_size - 1) / chunk_size;
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let fails: Arc<Mutex<Vec<(usize, Found)>>> = Arc::new(Mutex::new(vec![]));
        let st0 = Instant::now();
        std::thread::scope(|sc| {
            for th in 0..nthreads {
                let (next, stop, fails, agg, slot, listed_ids) =
                    (next.clone(), stop.clone(), fails.clone(), agg.clone(), slots[th].clone(), listed_ids.clone());
                let sub = *sub;
                let id = check.id;
                let dir = dir.to_string();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        slot.tid.store(gettid(), SeqCst);
                        let journal = std::fs::File::create(journal_path(&dir, th)).ok();
                        loop {
                            let c = next.fetch_add(1, SeqCst) as usize;
                            if c >= nchunks || stop.load(SeqCst) || t0.elapsed().as_secs_f64() > budget {
                                break;
                            }
                            if let Some(f) = run_chunk(id, seed, &sub, c, chunk_size, &slot, &journal, &agg, &listed_ids) {
                                fails.lock().unwrap().push((c, f));
                                stop.store(true, SeqCst);
                                break;
                            }
                        }
                        slot.busy.store(false, SeqCst);
                    })
                    .unwrap();
            }
        });
        per_sub.insert(sub.name, (total, st0.elapsed().as_secs_f64()));
        let mut f = std::mem::take(&mut *fails.lock().unwrap());
        f.sort_by_key(|x| x.0);
        if let Some((_, f)) = f.into_iter().next() {
            found = Some(f);
            break;
        }
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some(f) = &found {
        let sub = check.subs.iter().find(|s| s.name == f.sub).unwrap();
        let mut rec = Rec::default();
        let _ = dec::guard(|| (sub.f)(&f.tape, &mut rec));
        violation(check.id, f.sub, &f.tape, &f.msg, &rec.stream, seed);
        code = 1;
        nviol = 1;
    } else if let Some(a) = check.after {
        if let Err(m) = a() {
            violation(check.id, "after", &[], &m, &[], seed);
            code = 1;
            nviol = 1;
        }
    }
    let a = agg.lock().unwrap();
    for (k, n) in &a.known {
        println!("note: {} generated cases hit the listed finding {}", n, k);
    }
    let nums: BTreeMap<_, _> = a
        .nums
        .iter()
        .map(|(k, v)| (k.to_string(), json!({"min": v.0, "max": v.1, "mean": v.2 / v.3 as f64, "n": v.3})))
        .collect();
    let ev = json!({
        "property": check.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.distinct.len(),
            "nontrivial": a.nontrivial,
            "rule": check.rule,
            "samples": a.samples,
            "classes": a.classes,
            "observed": nums,
            "known_finding_hits": a.known,
            "subchecks": per_sub.iter().map(|(k, v)| json!({"name": k, "planned": v.0, "wall_s": v.1})).collect::<Vec<_>>(),
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let ep = verif().join("evidence");
    let _ = std::fs::create_dir_all(&ep);
    if let Err(e) = std::fs::write(ep.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
        check.id, if code == 0 { "held" } else { "VIOLATED" }, a.evals, a.distinct.len(), t0.elapsed().as_secs_f64()
    );
    if std::env::var_os("JD_SHOW").is_some() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap());
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["observed"]).unwrap());
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["subchecks"]).unwrap());
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn run_chunk(
    id: &'static str,
    seed: u64,
    sub: &Sub,
    chunk: usize,
    cases: usize,
    slot: &Slot,
    journal: &Option<std::fs::File>,
    agg: &Mutex<Agg>,
    listed: &HashSet<String>,
) -> Option<Found> {
    let cfg = Config {
        cases: cases as u32,
        failure_persistence: None,
        max_shrink_iters: 400,
        max_shrink_time: 8_000,
        verbose: 0,
        source_file: None,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_of(seed, id, sub.name, chunk));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let local = Mutex::new(Agg::default());
    let failed = AtomicBool::new(false);
    let half = sub.tape / 2;
    let announce = |tape: &Vec<u32>| {
        {
            let mut g = slot.tape.lock().unwrap();
            g.0 += 1;
            g.1 = sub.name.to_string();
            g.2 = tape.clone();
        }
        slot.start_cpu.store(thread_cpu(slot.tid.load(SeqCst)).unwrap_or(0), SeqCst);
        slot.busy.store(true, SeqCst);
        if let Some(j) = journal {
            use std::os::unix::fs::FileExt;
            let mut b = Vec::with_capacity(tape.len() * 4 + 40);
            b.extend_from_slice(&(tape.len() as u32).to_le_bytes());
            let mut nm = [0u8; 28];
            nm[..sub.name.len()].copy_from_slice(sub.name.as_bytes());
            b.extend_from_slice(&nm);
            for x in tape {
                b.extend_from_slice(&x.to_le_bytes());
            }
            let _ = j.write_at(&b, 0);
        }
    };
    let r = runner.run(&pvec(any::<u32>(), half..=sub.tape), |tape| {
        announce(&tape);
        let mut rec = Rec::default();
        crate::tape::OVER.with(|o| o.set(0));
        let r = match dec::guard(|| (sub.f)(&tape, &mut rec)) {
            Ok(r) => r,
            Err(m) => {
                // not inside a wrapped decoder call: results so wrong that the check itself trips
                Err(format!("check panicked on the outcome: {}", m))
            }
        };
        slot.busy.store(false, SeqCst);
        for k in &rec.known {
            if !listed.contains(k) {
                failed.store(true, SeqCst);
                return Err(TestCaseError::fail(format!("[{}] {}", k, rec.desc)));
            }
        }
        if !failed.load(SeqCst) {
            let mut a = local.lock().unwrap();
            a.evals += 1;
            for c in rec.classes {
                *a.classes.entry(c).or_insert(0) += 1;
            }
            if crate::tape::OVER.with(|o| o.get()) > 0 {
                *a.classes.entry(format!("({}: choices beyond the tape)", sub.name)).or_insert(0) += 1;
            }
            for k in rec.known {
                *a.known.entry(k).or_insert(0) += 1;
            }
            for (n, v) in rec.nums {
                let e = a.nums.entry(n).or_insert((f64::MAX, f64::MIN, 0.0, 0));
                e.0 = e.0.min(v);
                e.1 = e.1.max(v);
                e.2 += v;
                e.3 += 1;
            }
            if rec.nontrivial {
                a.nontrivial += 1;
                a.distinct.insert(rec.key);
                if a.samples.len() < 2 && !rec.desc.is_empty() {
                    a.samples.push(json!({"sub": sub.name, "case": rec.desc, "chunk": chunk}));
                }
            }
        }
        r.map_err(|m| {
            failed.store(true, SeqCst);
            TestCaseError::fail(m)
        })
    });
    slot.busy.store(false, SeqCst);
    let l = local.into_inner().unwrap();
    {
        let mut a = agg.lock().unwrap();
        a.evals += l.evals;
        a.nontrivial += l.nontrivial;
        a.distinct.extend(l.distinct);
        for (k, v) in l.classes {
            *a.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.known {
            *a.known.entry(k).or_insert(0) += v;
        }
        for (n, v) in l.nums {
            let e = a.nums.entry(n).or_insert((f64::MAX, f64::MIN, 0.0, 0));
            e.0 = e.0.min(v.0);
            e.1 = e.1.max(v.1);
            e.2 += v.2;
            e.3 += v.3;
        }
        if chunk < 3 {
            a.samples.extend(l.samples);
        }
    }
    match r {
        Ok(()) => None,
        Err(TestError::Fail(m, tape)) => {
            let mut msg = m.to_string();
            let mut probe = |tape: &Vec<u32>| -> bool {
                announce(tape);
                let mut rec = Rec::default();
                let r = match dec::guard(|| (sub.f)(tape, &mut rec)) {
                    Ok(r) => r,
                    Err(m) => Err(format!("check panicked on the outcome: {}", m)),
                };
                slot.busy.store(false, SeqCst);
                let unlisted = rec.known.iter().find(|k| !listed.contains(*k)).map(|k| format!("[{}] {}", k, rec.desc));
                match unlisted.or(r.err()) {
                    Some(m) => {
                        msg = m;
                        true
                    }
                    None => false,
                }
            };
            let tape = minimise(tape, &mut probe);
            Some(Found { sub: sub.name, tape, msg })
        }
        Err(TestError::Abort(m)) => {
            eprintln!("proptest aborted: {}", m);
            std::process::exit(2);
        }
    }
}

/// Shrinks further what proptest has left over: shorter tapes, runs of zeros, smaller values.
fn minimise(mut tape: Vec<u32>, fails: &mut dyn FnMut(&Vec<u32>) -> bool) -> Vec<u32> {
    let t0 = Instant::now();
    let late = || t0.elapsed().as_secs_f64() > 20.0;
    let mut attempt = |tape: &mut Vec<u32>, cand: Vec<u32>| -> bool {
        if cand != *tape && !late() && fails(&cand) {
            *tape = cand;
            return true;
        }
        false
    };
    loop {
        let before = tape.clone();
        // the end
        let mut cut = tape.len() / 2;
        while cut > 0 && !late() {
            let n = tape.len();
            let c = tape[..n.saturating_sub(cut)].to_vec();
            if n <= cut || !attempt(&mut tape, c) {
                cut /= 2;
            }
        }
        // runs of choices: remove or set to the simplest
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < tape.len() && !late() {
                let j = (i + size).min(tape.len());
                let mut shorter = tape.clone();
                shorter.drain(i..j);
                let mut zero = tape.clone();
                zero[i..j].fill(0);
                if attempt(&mut tape, shorter) {
                    continue;
                }
                attempt(&mut tape, zero);
                i = j;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // single values
        for i in 0..tape.len() {
            let mut step = tape[i] / 2;
            while step > 0 && !late() {
                let mut c = tape.clone();
                c[i] -= step.min(c[i]);
                if !attempt(&mut tape, c) {
                    step /= 2;
                }
            }
        }
        if late() || tape == before {
            return tape;
        }
    }
}

/// (finding id, description) of the entries of known_findings.json for this property
pub fn known_list(id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(verif().join("known_findings.json")) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&s) else { return vec![] };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["properties"].as_array().map_or(false, |p| p.iter().any(|x| x == id)))
                .map(|e| (e["id"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

/// Parent: run the child, turn an abnormal death into a violation.
pub fn parent(check: &Check, seed: u64, tier: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("jdcheck-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d = dir.to_str().unwrap().to_string();
    let st = std::process::Command::new(&exe)
        .args(["child", check.id, tier, &seed.to_string(), &d])
        .status();
    let code = match st {
        Ok(s) if s.code() == Some(0) || s.code() == Some(1) || s.code() == Some(2) => s.code().unwrap(),
        Ok(s) => {
            use std::os::unix::process::ExitStatusExt;
            println!("{}: child ended abnormally: {:?} (signal {:?})", check.id, s.code(), s.signal());
            if s.signal() == Some(9) {
                3 // killed from outside (memory?): no verdict
            } else {
                post_mortem(check, seed, &d)
            }
        }
        Err(e) => {
            eprintln!("cannot start child: {}", e);
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn one(check: &Check, sub: &str, tape: &[u32], dir: &str) -> Option<String> {
    // Some(what) if the single case dies abnormally or fails
    let p = format!("{}/one.json", dir);
    std::fs::write(&p, serde_json::to_string(&json!({"property": check.id, "sub": sub, "tape": tape})).unwrap()).ok()?;
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["one", &p]).output().ok()?;
    match o.status.code() {
        Some(0) => None,
        Some(1) => Some(String::from_utf8_lossy(&o.stdout).trim().to_string()),
        _ => {
            let e = String::from_utf8_lossy(&o.stderr);
            let l = e.lines().find(|l| l.contains("ERROR") || l.contains("SUMMARY") || l.contains("panicked")).unwrap_or("");
            Some(format!("process died: {:?} {}", o.status, l))
        }
    }
}

fn post_mortem(check: &Check, seed: u64, dir: &str) -> i32 {
    for th in 0..threads() {
        let Ok(b) = std::fs::read(journal_path(dir, th)) else { continue };
        if b.len() < 32 {
            continue;
        }
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        let name = String::from_utf8_lossy(&b[4..32]).trim_end_matches('\0').to_string();
        let mut tape: Vec<u32> =
            b[32..].chunks_exact(4).take(n).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        if let Some(mut msg) = one(check, &name, &tape, dir) {
            // crude shrinking: shorter tapes, zeroed stretches
            let mut tries = 0;
            let mut w = tape.len() / 2;
            while w > 0 && tries < 150 {
                let mut i = 0;
                while i < tape.len() && tries < 150 {
                    let e = (i + w).min(tape.len());
                    if tape[i..e].iter().any(|&x| x != 0) {
                        let mut t2 = tape.clone();
                        if e == tape.len() {
                            t2.truncate(i);
                        } else {
                            t2[i..e].iter_mut().for_each(|x| *x = 0);
                        }
                        tries += 1;
                        if let Some(m) = one(check, &name, &t2, dir) {
                            tape = t2;
                            msg = m;
                        }
                    }
                    i += w;
                }
                w /= 2;
            }
            violation(check.id, &name, &tape, &msg, &[], seed);
            return 1;
        }
    }
    println!("{}: the abnormal end could not be reproduced from the journal", check.id);
    2
}

/// Re-run one tape from a replay file: 0 passes, 1 fails.
pub fn replay(checks: &[Check], path: &str) -> i32 {
    dec::install_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let sub = v["sub"].as_str().unwrap();
    let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let c = checks.iter().find(|c| c.id == id).expect("no such check");
    if sub == "after" {
        return match c.after.map(|a| a()) {
            Some(Err(m)) => {
                println!("fails: {}", m);
                1
            }
            _ => 0,
        };
    }
    let s = c.subs.iter().find(|s| s.name == sub).expect("no such subcheck");
    let mut rec = Rec { verbose: true, ..Default::default() };
    let r = (s.f)(&tape, &mut rec);
    println!("case: {}", rec.desc);
    if let Ok(p) = std::env::var("JD_DUMP") {
        std::fs::write(p, &rec.stream).unwrap();
    }
    match r {
        Ok(()) => {
            println!("passes");
            0
        }
        Err(m) => {
            println!("fails: {}", m);
            1
        }
    }
}
