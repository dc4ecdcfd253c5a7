//! Executing plans: one run, batches, minimisation, replay, evidence.
use crate::env::real_secs;
use crate::plan::Plan;
use crate::prng::{hash_str, mix, Rng};
use crate::stat::{self, Coll, Res, Violation};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;

/// Payload of every panic the simulator injects.
pub struct Injected(pub &'static str);

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    /// (quick, thorough) number of simulated runs
    fn runs(&self) -> (u64, u64);
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    /// probes that must not stay at zero in a batch
    fn probes(&self) -> &'static [&'static str];
    /// (components running real code, components that are stubs)
    fn real_stub(&self) -> (&'static str, &'static str);
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan;
    fn run(&self, p: &Plan) -> Res;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_text(info.payload());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if simseam::with(|_| ()).is_none() {
            eprintln!("dsim: {} at {}", msg, at);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(i) = p.downcast_ref::<Injected>() {
        format!("injected {}", i.0)
    } else if p.is::<simseam::BudgetExceeded>() {
        "step budget exceeded (no progress)".into()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

/// Run code under test. `Ok(None)`: an injected panic reached the caller.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<Option<R>, Violation> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(Some(r)),
        Err(e) => {
            if e.is::<Injected>() {
                Ok(None)
            } else {
                Err(classify_panic(e))
            }
        }
    }
}

pub fn classify_panic(e: Box<dyn Any + Send>) -> Violation {
    if e.is::<simseam::BudgetExceeded>() {
        Violation { tag: "no-progress".into(), detail: "the run used up its step budget without ending".into() }
    } else {
        Violation { tag: "panic".into(), detail: format!("unexpected panic: {}", last_panic()) }
    }
}

/// Run code under test that must not panic at all (injected panics included).
pub fn must<R>(f: impl FnOnce() -> R) -> Result<R, Violation> {
    match guard(f)? {
        Some(r) => Ok(r),
        None => Err(Violation { tag: "panic".into(), detail: "injected panic out of place".into() }),
    }
}

/// Whether the code panics (for inputs that must be refused).
pub fn refuses<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub struct RunOut {
    pub res: Res,
    pub coll: Coll,
}

/// Collect the current seam's counters and remove it.
pub fn close_seam() {
    if let Some(s) = simseam::uninstall() {
        stat::add("rng.draws", s.draws);
        for (k, n) in ["fault.rng_all_zero", "fault.rng_all_one", "fault.rng_stuck", "fault.rng_alternating"].iter().zip(s.window_hits.iter()) {
            if *n > 0 {
                stat::add(k, *n);
            }
        }
        if s.clock_reads > 0 {
            stat::add("clock.reads", s.clock_reads);
        }
        if s.entropy_reads > 0 {
            stat::add("rng.entropy_reads", s.entropy_reads);
        }
        stat::add("sim.time_ms", s.mono_ns.saturating_sub(1_000_000_000_000) / 1_000_000);
    }
}

pub fn run_plan(prop: &'static dyn Prop, plan: &Plan) -> RunOut {
    let plan = plan.clone();
    thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            stat::reset();
            simseam::install(simseam::Seam::new(plan.seed));
            let r = catch_unwind(AssertUnwindSafe(|| prop.run(&plan)));
            close_seam();
            let mut coll = stat::take();
            let res = match r {
                Ok(Ok(())) => match coll.fail.take() {
                    Some(v) => Err(v),
                    None => Ok(()),
                },
                Ok(Err(v)) => Err(coll.fail.take().unwrap_or(v)),
                Err(e) => Err(if e.is::<Injected>() {
                    Violation { tag: "panic".into(), detail: "injected panic out of place".into() }
                } else {
                    classify_panic(e)
                }),
            };
            RunOut { res, coll }
        })
        .expect("spawn")
        .join()
        .expect("simulated thread")
}

/// Now and then one dimension of a plan is far larger than usual (and the
/// others smaller): a run of more than a thousand iterations, hundreds of
/// agents, a hundred coordinates, dozens of runs and pauses.
fn enlarge(p: &mut Plan, r: &mut Rng) {
    let at: Vec<usize> = (0..p.ops.len()).filter(|i| p.ops[*i].k == "run" || p.ops[*i].k == "more").collect();
    if at.is_empty() || p.scenario == "stat" || p.scenario == "cover" || p.scenario == "spread" {
        return;
    }
    let cap = |p: &mut Plan, k: &str, m: i64| {
        if let Some(v) = p.p.get_mut(k) {
            *v = (*v).min(m);
        }
    };
    let shorten = |p: &mut Plan, m: i64| {
        for i in &at {
            if let Some(t) = p.ops[*i].a.first_mut() {
                *t = (*t).min(m);
            }
        }
    };
    let total = |p: &Plan| at.iter().map(|i| p.ops[*i].arg(0)).sum::<i64>().max(1) * p.get("pop", p.get("n", 1, 1, 10_000), 1, 10_000);
    let before = total(p);
    match r.below(4) {
        0 => {
            cap(p, "pop", 3);
            cap(p, "n", 3);
            cap(p, "dim", 2);
            cap(p, "limit", 4);
            cap(p, "births", 3);
            cap(p, "litter", 1);
            let i = *r.pick(&at);
            let t = if r.chance(1, 3) { r.range(250, 300) } else { r.range(150, 1200) };
            if !p.ops[i].a.is_empty() {
                p.ops[i].a[0] = t;
            }
            if let Some(c) = p.p.get_mut("cap") {
                *c = (*c).max(t);
            }
        }
        1 => {
            let n = if r.chance(1, 3) { r.range(250, 300) } else { r.range(100, 560) };
            for k in ["pop", "n"] {
                if let Some(v) = p.p.get_mut(k) {
                    *v = n;
                }
            }
            cap(p, "dim", 2);
            if r.chance(1, 2) {
                if let Some(v) = p.p.get_mut("limit") {
                    *v = n / 2;
                }
            }
            shorten(p, 3);
        }
        2 => {
            if let Some(v) = p.p.get_mut("dim") {
                *v = r.range(33, 130);
            }
            cap(p, "pop", 5);
            cap(p, "n", 5);
            shorten(p, 5);
        }
        _ => {
            shorten(p, 2);
            cap(p, "pop", 4);
            cap(p, "n", 4);
            let resume = at.len() > 1 && r.chance(1, 2);
            for _ in 0..r.range(10, 70) {
                let mut o = p.ops[*r.pick(&at)].clone();
                if resume && r.chance(3, 4) {
                    o.k = "more".into();
                }
                if let Some(t) = o.a.first_mut() {
                    *t = r.range(0, 2);
                }
                p.ops.push(o);
            }
        }
    }
    // faults move along
    let now = total(p);
    if now > before {
        for o in &mut p.ops {
            let i = match o.k.as_str() {
                "gf" | "ck" | "rw" => 1,
                "tp" => 0,
                _ => continue,
            };
            if r.chance(1, 2) && o.a.len() > i {
                o.a[i] = o.a[i].saturating_mul(r.range(1, now / before + 1));
            }
        }
    }
}

pub fn make_plan(prop: &dyn Prop, base: u64, index: u64, deep: bool) -> Plan {
    let seed = mix(mix(base ^ hash_str(prop.id())).wrapping_add(index));
    let mut r = Rng::new(seed);
    let mut p = prop.gen(&mut r, deep);
    if r.chance(1, 50) {
        enlarge(&mut p, &mut r);
    }
    p.property = prop.id().into();
    p.seed = r.u64();
    p
}

// ---------------------------------------------------------------- watchdog

const HANG_SECS: f64 = 90.0;

struct Watch {
    /// per job: real time (ms) the current run began, 0 = idle
    started: Vec<AtomicU64>,
    index: Vec<AtomicU64>,
    /// plan to blame while minimising
    blame: Mutex<Option<Plan>>,
}

pub fn replay_dir() -> PathBuf {
    let d = Path::new(env!("CARGO_MANIFEST_DIR")).join("../replays");
    fs::create_dir_all(&d).ok();
    fs::canonicalize(&d).unwrap_or(d)
}

fn write_replay(prop: &str, plan: &Plan, note: &str) -> PathBuf {
    let path = replay_dir().join(format!("{}-{}.plan", prop, plan.seed));
    let mut t = plan.text();
    for l in note.lines() {
        t.push_str(&format!("# {}\n", l));
    }
    fs::write(&path, t).expect("write replay file");
    path
}

pub fn report(prop: &str, path: &Path, v: &Violation) {
    println!("  {}: {}", v.tag, v.detail.lines().take(30).collect::<Vec<_>>().join("\n    "));
    println!("VIOLATION property={} replay={}", prop, path.display());
}

fn start_watchdog(w: Arc<Watch>, prop: &'static dyn Prop, base: u64, deep: bool) {
    thread::spawn(move || loop {
        thread::sleep(std::time::Duration::from_millis(500));
        let now = (real_secs() * 1000.0) as u64;
        for j in 0..w.started.len() {
            let s = w.started[j].load(Ordering::SeqCst);
            if s != 0 && now > s && (now - s) as f64 / 1000.0 > HANG_SECS {
                let plan = match w.blame.lock().unwrap().clone() {
                    Some(p) => p,
                    None => make_plan(prop, base, w.index[j].load(Ordering::SeqCst), deep),
                };
                let v = Violation { tag: "hang".into(), detail: format!("a simulated run made no progress for {} s of real time", HANG_SECS) };
                let path = write_replay(prop.id(), &plan, "hang: not minimised");
                report(prop.id(), &path, &v);
                std::process::exit(1);
            }
        }
    });
}

// ---------------------------------------------------------------- batch

pub struct Batch {
    pub done: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub hashes: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub found: Option<(u64, Violation)>,
    pub all_hashes: Vec<(u64, u64)>,
}

fn run_batch(prop: &'static dyn Prop, base: u64, deep: bool, n: u64, jobs: usize, cap_s: f64, w: &Arc<Watch>, progress: Option<&fs::File>, keep: bool) -> Batch {
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Batch { done: 0, counters: BTreeMap::new(), hashes: BTreeSet::new(), nontrivial: BTreeSet::new(), found: None, all_hashes: vec![] });
    let t0 = real_secs();
    thread::scope(|sc| {
        for j in 0..jobs {
            let (next, best, total) = (&next, &best, &total);
            let w = w.clone();
            sc.spawn(move || {
                let mut local = Batch { done: 0, counters: BTreeMap::new(), hashes: BTreeSet::new(), nontrivial: BTreeSet::new(), found: None, all_hashes: vec![] };
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > best.load(Ordering::SeqCst) || real_secs() - t0 > cap_s {
                        break;
                    }
                    let plan = make_plan(prop, base, i, deep);
                    w.index[j].store(i, Ordering::SeqCst);
                    w.started[j].store((real_secs() * 1000.0) as u64, Ordering::SeqCst);
                    if let Some(f) = progress {
                        let _ = f.write_at(&(i + 1).to_le_bytes(), j as u64 * 8);
                    }
                    let out = run_plan(prop, &plan);
                    w.started[j].store(0, Ordering::SeqCst);
                    local.done += 1;
                    for (k, v) in &out.coll.c {
                        *local.counters.entry(k).or_insert(0) += v;
                    }
                    local.hashes.insert(out.coll.hash);
                    if out.coll.nontrivial {
                        local.nontrivial.insert(out.coll.hash);
                    }
                    if keep {
                        let bad = out.res.is_err() as u64;
                        local.all_hashes.push((i, mix(out.coll.hash ^ bad ^ out.coll.c.values().fold(0, |a, v| mix(a ^ v)))));
                    }
                    if let Err(v) = out.res {
                        best.fetch_min(i, Ordering::SeqCst);
                        if local.found.as_ref().map_or(true, |(b, _)| i < *b) {
                            local.found = Some((i, v));
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.done += local.done;
                for (k, v) in local.counters {
                    *t.counters.entry(k).or_insert(0) += v;
                }
                t.hashes.extend(local.hashes);
                t.nontrivial.extend(local.nontrivial);
                t.all_hashes.extend(local.all_hashes);
                if let Some((i, v)) = local.found {
                    if t.found.as_ref().map_or(true, |(b, _)| i < *b) {
                        t.found = Some((i, v));
                    }
                }
            });
        }
    });
    let mut b = total.into_inner().unwrap();
    b.all_hashes.sort();
    b
}

// ---------------------------------------------------------------- minimise

/// Execute a plan in a process of its own; the tag and text of the violation.
fn run_fresh(prop: &'static dyn Prop, plan: &Plan) -> Option<Violation> {
    let path = replay_dir().join(format!(".fresh-{}-{}-{}.plan", prop.id(), std::process::id(), plan.seed));
    fs::write(&path, plan.text()).ok()?;
    let out = self_cmd(&["replay-inner", path.to_str().unwrap()]).stderr(std::process::Stdio::null()).output().ok()?;
    let _ = fs::remove_file(&path);
    if out.status.code() == Some(0) {
        return None;
    }
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let line = text.lines().find(|l| l.starts_with("  ") && l.contains(": ")).unwrap_or("  crash: the process was killed").trim();
    let (tag, detail) = line.split_once(": ").unwrap_or(("crash", line));
    Some(Violation { tag: tag.into(), detail: detail.into() })
}

fn search_fresh(prop: &'static dyn Prop, base: u64, deep: bool, n: u64, jobs: usize) -> Option<(Plan, Violation)> {
    let next = AtomicU64::new(0);
    let best: Mutex<Option<(u64, Plan, Violation)>> = Mutex::new(None);
    let t0 = real_secs();
    thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n || best.lock().unwrap().is_some() || real_secs() - t0 > 60.0 {
                    return;
                }
                let p = make_plan(prop, base, i, deep);
                if let Some(v) = run_fresh(prop, &p) {
                    let mut b = best.lock().unwrap();
                    if b.as_ref().map_or(true, |x| i < x.0) {
                        *b = Some((i, p, v));
                    }
                }
            });
        }
    });
    best.into_inner().unwrap().map(|(_, p, v)| (p, v))
}

/// `fresh`: every attempt in a process of its own (state of the process is
/// involved in the violation).
fn shrink(prop: &'static dyn Prop, plan: Plan, v: Violation, w: &Arc<Watch>, fresh: bool) -> (Plan, Violation, u64) {
    let t0 = real_secs();
    let mut cur = plan;
    let mut vio = v;
    let mut tries = 0u64;
    *w.blame.lock().unwrap() = Some(cur.clone());
    let mut attempt = |cand: Plan, cur: &mut Plan, vio: &mut Violation| -> bool {
        if cand == *cur || tries > 3000 || real_secs() - t0 > 60.0 {
            return false;
        }
        tries += 1;
        w.started[0].store((real_secs() * 1000.0) as u64, Ordering::SeqCst);
        let out = if fresh { run_fresh(prop, &cand).map_or(Ok(()), Err) } else { run_plan(prop, &cand).res };
        w.started[0].store(0, Ordering::SeqCst);
        if let Err(nv) = out {
            if nv.tag == vio.tag {
                *cur = cand;
                *vio = nv;
                *w.blame.lock().unwrap() = Some(cur.clone());
                return true;
            }
        }
        false
    };
    loop {
        let mut progress = false;
        // drop blocks of operations
        let mut block = (cur.ops.len() / 2).max(1);
        while block >= 1 {
            let mut i = 0;
            while i < cur.ops.len() {
                let mut c = cur.clone();
                let hi = (i + block).min(c.ops.len());
                c.ops.drain(i..hi);
                if attempt(c, &mut cur, &mut vio) {
                    progress = true;
                } else {
                    i += block;
                }
            }
            block /= 2;
        }
        // reduce parameters
        let keys: Vec<String> = cur.p.keys().cloned().collect();
        for k in keys {
            for val in candidates(cur.p[&k]) {
                let mut c = cur.clone();
                c.p.insert(k.clone(), val);
                if attempt(c, &mut cur, &mut vio) {
                    progress = true;
                    break;
                }
            }
        }
        // reduce operation arguments
        for i in 0..cur.ops.len() {
            for j in 0..cur.ops[i].a.len() {
                for val in candidates(cur.ops[i].a[j]) {
                    let mut c = cur.clone();
                    c.ops[i].a[j] = val;
                    if attempt(c, &mut cur, &mut vio) {
                        progress = true;
                        break;
                    }
                }
            }
        }
        if !progress {
            break;
        }
    }
    *w.blame.lock().unwrap() = None;
    (cur, vio, tries)
}

fn candidates(v: i64) -> Vec<i64> {
    let mut c = vec![];
    if v == 0 {
        return c;
    }
    c.push(0);
    if v.abs() > 2 {
        c.push(v / 2);
    }
    if v.abs() > 16 {
        c.push(v / 16);
        c.push(v - v / 4);
    }
    c.push(v - v.signum());
    if v < 0 {
        c.push(-v);
    }
    c
}

// ---------------------------------------------------------------- commands

fn jobs() -> usize {
    std::env::var("DSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| thread::available_parallelism().map_or(4, |n| n.get())).clamp(1, 64)
}

fn new_watch(jobs: usize) -> Arc<Watch> {
    Arc::new(Watch {
        started: (0..jobs).map(|_| AtomicU64::new(0)).collect(),
        index: (0..jobs).map(|_| AtomicU64::new(0)).collect(),
        blame: Mutex::new(None),
    })
}

pub fn seed_tier() -> (u64, bool) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    (seed, deep)
}

fn self_cmd(args: &[&str]) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().expect("current_exe"));
    c.args(args);
    c
}

/// Supervises the real check in a child, so that a crash of the process
/// (abort, stack overflow, memory exhaustion) is a finding, not a lost check.
pub fn check(prop: &'static dyn Prop) -> i32 {
    let progress = replay_dir().join(format!(".progress-{}-{}", prop.id(), std::process::id()));
    fs::write(&progress, vec![0u8; 64 * 8]).expect("progress file");
    let st = self_cmd(&["check-inner", prop.id(), progress.to_str().unwrap()]).status().expect("spawn");
    let code = match st.code() {
        Some(c) => c,
        None => {
            // the process died: find the run that kills it
            let (base, deep) = seed_tier();
            let data = fs::read(&progress).unwrap_or_default();
            let mut idx: Vec<u64> = data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).map(|x| x - 1).collect();
            idx.sort();
            let mut code = 2;
            for i in idx {
                let plan = make_plan(prop, base, i, deep);
                let path = write_replay(prop.id(), &plan, "process crash: not minimised");
                let s = self_cmd(&["replay-inner", path.to_str().unwrap()]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().expect("spawn");
                if s.code().is_none() {
                    let v = Violation { tag: "crash".into(), detail: format!("the process was killed: {}", s) };
                    report(prop.id(), &path, &v);
                    code = 1;
                    break;
                } else {
                    let _ = fs::remove_file(&path);
                }
            }
            if code == 2 {
                eprintln!("dsim: check process died ({}) and no single run reproduces it", st);
            }
            code
        }
    };
    let _ = fs::remove_file(&progress);
    code
}

pub fn check_inner(prop: &'static dyn Prop, progress: &str) -> i32 {
    let t0 = real_secs();
    let (base, deep) = seed_tier();
    let jobs = jobs();
    let (q, t) = prop.runs();
    let n = std::env::var("DSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if deep { t } else { q });
    let cap = if deep { 600.0 } else { 150.0 };
    println!("dsim check property={} seed={} tier={} runs={} jobs={}", prop.id(), base, if deep { "thorough" } else { "quick" }, n, jobs);
    let w = new_watch(jobs);
    start_watchdog(w.clone(), prop, base, deep);
    let pf = fs::OpenOptions::new().write(true).open(progress).ok();
    let b = run_batch(prop, base, deep, n, jobs, cap, &w, pf.as_ref(), false);
    let batch_s = real_secs() - t0;
    let mut code = 0;
    let mut missing: Vec<&str> = vec![];
    if let Some((i, v)) = &b.found {
        println!("run {} violates {}: {}", i, prop.id(), v.detail.lines().next().unwrap_or(""));
        let plan = make_plan(prop, base, *i, deep);
        let again = run_plan(prop, &plan);
        let (mut small, mut vio, mut tries) = match again.res {
            Err(v) => shrink(prop, plan.clone(), v, &w, false),
            // depends on state that earlier runs left in the process
            Ok(()) => (plan.clone(), v.clone(), 0),
        };
        // must fail in a process of its own, too
        let mut alone = run_fresh(prop, &small).is_some();
        if !alone {
            if let Some(v) = run_fresh(prop, &plan) {
                (small, vio, tries) = shrink(prop, plan.clone(), v, &w, true);
                alone = true;
            }
        }
        if !alone {
            // find a run of the batch that fails in a process of its own
            if let Some((p, v)) = search_fresh(prop, base, deep, n.min(3000), jobs) {
                (small, vio, tries) = shrink(prop, p, v, &w, true);
                alone = true;
            }
        }
        println!("minimised in {} executions: {} ops, {} params", tries, small.ops.len(), small.p.len());
        let note = format!("violation {}: {}\nfound at run {} of seed {} tier {}", vio.tag, vio.detail, i, base, if deep { "thorough" } else { "quick" });
        let mut path = write_replay(prop.id(), &small, &note);
        if !alone {
            // the replay is the whole prefix of the batch, run sequentially
            path = replay_dir().join(format!("{}-prefix-{}.plan", prop.id(), base));
            fs::write(&path, format!("dsim-prefix {} {} {} {}\n# needs the earlier runs of the batch in the same process\n", prop.id(), base, deep as u8, i)).unwrap();
            let st = self_cmd(&["replay", path.to_str().unwrap()]).stdout(std::process::Stdio::null()).status().expect("spawn");
            println!("  (not reproducible alone; replay is the batch prefix: exit {:?})", st.code());
        }
        report(prop.id(), &path, &vio);
        code = 1;
    } else if b.done == n {
        for p in prop.probes() {
            if b.counters.get(p).copied().unwrap_or(0) == 0 {
                missing.push(p);
            }
        }
        if !missing.is_empty() {
            println!("note: probes never reached in this batch: {}", missing.join(", "));
        }
    }
    write_evidence(prop, base, deep, &b, n, jobs, batch_s, real_secs() - t0, code, &missing);
    if code == 0 {
        println!("ok property={} runs={} distinct={} in {:.1} s", prop.id(), b.done, b.hashes.len(), real_secs() - t0);
    }
    code
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(prop: &dyn Prop, base: u64, deep: bool, b: &Batch, n: u64, jobs: usize, batch_s: f64, wall: f64, violations: i32, missing: &[&str]) {
    let dir = Path::new(env!("CARGO_MANIFEST_DIR")).join("../evidence");
    fs::create_dir_all(&dir).expect("evidence dir");
    let samples: Vec<String> = (0..3.min(n)).map(|i| esc(&make_plan(prop, base, i, deep).text())).collect();
    let group = |pre: &str| -> String {
        let v: Vec<String> = b.counters.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| format!("{}: {}", esc(&k[pre.len()..]), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let other: Vec<String> = b.counters.iter().filter(|(k, _)| !["fault.", "probe.", "sim."].iter().any(|p| k.starts_with(p))).map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let (real, stub) = prop.real_stub();
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {},\n  \"planned_runs\": {},\n  \"jobs\": {},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_seconds\": {:.3},\n  \"distinct_trace_hashes\": {},\n  \"distinct_measure\": \"hash of the run's full event sequence (values included)\",\n  \"faults_injected\": {},\n  \"probes\": {},\n  \"probes_at_zero\": [{}],\n  \"counters\": {{{}}},\n  \"real_components\": {},\n  \"stub_components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        esc(prop.id()),
        if deep { "thorough" } else { "quick" },
        base,
        b.done,
        b.nontrivial.len(),
        esc(prop.rule()),
        samples.join(", "),
        b.done,
        n,
        jobs,
        b.done as f64 / batch_s.max(1e-3) * 3600.0,
        b.counters.get("sim.time_ms").copied().unwrap_or(0) as f64 / 1000.0,
        b.hashes.len(),
        group("fault."),
        group("probe."),
        missing.iter().map(|m| esc(m)).collect::<Vec<_>>().join(", "),
        other.join(", "),
        esc(real),
        esc(stub),
        esc("rustc and the standard library are correct; the vendored rand 0.7.3 differs from the released one only in where ThreadRng takes its bits; a clean batch is evidence for the sampled runs, not proof"),
        wall,
        violations
    );
    fs::write(dir.join(format!("{}.json", prop.id())), t).expect("write evidence");
}

/// `replay`: child process, so that a crash is reported too.
pub fn replay(path: &str) -> i32 {
    let st = self_cmd(&["replay-inner", path]).status().expect("spawn");
    match st.code() {
        Some(c) => c,
        None => {
            let id = fs::read_to_string(path).ok().and_then(|t| Plan::parse(&t).ok()).map(|p| p.property).unwrap_or_default();
            report(&id, Path::new(path), &Violation { tag: "crash".into(), detail: format!("the process was killed: {}", st) });
            1
        }
    }
}

pub fn replay_inner(path: &str, find: &dyn Fn(&str) -> Option<&'static dyn Prop>) -> i32 {
    let text = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("dsim: {}: {}", path, e);
            return 2;
        }
    };
    let abs = fs::canonicalize(path).unwrap_or_else(|_| PathBuf::from(path));
    if let Some(rest) = text.strip_prefix("dsim-prefix ") {
        let w: Vec<&str> = rest.split_whitespace().collect();
        let prop = match find(w[0]) {
            Some(p) => p,
            None => return 2,
        };
        let (base, deep, upto): (u64, bool, u64) = (w[1].parse().unwrap(), w[2] == "1", w[3].parse().unwrap());
        for i in 0..=upto {
            if let Err(v) = run_plan(prop, &make_plan(prop, base, i, deep)).res {
                report(prop.id(), &abs, &v);
                return 1;
            }
        }
        println!("replay: no violation");
        return 0;
    }
    let plan = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("dsim: {}: {}", path, e);
            return 2;
        }
    };
    let prop = match find(&plan.property) {
        Some(p) => p,
        None => {
            eprintln!("dsim: unknown property {}", plan.property);
            return 2;
        }
    };
    let w = new_watch(1);
    *w.blame.lock().unwrap() = Some(plan.clone());
    start_watchdog(w.clone(), prop, 0, false);
    w.started[0].store((real_secs() * 1000.0) as u64, Ordering::SeqCst);
    let out = run_plan(prop, &plan);
    match out.res {
        Ok(()) => {
            println!("replay: no violation of {} (trace {:016x})", prop.id(), out.coll.hash);
            0
        }
        Err(v) => {
            println!("trace {:016x}", out.coll.hash);
            report(prop.id(), &abs, &v);
            1
        }
    }
}

/// Digest of `n` runs, for determinism checks across processes and job counts.
pub fn digest(prop: &'static dyn Prop, n: u64, jobs: usize) -> u64 {
    let (base, deep) = seed_tier();
    let w = new_watch(jobs);
    let b = run_batch(prop, base, deep, n, jobs, 1e9, &w, None, true);
    b.all_hashes.iter().fold(0, |a, (i, h)| mix(a ^ mix(i ^ h)))
}
