//! C15: the time logger reports the true elapsed time of the (re)started run.
use crate::exec::{last_panic, Injected, Prop};
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Res};
use crate::with_float;
use optlib::tools::logging::{Logger, TimeLogger};
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct C15;

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn runs(&self) -> (u64, u64) {
        (300_000, 3_000_000)
    }
    fn rule(&self) -> &'static str {
        "sessions with time loggers under simulated clocks: evaluations and checks take from nothing to days, the wall clock is stepped both ways, the optimizer is paused for arbitrary times, runs are aborted and resumed, and the writers accept few bytes, interrupt, refuse or fail at chosen calls; every line is compared with the simulated monotonic clock; non-trivial: time passed within a (re)started run"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.lines", "probe.zero_ms", "probe.sub_ms", "probe.days", "probe.paused_between", "fault.wall_clock_forward", "fault.wall_clock_back", "fault.slow_evaluation", "fault.goal_panic", "probe.two_loggers", "probe.unstarted", "probe.resumed", "fault.short_write", "fault.write_interrupted", "fault.write_zero", "fault.write_error", "fault.disk_full", "probe.failure_reached_caller"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("TimeLogger, std::time::Instant, both optimizers", "clocks (simulated), writer (simulated device), goal function, stop decision")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C15", "time", 0);
        gen_cfg(r, &mut p, -1, deep);
        p.set("pop", r.size(1, 6));
        p.set("dim", r.size(1, 3));
        if r.chance(1, 8) {
            p.op("more", &[r.size(0, 5)]);
        }
        let total = gen_session(r, &mut p, false);
        let evals = (total + 1) * p.p["pop"];
        let amount = |r: &mut Rng| -> i64 {
            match r.below(6) {
                0 => r.range(0, 2_000_000),
                1 => r.range(0, 5_000_000_000),
                2 => r.range(0, 400) * 86_400_000_000_000,
                3 => r.range(0, 100) * 1_000_000 - r.range(0, 1),
                4 => r.range(0, 10) * 1_000_000_000 - r.range(0, 1),
                _ => r.range(0, 3_600_000_000_000),
            }
        };
        for _ in 0..r.below(6) {
            let a = [r.range(0, 2), r.range(0, evals), amount(r)];
            p.op("ck", &a);
        }
        // the clocks between the calls: wait n
        for _ in 0..r.below(4) {
            let at = r.range(0, p.ops.len() as i64) as usize;
            p.ops.insert(at, crate::plan::Op { k: "wait".into(), a: vec![amount(r), r.range(-1, 1) * amount(r)] });
        }
        p.set("eval_ns", *r.pick(&[0, 0, 1, 999, 1_000_000, 333_333, 7_000_000_000]));
        p.set("stop_ns", *r.pick(&[0, 0, 1, 500_000, 1_000_000]));
        gen_goal_faults(r, &mut p, evals, &[1, 4]);
        p.set("twice", r.range(0, 1));
        // the devices behind the writers: wf logger, call, fault, argument
        if r.chance(1, 4) {
            for w in 0..2 {
                p.set(["chunk0", "chunk1"][w], *r.pick(&[0, 0, 0, 1, 2, 7, 30]));
                let upto = r.range(1, 12);
                for _ in 0..r.below(6) {
                    let a = [w as i64, r.range(0, upto), r.range(0, 1), r.range(1, 40)];
                    p.op("wf", &a);
                }
                if r.chance(1, 3) {
                    let a = [w as i64, r.range(0, upto), r.range(2, 4), r.range(0, 30)];
                    p.op("wf", &a);
                }
            }
        }
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

fn mono() -> u64 {
    simseam::with(|s| s.mono_ns).unwrap()
}

/// Takes time only while a run is under way: whether the initialization
/// belongs to the elapsed time is not specified.
struct SlowGoal {
    inner: SimGoal,
    running: Rc<Cell<bool>>,
    ns: u64,
    clock: std::collections::BTreeMap<u64, (i64, i64)>,
}
impl<F: Fl> Goal<Vec<F>> for SlowGoal {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        if self.running.get() {
            simseam::advance(self.ns);
            if let Some((k, a)) = self.clock.get(&self.inner.rig.evals.get()) {
                clock_event(*k, *a);
            }
        }
        self.inner.get(x)
    }
}
struct SlowStop<F: Fl> {
    inner: Box<dyn StopChecker<Vec<F>>>,
    running: Rc<Cell<bool>>,
    ns: u64,
}
impl<F: Fl> StopChecker<Vec<F>> for SlowStop<F> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<F>>) -> bool {
        if self.running.get() {
            simseam::advance(self.ns);
        }
        self.inner.can_stop(s)
    }
}

fn go<F: Fl>(p: &Plan) -> Res {
    let running = Rc::new(Cell::new(false));
    let times: Rc<RefCell<(u64, Vec<u64>)>> = Rc::new(RefCell::new((0, vec![])));
    let devs: Vec<Rc<RefCell<Dev>>> = (0..2).map(|_| Rc::new(RefCell::new(Dev::default()))).collect();
    for (w, k) in ["chunk0", "chunk1"].iter().enumerate() {
        devs[w].borrow_mut().chunk = p.get(k, 0, 0, 1 << 20) as usize;
    }
    let mut faulty = false;
    for o in p.ops_of("wf") {
        faulty = true;
        devs[o.argc(0, 0, 1) as usize].borrow_mut().faults.insert(o.argc(1, 0, i64::MAX) as u64, (o.argc(2, 0, 4), o.arg(3)));
    }
    let leak: Vec<Leak<Writer>> = devs.iter().map(|d| Leak::new(Writer(d.clone()))).collect();

    let mut s: Session<F> = Session::new(p);
    s.allow_unstarted = true;
    s.stop_mode = 2;
    let spec = s.rig.goal.clone();
    let mut plain = spec.clone();
    plain.ns = 0;
    plain.clock.clear();
    s.rig = Rig::new(plain);
    let goal = Box::new(SlowGoal { inner: SimGoal { rig: s.rig.clone() }, running: running.clone(), ns: spec.ns, clock: spec.clock });
    let stop = Box::new(SlowStop {
        inner: Box::new(TapStop { inner: Box::new(AtTarget { rig: s.rig.clone() }), rig: s.rig.clone() }),
        running: running.clone(),
        ns: p.get("stop_ns", 0, 0, 1_000_000_000_000) as u64,
    });
    s.opt = s.cfg.build_with::<F>(&s.rig, stop, goal);
    let mark = {
        let (running, times) = (running.clone(), times.clone());
        FnLogger(Box::new(move |w, _s: &dyn AlgorithmState<Vec<F>>| match w {
            Lg::Resume => {
                times.borrow_mut().0 = mono();
                running.set(true);
            }
            Lg::Finish => {
                let mut t = times.borrow_mut();
                let d = mono() - t.0;
                t.1.push(d);
                running.set(false);
            }
            _ => {}
        }))
    };
    let mut l: Vec<Box<dyn Logger<Vec<F>>>> = vec![Box::new(TimeLogger::new(leak[0].lend()))];
    // the moments are noted first when a writer may fail
    l.insert(if faulty { 0 } else { 1 }, Box::new(mark));
    if p.flag("twice") {
        stat::hit("probe.two_loggers");
        l.push(Box::new(TimeLogger::new(leak[1].lend())));
    }
    s.opt.set_loggers(l);
    let mut failed = false;
    for o in &p.ops {
        if o.k == "wf" {
            continue;
        }
        if o.k == "wait" {
            if o.arg(0) > 0 {
                stat::hit("probe.paused_between");
            }
            simseam::advance(o.argc(0, 0, 1 << 60) as u64);
            let w = o.argc(1, -(1 << 58), 1 << 58);
            if w != 0 {
                clock_event(if w > 0 { 1 } else { 2 }, w);
            }
            continue;
        }
        if o.k == "more" {
            stat::hit(if s.started { "probe.resumed" } else { "probe.unstarted" });
        }
        running.set(false);
        let done = catch_unwind(AssertUnwindSafe(|| s.step(o)));
        running.set(false);
        let dead = devs.iter().any(|d| d.borrow().failed);
        match done {
            // the session turns foreign panics into violations
            Ok(Err(_)) | Err(_) if dead => {
                stat::hit("probe.failure_reached_caller");
                failed = true;
                break;
            }
            Ok(Err(v)) => return Err(v),
            Err(e) if e.is::<Injected>() => {}
            Err(_) => return bad("panic", format!("unexpected panic: {}", last_panic())),
            Ok(Ok(_)) if dead => return bad("failure-hidden", format!("operation {}: a writer failed for good, but the call returned normally", o.k)),
            Ok(Ok(_)) => {}
        }
    }
    drop(s);
    let spent = times.borrow().1.clone();
    for (i, o) in devs.iter().enumerate() {
        if i == 1 && !p.flag("twice") {
            continue;
        }
        let text = String::from_utf8_lossy(&o.borrow().out).to_string();
        let mut want = vec![];
        for d in &spent {
            stat::hit("probe.lines");
            stat::mark(mix(*d));
            if *d > 0 {
                stat::nontrivial();
            }
            match *d {
                0 => stat::hit("probe.zero_ms"),
                1..=999_999 => stat::hit("probe.sub_ms"),
                86_400_000_000_000.. => stat::hit("probe.days"),
                _ => {}
            }
            want.push(format!("Time elapsed: {} ms", d / 1_000_000));
        }
        if failed {
            // what was written before the failure is a prefix of what is due
            let bare = |s: &str| s.split_whitespace().collect::<String>();
            if !bare(&want.join("\n")).starts_with(&bare(&text)) {
                return bad("wrong-time", format!("time logger {}: its writer failed, and before it had received {:?} where a prefix of {:?} was due", i, text, want));
            }
            continue;
        }
        let got: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
        let norm = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
        for k in 0..want.len().max(got.len()) {
            let (w, g) = (want.get(k).cloned(), got.get(k).map(|g| norm(g)));
            if w != g {
                return bad("wrong-time", format!("time logger {}, line {}: {:?}, but {:?} ns had passed since the (re)start", i, k, g, spent.get(k)));
            }
        }
    }
    Ok(())
}
