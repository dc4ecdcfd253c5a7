//! C16: statistics keep exactly one aligned record per run.
use crate::exec::Prop;
use crate::kit::*;
use crate::plan::{Op, Plan};
use crate::prng::Rng;
use crate::stat::{self, bad, Res};
use crate::with_float;
use optlib::tools::logging::Logger;
use optlib::tools::statistics::{CallCountData, GoalCalcStatistics, Statistics, StatisticsLogger};
use optlib::tools::stopchecker::StopChecker;
use optlib::Goal;
use std::cell::Cell;
use std::rc::Rc;

pub struct C16;

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn runs(&self) -> (u64, u64) {
        (240_000, 2_500_000)
    }
    fn rule(&self) -> &'static str {
        "sessions (runs, pauses, re-runs, aborts by panics at any call, never-started resumptions, loggers attached in the middle of a run) collected by the statistics logger and the counting goal, compared with what a recording logger and the goal itself saw; non-trivial: a run with a pause, an abort or a late attachment was collected"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.records", "probe.rows", "probe.paused", "probe.rerun", "probe.late", "probe.unstarted", "probe.aborted", "probe.aborted_run_resumed", "probe.calls_counted", "fault.goal_panic", "fault.component_panic", "probe.no_solution", "probe.without_next_run", "probe.counted_by_hand"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("StatisticsLogger, Statistics, CallCountData, GoalCalcStatistics, both optimizers", "goal function, recording logger, stop decision")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C16", "collect", 0);
        gen_cfg(r, &mut p, -1, deep);
        p.set("pop", r.size(1, 8));
        if r.chance(1, 8) {
            p.op("more", &[r.size(0, 6)]);
        }
        let mut total = gen_session(r, &mut p, false);
        if r.chance(1, 3) {
            total += gen_session(r, &mut p, false);
        }
        for _ in 0..r.below(3) {
            let at = r.range(0, p.ops.len() as i64) as usize;
            p.ops.insert(at, Op { k: "att".into(), a: vec![] });
        }
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4, 6]);
        for _ in 0..r.below(3) {
            let a = [r.range(0, evals * 4)];
            p.op("tp", &a);
        }
        p.set("nonext", r.chance(1, 6) as i64);
        p.set("extra", r.chance(1, 4) as i64);
        p.set("late", r.chance(1, 5) as i64);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

/// Compares what goes through the counting goal with what the goal saw.
struct Outer<F: Fl> {
    inner: Box<dyn Goal<Vec<F>>>,
    rig: Rc<Rig>,
}
impl<F: Fl> Goal<Vec<F>> for Outer<F> {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        let before = self.rig.ev.borrow().len();
        let v = self.inner.get(x);
        let ev = self.rig.ev.borrow();
        match &ev[before..] {
            [Ev::Eval(gx, gv)] if *gx == x.x() && *gv == fbits(v) => {}
            e => stat::fail("goal-changed", format!("a call with {} returned {:e}; the counted goal function saw {:?}", show_x(&x.x()), v, e)),
        }
        v
    }
}

/// The counted goal: every call it receives, panicking or not.
struct Received {
    inner: SimGoal,
    n: Rc<Cell<u64>>,
}
impl<F: Fl> Goal<Vec<F>> for Received {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        self.n.set(self.n.get() + 1);
        self.inner.get(x)
    }
}

type Sol = Option<(X, u64)>;

fn go<F: Fl>(p: &Plan) -> Res {
    let stats: Leak<Statistics<Vec<F>>> = Leak::new(Statistics::new());
    let counts: Leak<CallCountData> = Leak::new(CallCountData::new());
    let mut s: Session<F> = Session::new(p);
    s.allow_unstarted = true;
    let received = Rc::new(Cell::new(0u64));
    let sim: Leak<Received> = Leak::new(Received { inner: SimGoal { rig: s.rig.clone() }, n: received.clone() });
    let stop: Box<dyn StopChecker<Vec<F>>> = Box::new(TapStop { inner: Box::new(AtTarget { rig: s.rig.clone() }), rig: s.rig.clone() });
    let counted = GoalCalcStatistics::new(sim.lend() as &'static mut dyn Goal<Vec<F>>, counts.lend());
    s.opt = s.cfg.build_with::<F>(&s.rig, stop, Box::new(Outer { inner: Box::new(counted), rig: s.rig.clone() }));
    let attach = |s: &mut Session<F>, on: bool| {
        let rec = Box::new(RecLogger { rig: s.rig.clone(), l: 0 });
        // the statistics first: what the recorder saw, they were told
        let mut l: Vec<Box<dyn Logger<Vec<F>>>> = vec![];
        // dropping the old logger before lending again
        s.opt.set_loggers(vec![]);
        if on {
            l.push(Box::new(StatisticsLogger::new(stats.lend())));
        }
        l.push(rec);
        s.opt.set_loggers(l);
    };
    let mut attached = !p.flag("late");
    attach(&mut s, attached);
    // reference
    let mut want: Vec<(Vec<Sol>, Sol)> = vec![];
    let mut calls: Vec<u64> = vec![];
    let mut known = false;
    let mut ran = false;
    if p.flag("extra") && p.flag("nonext") {
        counts.lend().add(5);
        calls.push(5);
        stat::hit("probe.counted_by_hand");
    }
    for o in &p.ops {
        match o.k.as_str() {
            "att" => {
                stat::hit("probe.late");
                stat::nontrivial();
                attached = true;
                known = false;
                attach(&mut s, true);
                continue;
            }
            "run" => {
                if ran {
                    stat::hit("probe.rerun");
                }
                if p.flag("nonext") {
                    stat::hit("probe.without_next_run");
                } else {
                    counts.lend().next_run();
                    calls.push(0);
                }
            }
            "more" if !s.started => stat::hit("probe.unstarted"),
            "more" => stat::hit("probe.paused"),
            "rep" => {}
            _ => continue,
        }
        received.set(0);
        let from = s.rig.ev.borrow().len();
        let was_aborted = s.aborted;
        if !s.step(o)? || o.k == "rep" {
            continue;
        }
        ran = true;
        if o.k == "more" {
            stat::nontrivial();
            if was_aborted {
                stat::hit("probe.aborted_run_resumed");
            }
        }
        if s.aborted {
            stat::hit("probe.aborted");
            stat::nontrivial();
        }
        if received.get() > 0 {
            if calls.is_empty() {
                calls.push(0);
            }
            *calls.last_mut().unwrap() += received.get();
            stat::add("probe.calls_counted", received.get());
        }
        for e in &s.rig.ev.borrow()[from..] {
            match e {
                Ev::Log { what, st, .. } if attached => match what {
                    Lg::Start => {
                        want.push((vec![], None));
                        known = true;
                    }
                    Lg::Resume if !known => {
                        want.push((vec![], None));
                        known = true;
                    }
                    Lg::Resume => {}
                    Lg::Iter => want.last_mut().unwrap().0.push(st.best.clone()),
                    Lg::Finish => {
                        let w = want.last_mut().unwrap();
                        w.1 = st.best.clone();
                        if st.best.is_none() {
                            stat::hit("probe.no_solution");
                        }
                    }
                },
                _ => {}
            }
        }
        // at every point of the history, not only at its end
        compare(stats.get(), &want, &format!("after {} {:?}", o.k, o.a))?;
        if let Some(c) = calls.last_mut() {
            if p.flag("extra") {
                // calls a user counts by hand
                counts.lend().add(3);
                *c += 3;
            }
        } else if p.flag("extra") {
            counts.lend().add(2);
            calls.push(2);
        }
        let got = counts.get().get_call_count();
        if got.iter().map(|n| *n as u64).collect::<Vec<_>>() != calls {
            return bad("call-count", format!("after {} {:?}: counted {:?}, the goal function received {:?}", o.k, o.a, got, calls));
        }
    }
    Ok(())
}

fn sol<F: Fl>(s: &Option<(Vec<F>, f64)>) -> Sol {
    s.as_ref().map(|(x, v)| (x.x(), fbits(*v)))
}

fn compare<F: Fl>(st: &Statistics<Vec<F>>, want: &[(Vec<Sol>, Sol)], at: &str) -> Res {
    let (n, r, c) = (st.get_run_count(), st.get_results(), st.get_convergence());
    if n != want.len() || r.len() != want.len() || c.len() != want.len() {
        return bad("misaligned", format!("{}: {} runs, {} results and {} convergence rows for {} started runs", at, n, r.len(), c.len(), want.len()));
    }
    for (i, (row, res)) in want.iter().enumerate() {
        stat::hit("probe.records");
        let got: Vec<Sol> = c[i].iter().map(sol).collect();
        if !got.is_empty() {
            stat::hit("probe.rows");
        }
        if got != *row {
            let k = got.iter().zip(row).take_while(|(a, b)| a == b).count();
            return bad("wrong-row", format!("{}: convergence row {} has {} entries for {} iterations; entry {} is {:?}, was {:?}", at, i, got.len(), row.len(), k, got.get(k), row.get(k)));
        }
        let got = sol(&r[i]);
        if got != *res {
            return bad("wrong-result", format!("{}: result {} is {:?}, the run's is {:?}", at, i, got, res));
        }
    }
    Ok(())
}
