//! C13: loggers see the run through a fixed protocol.
use crate::exec::Prop;
use crate::kit::*;
use crate::plan::Plan;
use crate::prng::Rng;
use crate::stat::{self, bad, Res, Violation};
use crate::with_float;
use optlib::tools::logging::Logger;

pub struct C13;

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn runs(&self) -> (u64, u64) {
        (300_000, 3_000_000)
    }
    fn rule(&self) -> &'static str {
        "sessions (runs, resumptions, never-started resumptions, aborts by panics of any component including loggers, replacement of the loggers at pauses) whose complete call sequence is matched against the protocol; non-trivial: at least two loggers and one completed iteration"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.segments", "probe.resumed", "probe.unstarted", "probe.aborted", "probe.logger_panic", "probe.no_loggers", "probe.many_loggers", "probe.replaced", "probe.finish_checked", "probe.iterations", "probe.no_solution"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers, all operators, velocity rules, corrections, selections, pairings, creators", "goal function, recording loggers, stop decision")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C13", "protocol", 0);
        gen_cfg(r, &mut p, -1, deep);
        p.set("pop", r.size(1, 8));
        if r.chance(1, 8) {
            p.op("more", &[r.size(0, 6)]);
        }
        let total = gen_session(r, &mut p, deep);
        for _ in 0..r.below(3) {
            let at = r.range(0, p.ops.len() as i64) as usize;
            p.ops.insert(at, crate::plan::Op { k: "lg".into(), a: vec![r.range(0, 5)] });
        }
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4]);
        for _ in 0..r.below(3) {
            let a = [r.range(0, evals * 4)];
            p.op("tp", &a);
        }
        p.set("loggers", if r.chance(1, 60) { r.range(5, 40) } else { r.range(0, 4) });
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

fn go<F: Fl>(p: &Plan) -> Res {
    let mut s: Session<F> = Session::new(p);
    s.allow_unstarted = true;
    let mut segments: Vec<(usize, bool, Vec<Ev>)> = vec![];
    let mut loggers = p.get("loggers", 1, 0, 40) as usize;
    s.rig.take();
    for o in &p.ops {
        if o.k == "lg" {
            stat::hit("probe.replaced");
            loggers = o.argc(0, 0, 8) as usize;
            s.opt.set_loggers((0..loggers).map(|l| Box::new(RecLogger { rig: s.rig.clone(), l }) as Box<dyn Logger<Vec<F>>>).collect());
            continue;
        }
        let unstarted = o.k == "more" && !s.started;
        if s.step(o)? && o.k != "rep" {
            if unstarted {
                stat::hit("probe.unstarted");
            }
            // kept together with how many loggers there were
            let ev = s.rig.ev.borrow();
            let from = ev.iter().rposition(|e| matches!(e, Ev::Begin | Ev::Again)).unwrap_or(0);
            segments.push((loggers, o.k == "more", ev[from..].to_vec()));
        }
    }
    // iteration number and best solution the optimizer has reached
    let mut at = St { iter: 0, best: None };
    // an abort may have cut an iteration before or after it was counted
    let mut loose = false;
    for (k, (n, resumed, ev)) in segments.iter().enumerate() {
        if *resumed {
            stat::hit("probe.resumed");
        }
        segment(*n, *resumed, ev, &mut at, loose).map_err(|v| Violation { tag: v.tag, detail: format!("segment {} ({}): {}", k, if *resumed { "resumption" } else { "run" }, v.detail) })?;
        loose = matches!(ev.last(), Some(Ev::Abort));
    }
    Ok(())
}

fn brief(e: &Ev) -> String {
    format!("{:?}", e).chars().take(300).collect()
}

/// One run or resumption: resume start? (check iteration)* finish.
fn segment(n: usize, resumed: bool, ev: &[Ev], at: &mut St, mut loose: bool) -> Res {
    stat::hit("probe.segments");
    match n {
        0 => stat::hit("probe.no_loggers"),
        1 => {}
        _ => stat::hit("probe.many_loggers"),
    }
    let aborted = matches!(ev.last(), Some(Ev::Abort));
    if aborted {
        stat::hit("probe.aborted");
        if let Some(Ev::Log { .. }) = ev.iter().rev().nth(1) {
            stat::hit("probe.logger_panic");
        }
    }
    let mut i = 1; // after Begin / Again
    let skip = |mut i: usize| {
        while i < ev.len() && matches!(ev[i], Ev::Eval(..) | Ev::EvalPanic(..) | Ev::Agents(..)) {
            i += 1;
        }
        i
    };
    // every logger in order gets `what`; Ok(None): the segment was aborted
    let calls = |mut i: usize, what: Lg| -> Result<Option<(usize, Option<St>)>, Violation> {
        let mut state: Option<St> = None;
        for l in 0..n {
            match ev.get(i) {
                Some(Ev::Log { l: gl, what: gw, st }) => {
                    if *gw != what || *gl != l {
                        return bad("protocol", format!("event {}: logger {} should get {:?}, but {}", i, l, what, brief(&ev[i])));
                    }
                    if state.as_ref().map_or(false, |s| s != st) {
                        return bad("protocol", format!("event {}: logger {} is shown {:?}, the loggers before it {:?}", i, l, st, state));
                    }
                    state = Some(st.clone());
                }
                Some(Ev::Abort) => return Ok(None),
                e => return bad("protocol", format!("event {}: logger {} should get {:?}, but {}", i, l, what, e.map_or("the segment ended".into(), brief))),
            }
            i += 1;
        }
        Ok(Some((i, state)))
    };
    if !resumed {
        // the initialization shows nothing to loggers
        i = skip(i);
        *at = St { iter: 0, best: at.best.clone() };
        let Some((j, st)) = calls(i, Lg::Start)? else { return Ok(()) };
        if j == i && matches!(ev.get(i), Some(Ev::Abort)) {
            return Ok(());
        }
        i = j;
        if let Some(st) = st {
            if st.iter != 0 {
                return bad("protocol", format!("at start the iteration number is {}", st.iter));
            }
            *at = st;
        }
    }
    let Some((j, st)) = calls(i, Lg::Resume)? else { return Ok(()) };
    i = j;
    if let Some(st) = st {
        let counted = loose && resumed && st.iter == at.iter + 1;
        loose = false;
        if st.iter != at.iter && !counted {
            return bad("protocol", format!("at resume iteration {} is shown where the run is at {}", st.iter, at.iter));
        }
        *at = st;
    }
    loop {
        let asked = match ev.get(i) {
            Some(Ev::Abort) => return Ok(()),
            Some(Ev::Stop { st, ans }) => {
                if n == 0 && loose && resumed && st.iter == at.iter + 1 {
                    at.iter += 1;
                }
                loose = false;
                if st.iter != at.iter || n > 0 && *st != *at {
                    return bad("protocol", format!("event {}: the stop checker is shown {:?} where loggers saw {:?}", i, st, at));
                }
                *at = st.clone();
                *ans
            }
            e => return bad("protocol", format!("event {}: after resume or an iteration, before the stop check: {}", i, e.map_or("the segment ended".into(), brief))),
        };
        i += 1;
        if asked {
            break;
        }
        i = skip(i);
        if matches!(ev.get(i), Some(Ev::Abort)) {
            return Ok(());
        }
        let Some((j, st)) = calls(i, Lg::Iter)? else { return Ok(()) };
        if let Some(st) = st {
            if st.iter != at.iter + 1 {
                return bad("protocol", format!("event {}: iteration number {} after {}", i, st.iter, at.iter));
            }
            stat::hit("probe.iterations");
            if n >= 2 {
                stat::nontrivial();
            }
            *at = st;
        } else {
            at.iter += 1;
        }
        i = j;
    }
    let Some((j, st)) = calls(i, Lg::Finish)? else { return Ok(()) };
    i = j;
    match ev.get(i) {
        Some(Ev::Abort) => return Ok(()),
        Some(Ev::End(r)) => {
            if let Some(st) = st {
                stat::hit("probe.finish_checked");
                if st.best != *r {
                    return bad("finish-state", format!("loggers saw {:?} at finish, the result is {:?}", st.best, r));
                }
                if st.iter != at.iter {
                    return bad("finish-state", format!("loggers saw iteration {} at finish, the run is at {}", st.iter, at.iter));
                }
                if r.is_none() {
                    stat::hit("probe.no_solution");
                }
            }
        }
        e => return bad("protocol", format!("event {}: after finish: {}", i, e.map_or("nothing".into(), brief))),
    }
    if i + 1 != ev.len() {
        return bad("protocol", format!("event {}: after the segment's end: {}", i + 1, brief(&ev[i + 1])));
    }
    Ok(())
}
