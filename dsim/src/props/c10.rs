//! C10: a run stops exactly at the first check at which its criterion holds.
use crate::exec::{guard, must, Prop};
use crate::kit::*;
use crate::plan::{Op, Plan};
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Res, Violation};
use crate::with_float;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::{CompositeAll, CompositeAny, GoalNotChange, MaxIterations, StopChecker, Threshold};
use optlib::AlgorithmState;
use std::cell::RefCell;
use std::rc::Rc;

pub struct C10;

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn runs(&self) -> (u64, u64) {
        (450_000, 5_000_000)
    }
    fn rule(&self) -> &'static str {
        "nested criteria (iteration limit, threshold, no-change, ANY, ALL) shown scripted histories of several runs with pauses, and attached to real optimizers over runs, resumptions, aborts and late attachment; every answer is compared with a reference model; non-trivial: a no-change criterion or a composition was asked at a run's end"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.asked", "probe.yes", "probe.composite", "probe.nochange", "probe.threshold", "probe.rerun", "probe.paused", "probe.late", "probe.real_runs", "fault.goal_panic", "probe.iterations", "probe.nested", "probe.nochange_yes", "probe.nochange_odd", "probe.far", "probe.wide"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("MaxIterations, Threshold, GoalNotChange, CompositeAny, CompositeAll; in `real` runs both optimizers", "goal; in `scripted` runs the algorithm state shown to the criteria")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let real = r.chance(2, 5);
        let mut p = Plan::new("C10", if real { "real" } else { "scripted" }, 0);
        if real {
            gen_cfg(r, &mut p, -1, false);
            p.set("pop", r.size(2, 8));
            p.set("dim", r.size(1, 3));
            p.set("goal", *r.pick(&[0, 1, 2, 4, 5, 6, 7, 8, 10, 11, 12, 15, 16]));
            p.set("loggers", 1);
        } else {
            p.set("shape", r.range(0, 8));
            p.set("salt", r.range(0, 1 << 40));
            // a criterion that is asked seldom sees large numbers of iterations
            let e = r.range(1, 36);
            p.set("stride", if r.chance(1, 20) { r.range(2, 1 << e) } else { 1 });
        }
        p.set("cap", r.range(1, if deep { 120 } else { 40 }));
        if real && r.chance(1, 100) {
            p.set("cap", r.range(257, 1000)).set("stride", r.range(20, 90)).set("pop", r.size(2, 3));
        }
        tree(r, &mut p, 0);
        let mut any = false;
        for _ in 0..r.range(1, 5) {
            if any && r.chance(1, 6) {
                p.op("att", &[]);
            }
            let k = if any && r.chance(1, 2) { "more" } else { "run" };
            let t = r.range(0, p.p["cap"]);
            p.op(k, &[t]);
            any = true;
        }
        if real && r.chance(1, 4) {
            gen_goal_faults(r, &mut p, 100, &[4]);
        }
        p
    }
    fn run(&self, p: &Plan) -> Res {
        if p.scenario == "real" {
            with_float!(p, real(p))
        } else {
            scripted(p)
        }
    }
}

/// Criteria in prefix order: `n kind a b`.
fn tree(r: &mut Rng, p: &mut Plan, depth: i64) {
    let kind = if depth >= 3 {
        r.range(0, 2)
    } else if depth == 0 {
        *r.pick(&[0, 1, 2, 2, 3, 3, 3, 4, 4])
    } else {
        *r.pick(&[0, 1, 2, 2, 2, 3, 4])
    };
    let long = p.p.get("stride").map_or(1, |s| (*s).max(1));
    // seldom a wide composition
    let wide = kind >= 3 && depth < 2 && r.chance(1, 25);
    let a = match kind {
        0 => r.size(0, 30) * if r.chance(1, 2) { long } else { 1 },
        1 => r.range(-20, 8),
        2 => r.size(0, 8) * if r.chance(2, 3) { long } else { 1 },
        _ if wide => r.range(4, 40),
        _ => r.range(1, 3),
    };
    let b = r.range(0, 5);
    p.op("n", &[kind, a, b]);
    if kind >= 3 {
        for _ in 0..a {
            tree(r, p, if wide { 3 } else { depth + 1 });
        }
    }
}

#[derive(Clone, Debug)]
enum Node {
    Max(usize),
    Thr(f64),
    Gnc(usize, f64),
    Any(Vec<Node>),
    All(Vec<Node>),
}

fn parse(ops: &mut dyn Iterator<Item = &Op>, depth: usize) -> Node {
    let Some(o) = ops.next() else { return Node::Max(3) };
    let a = o.arg(1);
    match o.argc(0, 0, 4) {
        0 => Node::Max(a.clamp(0, 1 << 50) as usize),
        1 => Node::Thr(a.clamp(-1000, 1000) as f64 * 0.5),
        2 => Node::Gnc(a.clamp(0, 1 << 50) as usize, [0.0, 0.25, 0.5, 1.0, 1e-3, 64.0][o.argc(2, 0, 5) as usize]),
        k if depth < 8 => {
            let m = (0..a.clamp(1, 40)).map(|_| parse(ops, depth + 1)).collect();
            if k == 3 {
                Node::Any(m)
            } else {
                Node::All(m)
            }
        }
        _ => Node::Max(1),
    }
}

impl Node {
    fn real<T: 'static>(&self) -> Box<dyn StopChecker<T>> {
        match self {
            Node::Max(n) => Box::new(MaxIterations::new(*n)),
            Node::Thr(t) => Box::new(Threshold::new(*t)),
            Node::Gnc(m, d) => Box::new(GoalNotChange::new(*m, *d)),
            Node::Any(v) => Box::new(CompositeAny::new(v.iter().map(|n| n.real()).collect())),
            Node::All(v) => Box::new(CompositeAll::new(v.iter().map(|n| n.real()).collect())),
        }
    }
    fn has_gnc(&self) -> bool {
        match self {
            Node::Gnc(..) => true,
            Node::Any(v) | Node::All(v) => v.iter().any(|n| n.has_gnc()),
            _ => false,
        }
    }
    fn depth(&self) -> usize {
        match self {
            Node::Any(v) | Node::All(v) => 1 + v.iter().map(|n| n.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

/// Whether a best value is another one: equal values (infinite ones included)
/// are not, nor are two NaN; NaN and a number always are.
fn changed(b: f64, c: f64, d: f64) -> bool {
    if b.is_nan() || c.is_nan() {
        return b.is_nan() != c.is_nan();
    }
    b != c && (b - c).abs() > d
}

/// The reference: a pure function of the checks of the current run.
/// `seen`: iteration and best goal of every check so far in this run.
fn holds(n: &Node, seen: &[(usize, Option<f64>)]) -> bool {
    let (iter, best) = *seen.last().unwrap();
    match n {
        Node::Max(m) => iter >= *m,
        Node::Thr(t) => best.map_or(false, |b| b <= *t),
        Node::Any(v) => v.iter().any(|n| holds(n, seen)),
        Node::All(v) => v.iter().all(|n| holds(n, seen)),
        Node::Gnc(m, d) => {
            let mut considered: Option<(usize, f64)> = None;
            for (i, b) in seen {
                if let Some(b) = b {
                    // at iteration 0 a checker cannot tell a resumption (whose best may
                    // be another one after an abort) from the start of a run
                    if *i == 0 || considered.map_or(true, |(_, c)| changed(*b, c, *d)) {
                        considered = Some((*i, *b));
                    }
                }
            }
            let yes = best.is_some() && considered.map_or(false, |(at, _)| iter - at > *m);
            if yes {
                stat::hit("probe.nochange_yes");
                if best.map_or(false, |b| !b.is_finite()) {
                    stat::hit("probe.nochange_odd");
                }
            }
            yes
        }
    }
}

fn note(n: &Node, yes: bool) {
    stat::hit("probe.asked");
    if yes {
        stat::hit("probe.yes");
        if n.has_gnc() || n.depth() > 0 {
            stat::nontrivial();
        }
    }
    if n.depth() > 0 {
        stat::hit("probe.composite");
    }
    if let Node::Any(v) | Node::All(v) = n {
        if v.len() > 8 {
            stat::hit("probe.wide");
        }
    }
    if n.depth() > 1 {
        stat::hit("probe.nested");
    }
    if n.has_gnc() {
        stat::hit("probe.nochange");
    }
    if let Node::Thr(_) = n {
        stat::hit("probe.threshold");
    }
}

/// A history of checks with its reference.
struct Ref {
    node: Node,
    seen: Vec<(usize, Option<f64>)>,
}
impl Ref {
    fn new(node: &Node) -> Ref {
        Ref { node: node.clone(), seen: vec![] }
    }
    fn begin(&mut self) {
        self.seen.clear();
    }
    fn check(&mut self, iter: usize, best: Option<f64>, got: bool) -> Res {
        self.seen.push((iter, best));
        let want = holds(&self.node, &self.seen);
        note(&self.node, want);
        if want != got {
            let tail: Vec<_> = self.seen.iter().rev().take(12).rev().collect();
            return bad("wrong-answer", format!("{:?} answered {} at iteration {} where {} is right; last checks of this run: {:?}", self.node, got, iter, want, tail));
        }
        Ok(())
    }
}

struct Shown(usize, Option<f64>);
impl AlgorithmState<u64> for Shown {
    fn get_best_solution(&self) -> Option<(u64, f64)> {
        self.1.map(|v| (1, v))
    }
    fn get_iteration(&self) -> usize {
        self.0
    }
}

const ODD: [f64; 6] = [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 1e300];

/// Scripted best values: dyadic, so that differences are exact.
fn best_at(shape: i64, salt: u64, run: u64, iter: usize) -> Option<f64> {
    let h = |i: u64| mix(salt ^ run << 40 ^ i);
    let none = (h(1 << 30) % 4) as usize;
    if shape != 5 && iter < none {
        return None;
    }
    let i = iter as u64;
    Some(match shape {
        // slow drift, each step below most deltas
        0 => 5.0 - 0.25 * (i / (1 + h(0) % 4)) as f64,
        // plateaus of random length
        1 => (h(i / 6) % 16) as f64 * 0.25 - 4.0,
        // noise around one value
        2 => 1.0 + (h(i) % 3) as f64 * 0.25,
        // one value, the same in every run
        3 => 2.0,
        // improving and getting worse
        // one value that is not finite, or the largest
        6 => ODD[(h(1) % 6) as usize],
        // first such a value, then numbers
        7 => {
            if i < h(2) % 12 {
                ODD[(h(1) % 6) as usize]
            } else {
                (h(i / 5) % 4) as f64 * 0.25
            }
        }
        // all of them
        8 => ODD[(h(i / 3) % 6) as usize],
        4 => (h(i) % 64) as f64 * 0.25 - 8.0,
        _ => {
            if h(i) % 5 == 0 {
                return None;
            }
            (h(i / 3) % 8) as f64 * 0.5
        }
    })
}

fn scripted(p: &Plan) -> Res {
    let node = parse(&mut p.ops_of("n"), 0);
    let shape = p.get("shape", 0, 0, 8);
    let salt = p.get("salt", 0, 0, i64::MAX) as u64;
    let stride = p.get("stride", 1, 1, 1 << 40) as usize;
    if stride > 65_535 {
        stat::hit("probe.far");
    }
    let mut real: Box<dyn StopChecker<u64>> = node.real();
    let mut rf = Ref::new(&node);
    let (mut run, mut iter, mut started) = (0u64, 0usize, false);
    for o in &p.ops {
        match o.k.as_str() {
            "att" if started => {
                stat::hit("probe.late");
                real = node.real();
                rf = Ref::new(&node);
                continue;
            }
            "run" => {
                if started {
                    stat::hit("probe.rerun");
                }
                run += 1;
                iter = 0;
                started = true;
                rf.begin();
            }
            "more" if started => stat::hit("probe.paused"),
            _ => continue,
        }
        let left = o.argc(0, 0, 2000) as usize;
        let end = iter + left * stride;
        loop {
            let b = best_at(shape, salt, run, iter / stride);
            let got = must(|| real.can_stop(&Shown(iter, b)))?;
            stat::mark(iter as u64 * 2 + got as u64);
            rf.check(iter, b, got)?;
            // a yes pauses the history; so does the end of the operation
            if got || iter >= end {
                break;
            }
            iter += stride;
        }
    }
    Ok(())
}

/// The real criterion, observed, with an upper bound on the run's length.
struct Watched<F: Fl> {
    inner: Box<dyn StopChecker<Vec<F>>>,
    rig: Rc<Rig>,
    answers: Rc<RefCell<Vec<bool>>>,
}
impl<F: Fl> StopChecker<Vec<F>> for Watched<F> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<F>>) -> bool {
        self.rig.tap("stop_checker");
        let a = self.inner.can_stop(s);
        self.answers.borrow_mut().push(a);
        let ans = a || s.get_iteration() >= self.rig.target.get();
        self.rig.push(Ev::Stop { st: snap(s), ans });
        ans
    }
}

fn real<F: Fl>(p: &Plan) -> Res {
    stat::hit("probe.real_runs");
    let node = parse(&mut p.ops_of("n"), 0);
    let cfg = Cfg::of(p);
    let rig = Rig::new(goal_spec(p));
    let answers = Rc::new(RefCell::new(vec![]));
    let watched = || Box::new(Watched::<F> { inner: node.real(), rig: rig.clone(), answers: answers.clone() });
    let mut opt: Opt<F> = cfg.build_with(&rig, watched(), Box::new(SimGoal { rig: rig.clone() }));
    opt.set_loggers(vec![Box::new(RecLogger { rig: rig.clone(), l: 0 }) as Box<dyn Logger<Vec<F>>>]);
    let (mut started, mut init_aborted) = (false, false);
    let mut attached = vec![];
    for o in &p.ops {
        match o.k.as_str() {
            "att" if started => {
                stat::hit("probe.late");
                opt.set_stop(watched());
                attached.push(rig.ev.borrow().len());
                continue;
            }
            "run" | "more" => {}
            _ => continue,
        }
        let n = o.argc(0, 0, 1500) as usize;
        let r: Result<Option<_>, Violation> = if o.k == "run" {
            if started {
                stat::hit("probe.rerun");
            }
            started = true;
            rig.target.set(n);
            rig.push(Ev::Begin);
            guard(|| opt.find_min())
        } else {
            if !started || init_aborted {
                continue;
            }
            stat::hit("probe.paused");
            let at = rig.ev.borrow().iter().rev().find_map(|e| if let Ev::Stop { st, .. } = e { Some(st.iter) } else { None }).unwrap_or(0);
            rig.target.set(at + n);
            rig.push(Ev::Again);
            guard(|| opt.next_iterations())
        };
        match r? {
            Some(s) => {
                init_aborted = false;
                rig.push(Ev::End(s.map(|(x, v)| (x.x(), fbits(v)))));
            }
            None => {
                init_aborted = !rig.ev.borrow().iter().rev().take_while(|e| !matches!(e, Ev::Begin)).any(|e| matches!(e, Ev::Stop { .. } | Ev::Log { .. }));
                rig.push(Ev::Abort);
            }
        }
    }
    let ev = rig.take();
    let mut answers = answers.borrow().clone().into_iter();
    let mut rf = Ref::new(&node);
    // what the last check of this segment allowed: None before the first
    let mut allowed: Option<bool> = None;
    let mut begun = false;
    let mut asked_at = None;
    for (i, e) in ev.iter().enumerate() {
        if attached.contains(&i) {
            rf = Ref::new(&node);
        }
        match e {
            Ev::Begin => {
                rf.begin();
                allowed = None;
                begun = true;
                asked_at = None;
            }
            Ev::Again => {
                allowed = None;
                begun = false;
                asked_at = None;
            }
            Ev::Stop { st, ans } => {
                let got = answers.next().unwrap();
                if allowed == Some(false) && asked_at == Some(st.iter) {
                    return bad("iteration-lost", format!("event {}: asked twice at iteration {} though it had not answered yes", i, st.iter));
                }
                if allowed == Some(true) {
                    return bad("asked-after-yes", format!("event {}: asked again at iteration {} after it had answered yes", i, st.iter));
                }
                allowed = Some(*ans);
                asked_at = Some(st.iter);
                rf.check(st.iter, st.best.as_ref().map(|(_, v)| fval(*v)), got)?;
            }
            Ev::Eval(..) | Ev::EvalPanic(..) => match allowed {
                Some(true) => return bad("evaluation-after-yes", format!("event {}: the goal function was called after the criterion held", i)),
                None if !begun => return bad("iteration-unasked", format!("event {}: evaluation after a resumption before the criterion was asked", i)),
                _ => {}
            },
            Ev::Log { what: Lg::Iter, st, .. } => {
                stat::hit("probe.iterations");
                if allowed != Some(false) || asked_at.map_or(true, |a| a + 1 != st.iter) {
                    return bad("iteration-unasked", format!("event {}: iteration {} completed; last check of the segment at {:?} answered {:?}", i, st.iter, asked_at, allowed));
                }
            }
            Ev::End(_) => {
                if allowed != Some(true) {
                    return bad("stopped-unasked", format!("event {}: the run ended though the criterion's last answer was {:?}", i, allowed));
                }
                allowed = None;
            }
            _ => {}
        }
    }
    Ok(())
}
