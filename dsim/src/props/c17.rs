//! C17: workers do not interfere and merging loses nothing.
use crate::baton::{Baton, Seat, Stall};
use crate::exec::{close_seam, guard, must, Prop};
use crate::kit::*;
use crate::plan::{Op, Plan};
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Coll, Res, Violation};
use crate::with_float;
use optlib::tools::logging::{Logger, ResultOnlyLogger, TimeLogger, VerboseLogger};
use optlib::tools::statistics::{
    get_predicate_success_goal, get_predicate_success_vec_solution, CallCountData, GoalCalcStatistics, StatFunctionsConvergence, StatFunctionsGoal, StatFunctionsSolution, Statistics, StatisticsLogger,
};
use optlib::tools::stopchecker::{CompositeAny, GoalNotChange, MaxIterations, StopChecker, Threshold};
use optlib::{AlgorithmState, Goal};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::thread;

pub struct C17;

impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn runs(&self) -> (u64, u64) {
        (72_000, 800_000)
    }
    fn rule(&self) -> &'static str {
        "campaigns of 2-5 workers, each first alone in its own thread and then all concurrently in real threads under the baton scheduler (a switch possible at every draw and component call, workers stalled and crashed); sessions stepped alternately in one thread, also nested inside each other's steps; statistics of made-up campaigns united in any order and tree and their aggregates recomputed; non-trivial: threads were switched, steps alternated or parts united"
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "probe.threads", "probe.switches", "probe.workers_equal_solo", "fault.worker_stalled", "fault.worker_crashed", "probe.messages", "probe.out_of_order", "probe.alternate", "probe.nested", "probe.nested_twice", "probe.merge", "probe.tree", "probe.empty_part",
            "probe.failed_runs", "probe.std", "probe.one_success", "probe.no_success", "probe.convergence", "probe.convergence_hole", "probe.rate_goal", "probe.rate_solution", "probe.nan_coordinate", "probe.log_text", "probe.reused_optimizer", "fault.goal_panic",
        ]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers, all their components, StatisticsLogger, GoalCalcStatistics, Statistics, CallCountData, all loggers, all stop checkers, OS threads", "thread scheduler (baton), message channel, goal function, clocks, writers")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        match r.below(10) {
            0..=3 => gen_threads(r, deep),
            4..=5 => gen_alternate(r, deep),
            _ => gen_merge(r, deep),
        }
    }
    fn run(&self, p: &Plan) -> Res {
        match p.scenario.as_str() {
            "threads" => with_float!(p, threads(p)),
            "alternate" => with_float!(p, alternate(p)),
            _ => with_float!(p, merge(p)),
        }
    }
}

/// The configuration a worker or session derives from its own seed.
fn sub_cfg(algo: i64, seed: i64, pop: i64, goal: i64, dim: i64) -> Plan {
    let mut r = Rng::new(seed as u64);
    let mut q = Plan::new("C17", "part", 0);
    gen_cfg(&mut r, &mut q, algo.clamp(0, 1), false);
    let pop = pop.clamp(1, 12);
    q.set("eval_ns", seed % 3 * 700_000);
    q.set("pop", pop).set("dim", dim).set("goal", goal.clamp(0, GOAL_KINDS));
    if algo == 0 {
        let fam = q.p["fam"].min(pop + 2);
        q.set("fam", fam);
        let limit = q.p["limit"].min(pop + 3);
        q.set("limit", limit);
    }
    q
}

type Sol = Option<(X, u64)>;

/// One run of a campaign, as it was observed.
#[derive(Clone, PartialEq, Debug, Default)]
struct Rec {
    row: Vec<Sol>,
    result: Sol,
    calls: usize,
}

// ------------------------------------------------------------------ threads

fn gen_threads(r: &mut Rng, deep: bool) -> Plan {
    let mut p = Plan::new("C17", "threads", 0);
    p.set("f32", r.range(0, 1));
    p.set("dim", r.size(1, 4));
    let w = r.range(2, if deep { 6 } else { 4 });
    let same = r.chance(1, 4);
    let cfg = r.range(0, 1 << 40);
    for i in 0..w {
        let s = if same { cfg } else { cfg + i };
        let goal = if r.chance(1, 2) { r.range(0, 5) } else { r.range(0, GOAL_KINDS) };
        let a = [r.range(0, 1), s, r.size(1, 6), goal, r.range(1, 3), r.size(0, 8), r.range(0, 15)];
        p.op("wk", &a);
    }
    p.set("quantum", *r.pick(&[1, 3, 10, 30, 100, 1000]));
    for _ in 0..r.below(3) {
        let a = [r.range(0, w - 1), r.range(0, 200), r.range(1, 400)];
        p.op("stall", &a);
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            let a = [r.range(0, w - 1), r.range(0, 250)];
            p.op("crash", &a);
        }
    }
    p
}

struct Trace<F> {
    ev: Vec<Ev>,
    text: Vec<u8>,
    parts: Vec<(Statistics<Vec<F>>, CallCountData, Vec<Rec>)>,
    crashed: bool,
    coll: Coll,
    fail: Option<Violation>,
}

fn campaign<F: Fl>(p: &Plan, w: usize, wk: &Op, send: &mut dyn FnMut(usize)) -> Trace<F> {
    let mut t = Trace { ev: vec![], text: vec![], parts: vec![], crashed: false, coll: Coll::default(), fail: None };
    let mut q = sub_cfg(wk.arg(0), wk.arg(1), wk.arg(2), wk.arg(3), p.get("dim", 1, 1, 8));
    for o in p.ops_of("crash") {
        if o.arg(0) == w as i64 {
            q.op("tp", &[o.arg(1)]);
        }
    }
    let runs = wk.argc(4, 0, 12);
    let iters = wk.argc(5, 0, 60) as usize;
    let mode = wk.arg(6);
    let per_run = mode & 1 == 0;
    let reuse = mode & 2 != 0;
    let stats: Leak<Statistics<Vec<F>>> = Leak::new(Statistics::new());
    let counts: Leak<CallCountData> = Leak::new(CallCountData::new());
    let text: Leak<Vec<u8>> = Leak::new(vec![]);
    let mut all: Statistics<Vec<F>> = Statistics::new();
    let mut all_counts = CallCountData::new();
    let mut all_recs: Vec<Rec> = vec![];
    let rig = Rig::new(goal_spec(&q));
    for o in q.ops_of("tp") {
        rig.panic_taps.borrow_mut().insert(o.argc(0, 0, i64::MAX) as u64);
    }
    let cfg = Cfg::of(&q);
    let sim: Leak<SimGoal> = Leak::new(SimGoal { rig: rig.clone() });
    let mut opt: Option<Opt<F>> = None;
    for n in 0..runs {
        *stats.lend() = Statistics::new();
        *counts.lend() = CallCountData::new();
        if mode & 4 == 0 {
            counts.lend().next_run();
        }
        if opt.is_none() || !reuse {
            opt = None;
            let mut stops: Vec<Box<dyn StopChecker<Vec<F>>>> = vec![Box::new(MaxIterations::new(iters))];
            if mode & 8 != 0 {
                stops.push(Box::new(GoalNotChange::new(2, 0.5)));
                stops.push(Box::new(Threshold::new(-1e6)));
            }
            let stop = Box::new(TapStop { inner: Box::new(CompositeAny::new(stops)), rig: rig.clone() });
            let goal = Box::new(GoalCalcStatistics::new(sim.lend() as &'static mut dyn Goal<Vec<F>>, counts.lend()));
            let mut o = cfg.build_with::<F>(&rig, stop, goal);
            let l: Vec<Box<dyn Logger<Vec<F>>>> = vec![
                Box::new(RecLogger { rig: rig.clone(), l: 0 }),
                Box::new(StatisticsLogger::new(stats.lend())),
                Box::new(VerboseLogger::new(text.lend() as &'static mut dyn io::Write, 6)),
                Box::new(ResultOnlyLogger::new(text.lend() as &'static mut dyn io::Write, 9)),
                Box::new(TimeLogger::new(text.lend() as &'static mut dyn io::Write)),
            ];
            o.set_loggers(l);
            opt = Some(o);
        } else {
            stat::hit("probe.reused_optimizer");
        }
        let from = rig.ev.borrow().len();
        rig.push(Ev::Begin);
        let o = opt.as_mut().unwrap();
        let out = match guard(|| o.find_min()) {
            Ok(Some(s)) => s.map(|(x, v)| (x.x(), fbits(v))),
            Ok(None) => {
                stat::hit("fault.worker_crashed");
                rig.push(Ev::Abort);
                t.crashed = true;
                break;
            }
            Err(v) => {
                t.fail = Some(Violation { tag: v.tag, detail: format!("worker {} run {}: {}", w, n, v.detail) });
                break;
            }
        };
        rig.push(Ev::End(out.clone()));
        let mut rec = Rec { result: out, ..Rec::default() };
        for e in &rig.ev.borrow()[from..] {
            match e {
                Ev::Log { what: Lg::Iter, st, .. } => rec.row.push(st.best.clone()),
                Ev::Eval(..) => rec.calls += 1,
                _ => {}
            }
        }
        let (s, c) = (stats.get().clone(), counts.get().clone());
        if per_run {
            t.parts.push((s, c, vec![rec]));
            send(t.parts.len() - 1);
        } else {
            all.unite(s);
            all_counts.unite(c);
            all_recs.push(rec);
        }
    }
    drop(opt);
    if !per_run && !t.crashed && t.fail.is_none() {
        t.parts.push((all, all_counts, all_recs));
        send(t.parts.len() - 1);
    }
    t.ev = rig.take();
    t.text = text.get().clone();
    t
}

fn worker<F: Fl>(p: Plan, w: usize, wk: Op, baton: Option<Arc<Baton>>, arrivals: Arc<Mutex<Vec<(usize, usize)>>>) -> thread::JoinHandle<Trace<F>>
where
    F: Send,
{
    thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            stat::reset();
            let mut seam = simseam::Seam::new(mix(p.seed ^ (w as u64) << 48));
            let seat = baton.as_ref().map(|b| Seat { baton: b.clone(), me: w });
            if let Some(b) = &baton {
                b.enter(w);
                seam.hook = Some(b.hook(w));
            }
            simseam::install(seam);
            let mut t = campaign::<F>(&p, w, &wk, &mut |part| arrivals.lock().unwrap().push((w, part)));
            simseam::with(|s| s.hook = None);
            close_seam();
            t.coll = stat::take();
            drop(seat);
            t
        })
        .expect("spawn")
}

fn threads<F: Fl + Send>(p: &Plan) -> Res {
    let wks: Vec<Op> = p.ops_of("wk").take(8).cloned().collect();
    if wks.is_empty() {
        return Ok(());
    }
    stat::hit("probe.threads");
    let lost = |w: usize| Violation { tag: "panic".into(), detail: format!("worker {}: the thread panicked", w) };
    let nobody = Arc::new(Mutex::new(vec![]));
    let mut solo = vec![];
    for (w, wk) in wks.iter().enumerate() {
        let t = worker::<F>(p.clone(), w, wk.clone(), None, nobody.clone()).join().map_err(|_| lost(w))?;
        if let Some(v) = t.fail {
            return Err(v);
        }
        solo.push(t);
    }
    let stalls = p.ops_of("stall").map(|o| Stall { worker: o.argc(0, 0, 8) as usize, from: o.argc(1, 0, 1 << 40) as u64, len: o.argc(2, 0, 1 << 40) as u64 }).collect();
    let baton = Baton::new(wks.len(), mix(p.seed ^ 0xba70), p.get("quantum", 10, 1, 100_000), stalls);
    let arrivals = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = wks.iter().enumerate().map(|(w, wk)| worker::<F>(p.clone(), w, wk.clone(), Some(baton.clone()), arrivals.clone())).collect();
    let ts: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
    let mut together = vec![];
    for (w, t) in ts.into_iter().enumerate() {
        together.push(t.map_err(|_| lost(w))?);
    }
    let rep = baton.report();
    stat::add("probe.switches", rep.switches);
    stat::add("fault.worker_stalled", rep.stalled);
    stat::add("sched.blocked_holder", rep.overtaken);
    if rep.switches > wks.len() as u64 + 2 {
        stat::nontrivial();
    }
    for t in &mut together {
        stat::merge(std::mem::take(&mut t.coll));
    }
    stat::mark(rep.hash);
    for (w, (a, b)) in solo.iter().zip(&together).enumerate() {
        if let Some(v) = &b.fail {
            return Err(Violation { tag: v.tag.clone(), detail: format!("among others, not alone: {}", v.detail) });
        }
        same_events(&format!("worker {}", w), &a.ev, &b.ev)?;
        if a.text != b.text {
            return bad("interference", format!("worker {} alone logged:\n{}\namong others:\n{}", w, String::from_utf8_lossy(&a.text), String::from_utf8_lossy(&b.text)));
        }
        if !b.text.is_empty() {
            stat::hit("probe.log_text");
        }
        if a.crashed != b.crashed || a.parts.len() != b.parts.len() {
            return bad("interference", format!("worker {} alone sent {} messages (crashed: {}), among others {} ({})", w, a.parts.len(), a.crashed, b.parts.len(), b.crashed));
        }
        stat::hit("probe.workers_equal_solo");
    }
    // what arrived, in the order of arrival
    let order = arrivals.lock().unwrap().clone();
    stat::add("probe.messages", order.len() as u64);
    if order.windows(2).any(|w| w[0].0 > w[1].0) {
        stat::hit("probe.out_of_order");
    }
    let parts: Vec<Part<F>> = order
        .iter()
        .map(|(w, i)| {
            let (s, c, r) = &together[*w].parts[*i];
            Part { st: s.clone(), cc: c.clone(), recs: r.clone() }
        })
        .collect();
    united(p, parts)
}

fn same_events(who: &str, alone: &[Ev], among: &[Ev]) -> Res {
    for i in 0..alone.len().max(among.len()) {
        if alone.get(i) != among.get(i) {
            return bad("interference", format!("{}: event {} alone {:?}, among others {:?}", who, i, alone.get(i), among.get(i)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ alternate

fn gen_alternate(r: &mut Rng, deep: bool) -> Plan {
    let mut p = Plan::new("C17", "alternate", 0);
    p.set("f32", r.range(0, 1));
    p.set("dim", r.size(1, 4));
    let k = r.range(2, 3);
    let same = r.chance(1, 3);
    let cfg = r.range(0, 1 << 40);
    let algo = r.range(0, 1);
    for i in 0..k {
        let a = if same { [i, algo, cfg, 4, 3] } else { [i, r.range(0, 1), cfg + i, r.size(1, 8), r.range(0, GOAL_KINDS)] };
        p.op("cfg", &a);
    }
    let n = r.range(2, if deep { 16 } else { 9 });
    let mut first = vec![true; k as usize];
    for _ in 0..n {
        let i = r.range(0, k - 1);
        let kind = if first[i as usize] || r.chance(1, 6) { 0 } else { *r.pick(&[1, 1, 1, 2]) };
        first[i as usize] = false;
        let t = if kind == 2 { r.range(1, 31) } else { r.size(0, 6) };
        p.op("s", &[i, kind, t]);
    }
    for _ in 0..r.below(7) {
        let a = [r.range(0, k - 1), r.range(1, 300), r.range(0, k - 1)];
        p.op("nest", &a);
    }
    for _ in 0..r.below(4) {
        let a = [r.range(0, k - 1), *r.pick(&[1, 2, 3, 4, 4]), r.range(0, 40)];
        p.op("gfk", &a);
    }
    for _ in 0..r.below(3) {
        let a = [r.range(0, k - 1), r.range(0, 200)];
        p.op("tpk", &a);
    }
    p
}

const KS: usize = 4;

fn part_plan(p: &Plan, k: usize) -> Plan {
    let c = p.ops_of("cfg").find(|o| o.arg(0) == k as i64).cloned().unwrap_or(Op { k: "cfg".into(), a: vec![k as i64, 0, 1, 2, 5] });
    let mut q = sub_cfg(c.arg(1), c.arg(2), c.arg(3), c.arg(4), p.get("dim", 1, 1, 8));
    q.set("stop_mode", c.arg(2) & 1);
    for o in p.ops_of("gfk").filter(|o| o.arg(0) == k as i64) {
        q.op("gf", &[o.arg(1), o.arg(2)]);
    }
    for o in p.ops_of("tpk").filter(|o| o.arg(0) == k as i64) {
        q.op("tp", &[o.arg(1)]);
    }
    q
}

fn session_op(o: &Op) -> Op {
    let (k, hi) = match o.argc(1, 0, 2) {
        0 => ("run", 60),
        1 => ("more", 60),
        _ => ("rep", 31),
    };
    Op { k: k.into(), a: vec![o.argc(2, 0, hi)] }
}

struct Slot<F: Fl> {
    sess: Option<Session<F>>,
    seam: Option<simseam::Seam>,
    queue: VecDeque<Op>,
    nests: BTreeMap<u64, usize>,
    steps: u64,
}

type Slots<F> = Rc<RefCell<Vec<Slot<F>>>>;

fn advance<F: Fl>(slots: &Slots<F>, k: usize, depth: usize) {
    let (mut sess, mut seam, op) = {
        let mut s = slots.borrow_mut();
        let Some(slot) = s.get_mut(k) else { return };
        if slot.sess.is_none() || slot.queue.is_empty() {
            return;
        }
        (slot.sess.take().unwrap(), slot.seam.take().unwrap(), slot.queue.pop_front().unwrap())
    };
    if depth > 0 {
        stat::hit("probe.nested");
        stat::nontrivial();
        if depth > 1 {
            stat::hit("probe.nested_twice");
        }
    }
    let again = slots.clone();
    seam.hook = Some(Rc::new(move |_| {
        let next = {
            let mut s = again.borrow_mut();
            s[k].steps += 1;
            let n = s[k].steps;
            s[k].nests.get(&n).copied()
        };
        if let Some(b) = next {
            advance(&again, b, depth + 1);
        }
    }));
    let outer = simseam::install(seam);
    let r = sess.step(&op);
    let mut seam = simseam::uninstall().unwrap();
    if let Some(o) = outer {
        simseam::install(o);
    }
    seam.hook = None;
    if let Err(v) = r {
        stat::fail(&v.tag, format!("session {}: {}", k, v.detail));
    }
    let mut s = slots.borrow_mut();
    s[k].sess = Some(sess);
    s[k].seam = Some(seam);
}

fn alternate<F: Fl + Send>(p: &Plan) -> Res {
    stat::hit("probe.alternate");
    let mut queues: Vec<VecDeque<Op>> = vec![VecDeque::new(); KS];
    for o in p.ops_of("s") {
        queues[o.argc(0, 0, KS as i64 - 1) as usize].push_back(session_op(o));
    }
    let stream = |k: usize| simseam::Seam::new(mix(p.seed ^ (k as u64) << 40 ^ 0xa17));
    // each alone, in a thread of its own
    let mut solo: Vec<Vec<Ev>> = vec![];
    for k in 0..KS {
        let (q, ops, seam_seed) = (part_plan(p, k), queues[k].clone(), mix(p.seed ^ (k as u64) << 40 ^ 0xa17));
        if ops.is_empty() {
            solo.push(vec![]);
            continue;
        }
        let h = thread::Builder::new().stack_size(4 << 20).spawn(move || -> Result<Vec<Ev>, Violation> {
            simseam::install(simseam::Seam::new(seam_seed));
            let mut s: Session<F> = Session::new(&q);
            for o in &ops {
                s.step(o)?;
            }
            let ev = s.rig.take();
            drop(s);
            simseam::uninstall();
            Ok(ev)
        });
        solo.push(h.expect("spawn").join().map_err(|_| Violation { tag: "panic".into(), detail: format!("session {} alone panicked", k) })??);
    }
    let slots: Slots<F> = Rc::new(RefCell::new(vec![]));
    for k in 0..KS {
        let outer = simseam::install(stream(k));
        let sess = Session::new(&part_plan(p, k));
        let seam = simseam::uninstall();
        if let Some(o) = outer {
            simseam::install(o);
        }
        let nests = p.ops_of("nest").filter(|o| o.argc(0, 0, KS as i64 - 1) == k as i64).map(|o| (o.argc(1, 1, 1 << 30) as u64, o.argc(2, 0, KS as i64 - 1) as usize)).collect();
        slots.borrow_mut().push(Slot { sess: Some(sess), seam, queue: queues[k].clone(), nests, steps: 0 });
    }
    let order: Vec<usize> = p.ops_of("s").map(|o| o.argc(0, 0, KS as i64 - 1) as usize).collect();
    if order.windows(2).any(|w| w[0] != w[1]) {
        stat::nontrivial();
    }
    for k in order.iter().copied().chain(0..KS) {
        advance(&slots, k, 0);
    }
    for k in 0..KS {
        let s = slots.borrow();
        let ev = s[k].sess.as_ref().unwrap().rig.take();
        same_events(&format!("session {}", k), &solo[k], &ev)?;
    }
    // sessions own their rigs, the slots own the sessions: break the cycle
    let v: Vec<Slot<F>> = std::mem::take(&mut *slots.borrow_mut());
    drop(v);
    Ok(())
}

// ------------------------------------------------------------------ merge

fn gen_merge(r: &mut Rng, deep: bool) -> Plan {
    let mut p = Plan::new("C17", "merge", 0);
    p.set("f32", r.range(0, 1));
    p.set("dim", if r.chance(1, 60) { r.range(6, 140) } else { r.size(1, 5) });
    p.set("spread", r.range(0, 4));
    let w = r.range(1, if deep { 9 } else { 6 });
    let fail = *r.pick(&[0, 10, 30, 60, 100]);
    let hole = *r.pick(&[0, 0, 10, 50, 100]);
    let odd = *r.pick(&[0, 0, 0, 10, 40]);
    let len = r.size(0, 9);
    for _ in 0..w {
        let runs = if r.chance(1, 300) { r.range(6, 150) } else { r.size(0, 5) };
        p.op("part", &[r.range(0, 1 << 40)]);
        for _ in 0..runs {
            let l = if r.chance(1, 3) {
                len
            } else if r.chance(1, 150) {
                r.range(10, 300)
            } else {
                r.size(0, 9)
            };
            let a = [r.range(0, 1 << 40), l, r.chance(fail, 100) as i64, hole as i64, odd as i64, if r.chance(1, 20) { r.range(0, 1 << 40) } else { r.range(0, 50) }];
            p.op("rec", &a);
        }
    }
    p.set("order", r.range(0, 1 << 40));
    p
}

struct Fake<F> {
    sol: Option<(Vec<F>, f64)>,
    iter: usize,
}
impl<F: Fl> AlgorithmState<Vec<F>> for Fake<F> {
    fn get_best_solution(&self) -> Option<(Vec<F>, f64)> {
        self.sol.clone()
    }
    fn get_iteration(&self) -> usize {
        self.iter
    }
}

struct Part<F> {
    st: Statistics<Vec<F>>,
    cc: CallCountData,
    recs: Vec<Rec>,
}

fn merge<F: Fl>(p: &Plan) -> Res {
    stat::hit("probe.merge");
    let dim = p.get("dim", 1, 1, 140) as usize;
    let spread = p.get("spread", 0, 0, 4);
    let mut parts: Vec<Part<F>> = vec![];
    for o in &p.ops {
        match o.k.as_str() {
            "part" => parts.push(Part { st: Statistics::new(), cc: CallCountData::new(), recs: vec![] }),
            "rec" => {
                let Some(part) = parts.last_mut() else { continue };
                let mut r = Rng::new(o.arg(0) as u64);
                let (fail, hole, odd) = (o.arg(2) != 0, o.argc(3, 0, 100) as u64, o.argc(4, 0, 100) as u64);
                let mut value = |r: &mut Rng| -> f64 {
                    if r.chance(odd, 100) {
                        let k = r.u64();
                        return *r.pick(&[nan_of(k), f64::INFINITY, f64::NEG_INFINITY]);
                    }
                    match spread {
                        0 => r.range(-8, 8) as f64,
                        1 => r.range(-8, 8) as f64 * 1024.0,
                        2 => r.range(0, 3) as f64,
                        // far from zero and close to one another
                        4 => (1u64 << 25) as f64 + r.range(0, 1023) as f64 / 1024.0,
                        _ => r.range(-8, 8) as f64 + r.range(0, 1023) as f64 / 1024.0,
                    }
                };
                let mut sol = |r: &mut Rng, none: bool| -> Option<(Vec<F>, f64)> {
                    if none {
                        return None;
                    }
                    Some(((0..dim).map(|_| F::of(value(r))).collect(), value(r)))
                };
                let mut row = vec![];
                for _ in 0..o.argc(1, 0, 300) {
                    let none = r.chance(hole, 100);
                    row.push(sol(&mut r, none));
                }
                let result = sol(&mut r, fail);
                let calls = o.argc(5, 0, 1 << 40) as usize;
                let rec = Rec { row: row.iter().map(|s| s.as_ref().map(|(x, v)| (x.x(), fbits(*v)))).collect(), result: result.as_ref().map(|(x, v)| (x.x(), fbits(*v))), calls };
                must(|| {
                    let mut l = StatisticsLogger::new(&mut part.st);
                    l.start(&Fake { sol: None, iter: 0 });
                    l.resume(&Fake { sol: None, iter: 0 });
                    for (i, s) in row.iter().enumerate() {
                        l.next_iteration(&Fake { sol: s.clone(), iter: i });
                    }
                    l.finish(&Fake { sol: result.clone(), iter: row.len() });
                    part.cc.next_run();
                    if r.chance(1, 2) {
                        part.cc.add(calls);
                    } else {
                        for _ in 0..calls.min(200) {
                            part.cc.increment();
                        }
                        part.cc.add(calls - calls.min(200));
                    }
                })?;
                rec.row.iter().chain([&rec.result]).for_each(|s| stat::mark(s.as_ref().map_or(3, |(x, v)| hash_x(x, *v))));
                part.recs.push(rec);
            }
            _ => {}
        }
    }
    for part in &parts {
        if part.recs.is_empty() {
            stat::hit("probe.empty_part");
        }
    }
    // any order of arrival
    let mut r = Rng::new(p.get("order", 0, 0, i64::MAX) as u64);
    for i in (1..parts.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        parts.swap(i, j);
    }
    if parts.len() > 1 {
        stat::nontrivial();
    }
    united(p, parts)
}

/// Unite the parts one after another and as a tree, and check everything the
/// union says.
fn united<F: Fl>(p: &Plan, parts: Vec<Part<F>>) -> Res {
    let want: Vec<Rec> = parts.iter().flat_map(|x| x.recs.clone()).collect();
    for (i, part) in parts.iter().enumerate() {
        aligned(&format!("part {}", i), part, &part.recs)?;
    }
    // left to right into an empty one
    let mut all = Part { st: Statistics::new(), cc: CallCountData::new(), recs: vec![] };
    for part in &parts {
        must(|| {
            all.st.unite(part.st.clone());
            all.cc.unite(part.cc.clone());
        })?;
    }
    aligned("united one after another", &all, &want)?;
    aggregates("united one after another", &all, &want)?;
    // neighbours first, in random places
    let mut r = Rng::new(p.seed ^ 0x7ee);
    let mut nodes: VecDeque<Part<F>> = parts.into();
    while nodes.len() > 1 {
        stat::hit("probe.tree");
        let i = r.below(nodes.len() as u64 - 1) as usize;
        let b = nodes.remove(i + 1).unwrap();
        let a = &mut nodes[i];
        must(|| {
            a.st.unite(b.st);
            a.cc.unite(b.cc);
        })?;
        a.recs.extend(b.recs);
        if r.chance(1, 4) {
            let a = &nodes[i];
            aligned("a subtree", a, &a.recs)?;
        }
    }
    if let Some(a) = nodes.front() {
        aligned("united as a tree", a, &want)?;
        aggregates("united as a tree", a, &want)?;
    }
    Ok(())
}

fn aligned<F: Fl>(what: &str, part: &Part<F>, want: &[Rec]) -> Res {
    let (n, res, conv, calls) = (part.st.get_run_count(), part.st.get_results(), part.st.get_convergence(), part.cc.get_call_count());
    if n != want.len() || res.len() != want.len() || conv.len() != want.len() || calls.len() != want.len() {
        return bad("runs-lost", format!("{}: {} runs, {} results, {} convergence rows, {} call counts for {} runs", what, n, res.len(), conv.len(), calls.len(), want.len()));
    }
    let sol = |s: &Option<(Vec<F>, f64)>| -> Sol { s.as_ref().map(|(x, v)| (x.x(), fbits(*v))) };
    for (i, w) in want.iter().enumerate() {
        let got = Rec { row: conv[i].iter().map(sol).collect(), result: sol(&res[i]), calls: calls[i] };
        if got != *w {
            return bad("runs-mixed-up", format!("{}: run {} in order of arrival is recorded as {:?}, was {:?}", what, i, got, w));
        }
    }
    Ok(())
}

fn finite(vs: &[f64]) -> bool {
    vs.iter().all(|v| v.is_finite() && v.abs() < 1e9)
}

fn mean(vs: &[f64]) -> f64 {
    vs.iter().sum::<f64>() / vs.len() as f64
}

fn sample_std(vs: &[f64]) -> f64 {
    let m = mean(vs);
    (vs.iter().map(|v| (v - m) * (v - m)).sum::<f64>() / (vs.len() as f64 - 1.0)).sqrt()
}

fn close(got: f64, want: f64, scale: f64, single: bool) -> bool {
    (got - want).abs() <= scale * if single { 2e-5 } else { 1e-11 } + want.abs() * 1e-9
}

fn scale(vs: &[f64]) -> f64 {
    vs.iter().fold(1e-9, |a: f64, v| a.max(v.abs()))
}

fn aggregates<F: Fl>(what: &str, part: &Part<F>, want: &[Rec]) -> Res {
    let single = std::mem::size_of::<F>() == 4;
    let res = part.st.get_results();
    let ok: Vec<(Vec<F>, f64)> = want.iter().filter_map(|r| r.result.as_ref()).map(|(x, v)| (x.iter().map(|b| F::of_bits(*b)).collect(), fval(*v))).collect();
    let goals: Vec<f64> = ok.iter().map(|s| s.1).collect();
    if ok.len() < want.len() {
        stat::hit("probe.failed_runs");
    }
    let wrong = |name: &str, got: String, want: String| bad("wrong-aggregate", format!("{}: {} is {}, recomputed from the runs {}", what, name, got, want));
    // goal
    let avg = must(|| res.get_average_goal())?;
    match (avg, ok.is_empty()) {
        (None, true) => stat::hit("probe.no_success"),
        (Some(a), false) if !finite(&goals) || close(a, mean(&goals), scale(&goals), false) => {}
        _ => return wrong("the average goal", format!("{:?}", avg), format!("{:?} of {:?}", mean(&goals), goals)),
    }
    let std = must(|| res.get_standard_deviation_goal())?;
    match (std, ok.len() < 2) {
        (None, true) => {
            if ok.len() == 1 {
                stat::hit("probe.one_success");
            }
        }
        (Some(s), false) if !finite(&goals) || close(s, sample_std(&goals), scale(&goals), false) => stat::hit("probe.std"),
        _ => return wrong("the standard deviation of the goal", format!("{:?}", std), format!("{:?} of {:?}", sample_std(&goals), goals)),
    }
    // solutions
    let dim = ok.first().map_or(0, |s| s.0.len());
    let column = |d: usize| -> Vec<f64> { ok.iter().map(|s| s.0[d].d()).collect() };
    let avg = must(|| res.get_average())?;
    let std = must(|| res.get_standard_deviation())?;
    if avg.is_some() != (ok.len() >= 1) || std.is_some() != (ok.len() >= 2) {
        return wrong("presence of average and standard deviation of the solutions", format!("{:?}, {:?}", avg.is_some(), std.is_some()), format!("{} solutions", ok.len()));
    }
    for (name, got, by) in [("the average solution", &avg, mean as fn(&[f64]) -> f64), ("the standard deviation of the solutions", &std, sample_std)] {
        if let Some((x, v)) = got {
            if x.len() != dim || finite(&goals) && !close(*v, by(&goals), scale(&goals), false) {
                return wrong(name, format!("{:?}", got), format!("dimension {}, goal {:?}", dim, by(&goals)));
            }
            for d in 0..dim {
                let c = column(d);
                if finite(&c) && !close(x[d].d(), by(&c), scale(&c), single) {
                    return wrong(name, format!("{:?} in dimension {}", x, d), format!("{:?}", by(&c)));
                }
            }
        }
    }
    // convergence
    let conv = part.st.get_convergence();
    let min = want.iter().map(|r| r.row.len()).min().unwrap_or(0);
    let got = must(|| conv.get_average_convergence())?;
    if conv.get_min_iterations() != min || got.len() != min {
        return wrong("the length of the average convergence", format!("{} (minimal iterations {})", got.len(), conv.get_min_iterations()), format!("{}", min));
    }
    for i in 0..min {
        let vs: Vec<f64> = want.iter().filter_map(|r| r.row[i].as_ref()).map(|s| fval(s.1)).collect();
        stat::hit("probe.convergence");
        match (got[i], vs.is_empty()) {
            (None, true) => stat::hit("probe.convergence_hole"),
            (Some(a), false) if !finite(&vs) || close(a, mean(&vs), scale(&vs), false) => {}
            (g, _) => return wrong("the average convergence", format!("{:?} at iteration {}", g, i + 1), format!("{:?} of {:?}", mean(&vs), vs)),
        }
    }
    // success
    let total = want.len();
    for (e, d) in [(0.0, 0.4), (0.0, 2.55), (1.0, 1.45), (-3.0, 4.52), (0.0, 5000.1), (2.0, f64::INFINITY)] {
        let n = goals.iter().filter(|g| (**g - e).abs() < d).count();
        // stay away from the boundary
        if goals.iter().any(|g| ((*g - e).abs() - d).abs() < 1e-9) {
            continue;
        }
        let got = must(|| res.get_success_rate(get_predicate_success_goal(e, d)))?;
        stat::hit("probe.rate_goal");
        rate(what, &format!("the rate of goals within {} of {}", d, e), got, n, total)?;
        let n = ok.iter().filter(|s| s.0.iter().all(|x| (x.d() - e).abs() <= d)).count();
        if ok.iter().any(|s| s.0.iter().any(|x| x.is_nan())) {
            stat::hit("probe.nan_coordinate");
        }
        if d.is_infinite() || ok.iter().any(|s| s.0.iter().any(|x| ((x.d() - e).abs() - d).abs() < 1e-3)) {
            continue;
        }
        let got = must(|| res.get_success_rate(get_predicate_success_vec_solution(vec![F::of(e); dim], vec![F::of(d); dim])))?;
        stat::hit("probe.rate_solution");
        rate(what, &format!("the rate of solutions within {} of {}", d, e), got, n, total)?;
    }
    // one delta per dimension
    if dim > 0 {
        let e: Vec<f64> = (0..dim).map(|d| d as f64 - 1.0).collect();
        let dl: Vec<f64> = (0..dim).map(|d| if d % 2 == 0 { 3.45 } else { 6000.45 }).collect();
        let near = |s: &(Vec<F>, f64)| s.0.iter().enumerate().all(|(i, x)| (x.d() - e[i]).abs() <= dl[i]);
        let edge = |s: &(Vec<F>, f64)| s.0.iter().enumerate().any(|(i, x)| ((x.d() - e[i]).abs() - dl[i]).abs() < 1e-3);
        if !ok.iter().any(edge) {
            let got = must(|| res.get_success_rate(get_predicate_success_vec_solution(e.iter().map(|v| F::of(*v)).collect(), dl.iter().map(|v| F::of(*v)).collect())))?;
            rate(what, "the rate of solutions near a point", got, ok.iter().filter(|s| near(s)).count(), total)?;
        }
    }
    // calls
    let got = part.cc.get_average_call_count();
    let calls: Vec<f64> = want.iter().map(|r| r.calls as f64).collect();
    match (got, total) {
        (None, 0) => {}
        (Some(g), n) if n > 0 && (g - mean(&calls)).abs() <= scale(&calls) * 1e-12 => {}
        _ => return wrong("the average call count", format!("{:?}", got), format!("{:?}", mean(&calls))),
    }
    Ok(())
}

fn rate(what: &str, name: &str, got: Option<f64>, n: usize, total: usize) -> Res {
    let ok = match got {
        None => total == 0,
        Some(g) => total > 0 && (g - n as f64 / total as f64).abs() < 1e-9,
    };
    if !ok {
        return bad("wrong-aggregate", format!("{}: {} is {:?}, recomputed from the runs {} of {}", what, name, got, n, total));
    }
    Ok(())
}
