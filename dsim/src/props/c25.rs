//! C25: neither observers nor clocks influence a run.
use crate::exec::Prop;
use crate::kit::*;
use crate::plan::{Op, Plan};
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Res, Violation};
use crate::with_float;
use optlib::tools::logging::{Logger, ResultOnlyLogger, TimeLogger, VerboseLogger};
use optlib::tools::statistics::{CallCountData, GoalCalcStatistics, Statistics, StatisticsLogger};
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal};
use std::io;

pub struct C25;

impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn runs(&self) -> (u64, u64) {
        (120_000, 1_500_000)
    }
    fn rule(&self) -> &'static str {
        "each session is executed bare and, on the same random stream and goal history, observed: any mix of the library's loggers (on writers that interrupt and shorten writes), statistics and counting goal, attached and replaced at arbitrary pauses, under slow and jumping clocks; every evaluation, stop check, population shown to a component and result must be the same; non-trivial: an observer saw an iteration"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.verbose", "probe.result_only", "probe.time", "probe.statistics", "probe.counting_goal", "probe.recorder", "probe.reader", "probe.reattached", "probe.genetic", "probe.swarm", "probe.resumed", "probe.rerun", "probe.aborted", "fault.goal_nan", "fault.goal_panic", "fault.short_write", "fault.write_interrupted", "fault.wall_clock_back", "fault.slow_evaluation", "fault.wild_component"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers and all components, VerboseLogger, ResultOnlyLogger, TimeLogger, StatisticsLogger, GoalCalcStatistics", "goal function, writers, clocks, stop decision")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C25", "observe", 0);
        gen_cfg(r, &mut p, -1, deep);
        p.set("pop", r.size(1, 10));
        if r.chance(1, 3) {
            p.set("wild", r.range(1, 30));
        }
        let mut total = gen_session(r, &mut p, false);
        if r.chance(1, 4) {
            total += gen_session(r, &mut p, false);
        }
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4, 6]);
        gen_windows(r, &mut p, evals * 3);
        // observers from the start, and others later
        p.set("obs", r.range(0, 1 << 14));
        for _ in 0..r.below(3) {
            let at = r.range(0, p.ops.len() as i64) as usize;
            p.ops.insert(at, Op { k: "obs".into(), a: vec![r.range(0, 1 << 14)] });
        }
        p.set("count", r.range(0, 1));
        p.set("loggers", 0);
        p.set("wsalt", r.range(0, 1 << 30));
        for _ in 0..r.below(4) {
            let a = [r.range(0, 2), r.range(0, evals), r.range(0, 400_000_000_000)];
            p.op("ck", &a);
        }
        p.set("eval_ns", *r.pick(&[0, 0, 1, 1_000_000, 7_000_000_000]));
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

/// Transient write trouble only.
struct Out {
    n: u64,
    salt: u64,
}
impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simseam::step("write");
        self.n += 1;
        match mix(self.n ^ self.salt) % 6 {
            0 => {
                stat::hit("fault.write_interrupted");
                Err(io::Error::new(io::ErrorKind::Interrupted, "simulated: interrupted"))
            }
            1 if b.len() > 1 => {
                stat::hit("fault.short_write");
                Ok(1 + (mix(self.n) % (b.len() as u64 - 1)) as usize)
            }
            _ => Ok(b.len()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A user's logger that reads everything it can, again and again.
struct Reader;
impl Reader {
    fn read<T: Point>(&mut self, s: &dyn AlgorithmState<T>) {
        let a = snap(s);
        if a != snap(s) {
            stat::fail("reading-changes", format!("a logger read {:?}, then {:?}", a, snap(s)));
        }
    }
}
impl<T: Point> Logger<T> for Reader {
    fn start(&mut self, s: &dyn AlgorithmState<T>) {
        self.read(s)
    }
    fn resume(&mut self, s: &dyn AlgorithmState<T>) {
        self.read(s)
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<T>) {
        self.read(s)
    }
    fn finish(&mut self, s: &dyn AlgorithmState<T>) {
        self.read(s)
    }
}

fn execute<F: Fl>(p: &Plan, observed: bool) -> Result<Vec<Ev>, Violation> {
    simseam::with(|s| s.reseed(p.seed));
    let salt = p.get("wsalt", 0, 0, i64::MAX) as u64;
    let stats: Leak<Statistics<Vec<F>>> = Leak::new(Statistics::new());
    let counts: Leak<CallCountData> = Leak::new(CallCountData::new());
    let outs: Vec<Leak<Out>> = (0..3).map(|i| Leak::new(Out { n: 0, salt: salt ^ i })).collect();
    let mut plan = p.clone();
    if !observed {
        plan.ops.retain(|o| o.k != "ck");
        plan.set("eval_ns", 0);
    }
    let mut s: Session<F> = Session::new(&plan);
    let sim: Leak<SimGoal> = Leak::new(SimGoal { rig: s.rig.clone() });
    let stop: Box<dyn StopChecker<Vec<F>>> = Box::new(TapStop { inner: Box::new(AtTarget { rig: s.rig.clone() }), rig: s.rig.clone() });
    let mut goal: Box<dyn Goal<Vec<F>>> = Box::new(SimGoal { rig: s.rig.clone() });
    if observed && p.flag("count") {
        stat::hit("probe.counting_goal");
        goal = Box::new(GoalCalcStatistics::new(sim.lend() as &'static mut dyn Goal<Vec<F>>, counts.lend()));
    }
    s.opt = s.cfg.build_with::<F>(&s.rig, stop, goal);
    s.rig.rec_agents.set(true);
    s.allow_unstarted = true;
    // mask: which observers (7 bits), then in which order (7 bits)
    let attach = |s: &mut Session<F>, mask: i64| {
        s.opt.set_loggers(vec![]);
        let mut l: Vec<Box<dyn Logger<Vec<F>>>> = vec![];
        let prec = (mask >> 7 & 7) as usize;
        for i in 0..7 {
            let i = (i + (mask >> 7)) % 7;
            if mask >> i & 1 == 0 {
                continue;
            }
            match i {
                0 => {
                    stat::hit("probe.verbose");
                    l.push(Box::new(VerboseLogger::new(outs[0].lend(), prec)));
                }
                1 => {
                    stat::hit("probe.result_only");
                    l.push(Box::new(ResultOnlyLogger::new(outs[1].lend(), prec)));
                }
                2 => {
                    stat::hit("probe.time");
                    l.push(Box::new(TimeLogger::new(outs[2].lend())));
                }
                3 => {
                    stat::hit("probe.statistics");
                    l.push(Box::new(StatisticsLogger::new(stats.lend())));
                }
                4 | 5 => {
                    stat::hit("probe.reader");
                    l.push(Box::new(Reader));
                }
                _ => {
                    stat::hit("probe.recorder");
                    l.push(Box::new(RecLogger { rig: s.rig.clone(), l: 0 }));
                }
            }
        }
        let any = !l.is_empty();
        s.opt.set_loggers(l);
        any
    };
    let mut seen = false;
    if observed {
        seen = attach(&mut s, p.get("obs", 0, 0, 1 << 14));
    }
    let mut runs = 0;
    for o in &plan.ops {
        match o.k.as_str() {
            "obs" if observed => {
                stat::hit("probe.reattached");
                seen = attach(&mut s, o.argc(0, 0, 1 << 14));
                continue;
            }
            "run" if observed && runs > 0 => stat::hit("probe.rerun"),
            "more" if observed => stat::hit("probe.resumed"),
            _ => {}
        }
        if s.step(o)? && o.k != "rep" {
            runs += 1;
            if observed {
                if s.iter > 0 && seen {
                    stat::nontrivial();
                }
                if s.aborted {
                    stat::hit("probe.aborted");
                }
                stat::hit(if s.cfg.pso { "probe.swarm" } else { "probe.genetic" });
            }
        }
    }
    let mut ev = s.rig.take();
    ev.retain(|e| !matches!(e, Ev::Log { .. }));
    Ok(ev)
}

fn go<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let bare = execute::<F>(p, false)?;
    let observed = execute::<F>(p, true)?;
    for i in 0..bare.len().max(observed.len()) {
        if bare.get(i) != observed.get(i) {
            return bad("influenced", format!("event {}: bare {:?}, observed {:?}", i, bare.get(i), observed.get(i)));
        }
    }
    Ok(())
}
