//! C14: log output is complete and exact through interrupted and short writes.
use crate::exec::{last_panic, Injected, Prop};
use crate::kit::*;
use crate::lab::{Dev, Writer};
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Res, Violation};
use crate::with_float;
use optlib::tools::logging::{Logger, ResultOnlyLogger, VerboseLogger};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct C14;

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn runs(&self) -> (u64, u64) {
        (240_000, 2_500_000)
    }
    fn rule(&self) -> &'static str {
        "sessions of optimizers with the verbose and result loggers on simulated writers that accept few bytes, interrupt, refuse or fail at chosen calls; text compared token by token with the recorded run and byte by byte with a faultless execution; non-trivial: a writer fault fired while text was written"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["fault.short_write", "fault.write_interrupted", "fault.write_zero", "fault.write_error", "fault.disk_full", "probe.lines", "probe.results", "probe.not_found", "probe.failure_reached_caller", "probe.tiny_chunks", "fault.goal_panic"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("VerboseLogger, ResultOnlyLogger, both optimizers", "writer (simulated device), goal function, stop decision")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C14", "write", 0);
        gen_cfg(r, &mut p, -1, deep);
        p.set("pop", r.size(1, 6));
        p.set("dim", if r.chance(1, 60) { r.range(7, 140) } else { r.size(1, 6) });
        let total = gen_session(r, &mut p, false);
        for w in 0..2 {
            p.set(["vprec", "rprec"][w], *r.pick(&[0, 1, 3, 6, 17, 25]));
            p.set(["vchunk", "rchunk"][w], *r.pick(&[0, 0, 0, 1, 2, 7, 30]));
            let hard = r.chance(1, 4);
            let upto = [total.max(1) * 2, 12][w];
            for _ in 0..r.below(8) {
                let a = [w as i64, r.range(0, upto), r.range(0, 1), r.range(1, 40)];
                p.op("wf", &a);
            }
            if hard {
                let a = [w as i64, r.range(0, upto), r.range(2, 4), r.range(0, 30)];
                p.op("wf", &a);
            }
        }
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4, 5]);
        p.set("order", r.range(0, 1));
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

fn number<F: Fl>(b: u64, prec: usize) -> String {
    format!("{:.*}", prec, F::of_bits(b))
}

/// Tokens the loggers must have written for the recorded events.
fn expected<F: Fl>(ev: &[Ev], vprec: usize, rprec: usize) -> (Vec<String>, Vec<String>) {
    let (mut v, mut r): (Vec<String>, Vec<String>) = (vec![], vec![]);
    for e in ev {
        if let Ev::Log { l: 0, what, st } = e {
            match (what, &st.best) {
                (Lg::Iter, Some((x, g))) => {
                    stat::hit("probe.lines");
                    v.push(st.iter.to_string());
                    v.extend(x.iter().map(|b| number::<F>(*b, vprec)));
                    v.push(format!("{:.*}", vprec, fval(*g)));
                    v.push("\n".into());
                }
                (Lg::Finish, best) => {
                    match best {
                        None => {
                            stat::hit("probe.not_found");
                            r.extend(["Solution", "not", "found"].iter().map(|s| s.to_string()));
                        }
                        Some((x, g)) => {
                            stat::hit("probe.results");
                            r.push("Solution:".into());
                            r.extend(x.iter().map(|b| number::<F>(*b, rprec)));
                            r.push("Goal:".into());
                            r.push(format!("{:.*}", rprec, fval(*g)));
                        }
                    }
                    r.extend(["Iterations", "count:", &st.iter.to_string()].iter().map(|s| s.to_string()));
                }
                _ => {}
            }
        }
    }
    (v, r)
}

fn tokens(bytes: &[u8], lines: bool) -> Vec<String> {
    let text = String::from_utf8_lossy(bytes);
    let mut t = vec![];
    for l in text.split_inclusive('\n') {
        t.extend(l.split_whitespace().map(|s| s.to_string()));
        if lines && l.ends_with('\n') {
            t.push("\n".into());
        }
    }
    t
}

struct Done {
    out: [Vec<u8>; 2],
    /// the segment in which a writer failed for good, and which one
    failed: Option<usize>,
    ev: Vec<Ev>,
    calls: u64,
}

fn execute<F: Fl>(p: &Plan, faults: bool) -> Result<Done, Violation> {
    simseam::with(|s| s.reseed(mix(p.seed)));
    let dev: Vec<Rc<RefCell<Dev>>> = (0..2).map(|_| Rc::new(RefCell::new(Dev::default()))).collect();
    if faults {
        for (w, k) in ["vchunk", "rchunk"].iter().enumerate() {
            dev[w].borrow_mut().chunk = p.get(k, 0, 0, 1 << 20) as usize;
            if dev[w].borrow().chunk == 1 {
                stat::hit("probe.tiny_chunks");
            }
        }
        for o in p.ops_of("wf") {
            dev[o.argc(0, 0, 1) as usize].borrow_mut().faults.insert(o.argc(1, 0, i64::MAX) as u64, (o.argc(2, 0, 4), o.arg(3)));
        }
    }
    let leak: Vec<Leak<Writer>> = dev.iter().map(|d| Leak::new(Writer(d.clone()))).collect();
    let mut s: Session<F> = Session::new(p);
    let v = Box::new(VerboseLogger::new(leak[0].lend(), p.get("vprec", 3, 0, 40) as usize));
    let r = Box::new(ResultOnlyLogger::new(leak[1].lend(), p.get("rprec", 3, 0, 40) as usize));
    let rec = Box::new(RecLogger { rig: s.rig.clone(), l: 0 });
    let l: Vec<Box<dyn Logger<Vec<F>>>> = if p.flag("order") { vec![rec, r, v] } else { vec![rec, v, r] };
    s.opt.set_loggers(l);
    let mut failed = None;
    for (i, o) in p.ops.iter().enumerate() {
        if !matches!(o.k.as_str(), "run" | "more" | "rep") {
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| s.step(o)));
        let dead = dev.iter().any(|d| d.borrow().failed);
        match r {
            // the session turns foreign panics into violations
            Ok(Err(_)) | Err(_) if dead => {
                stat::hit("probe.failure_reached_caller");
                failed = Some(i);
                break;
            }
            Ok(Err(v)) => return Err(v),
            Err(e) if e.is::<Injected>() => {}
            Err(_) => return bad("panic", format!("unexpected panic: {}", last_panic())),
            Ok(Ok(_)) if dead => return bad("failure-hidden", format!("operation {} ({}): a writer failed for good, but the call returned normally", i, o.k)),
            Ok(Ok(_)) => {}
        }
    }
    let calls = dev.iter().map(|d| d.borrow().calls).sum();
    let ev = s.rig.take();
    drop(s);
    let out = [dev[0].borrow().out.clone(), dev[1].borrow().out.clone()];
    Ok(Done { out, failed, ev, calls })
}

fn go<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let faulty = execute::<F>(p, true)?;
    let hit = ["fault.short_write", "fault.write_interrupted", "fault.write_zero", "fault.write_error", "fault.disk_full"].iter().any(|k| stat::get(k) > 0);
    if hit && faulty.calls > 0 {
        stat::nontrivial();
    }
    let clean = execute::<F>(p, false)?;
    let (v, r) = expected::<F>(&clean.ev, p.get("vprec", 3, 0, 40) as usize, p.get("rprec", 3, 0, 40) as usize);
    for (name, want, got) in [("verbose", &v, tokens(&clean.out[0], true)), ("result", &r, tokens(&clean.out[1], false))] {
        if *want != got {
            let k = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
            return bad("wrong-text", format!("{} logger: token {} is {:?}, expected {:?}\n{}", name, k, got.get(k), want.get(k), String::from_utf8_lossy(&clean.out[if name == "verbose" { 0 } else { 1 }]).chars().take(600).collect::<String>()));
        }
    }
    for w in 0..2 {
        let (a, b) = (&faulty.out[w], &clean.out[w]);
        stat::mark(hash_x(&[a.len() as u64, b.len() as u64], w as u64));
        let ok = if faulty.failed.is_some() { b.starts_with(a) } else { a == b };
        if !ok {
            let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
            let cut = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(30)..(k + 60).min(v.len())]).to_string();
            return bad("text-lost", format!("the {} logger's output differs from byte {} on ({} bytes through the faulty writer, {} otherwise{}):\n  faulty {:?}\n  clean  {:?}", ["verbose", "result"][w], k, a.len(), b.len(), if faulty.failed.is_some() { "; a prefix is due" } else { "" }, cut(a), cut(b)));
        }
    }
    Ok(())
}
