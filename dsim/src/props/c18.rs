//! C18: random genetic operators only recombine what they are given.
use crate::exec::{guard, Injected, Prop};
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Res};
use crate::with_float;
use optlib::genetic::cross::{CrossMean, FloatCrossExp, FloatCrossGeometricMean, VecCrossAllGenes};
use optlib::genetic::mutation::VecMutation;
use optlib::genetic::{Cross, Mutation};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct C18;

impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn runs(&self) -> (u64, u64) {
        (180_000, 2_000_000)
    }
    fn rule(&self) -> &'static str {
        "every call of the real mutations and crossings, on genes of every bit pattern and inside genetic runs whose populations they feed, is compared with the set of recombinations it may produce; random streams are free, stuck and extreme, single-gene operators panic at arbitrary calls; statistical runs demand every bit, cut position and sign, and the mutation percentage; non-trivial: an operator changed or combined different genes"
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "probe.bit_mutation", "probe.zero_bits", "probe.more_bits_than_width", "probe.signs_of_likes_covered", "probe.bits_covered", "probe.vec_mutation", "probe.never", "probe.always", "probe.percentage", "probe.bit_cross", "probe.cuts_covered", "probe.exp_cross", "probe.mantissa_cuts_covered", "probe.parts_independent", "probe.exponent_cuts_covered", "probe.signs_covered",
            "probe.vec_cross", "probe.tiny_percentage", "probe.session", "probe.nan_gene", "fault.gene_operator_panic", "fault.rng_all_one", "fault.rng_all_zero", "fault.rng_stuck", "fault.rng_alternating",
        ]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("BitwiseMutation, VecMutation, CrossBitwise, FloatCrossExp, CrossMean, FloatCrossGeometricMean, VecCrossAllGenes, GeneticOptimizer", "goal function, random stream, genes, failing single-gene operators")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C18", "calls", 0);
        match r.below(20) {
            0 => {
                p.scenario = "cover".into();
                p.set("f32", r.range(0, 1)).set("which", r.range(0, 6)).set("salt", r.range(0, 1 << 40)).set("prob", *r.pick(&[0, 20, 50, 100, 250, 500, 1_000, 1_500, 12_345, 15_000, 33_300, 50_000, 66_667, 97_000, 99_500, 99_750, 99_950, 100_000]));
                p.set("n", r.range(1, 5));
            }
            1..=5 => {
                p.scenario = "session".into();
                gen_cfg(r, &mut p, 0, deep);
                p.set("pop", r.size(2, 16));
                let total = gen_session(r, &mut p, false);
                let evals = (total + 1) * p.p["pop"];
                gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4, 5]);
                gen_windows(r, &mut p, evals * 4);
            }
            _ => {
                p.set("f32", r.range(0, 1)).set("salt", r.range(0, 1 << 40));
                for _ in 0..r.range(1, 12) {
                    // which, genes, gene patterns, bits or crossing, percentage
                    let k = if r.chance(1, 4) { r.size(8, 200) } else { r.range(0, 7) };
                    let genes = if r.chance(1, 80) { r.range(10, 140) } else { r.size(0, 9) };
                    let a = [r.range(0, 3), genes, r.range(0, 9), k, *r.pick(&[0, 0, 400, 3_000, 30_000, 60_500, 99_900, 100_000, 100_000, 250_000]), r.range(0, 1 << 40)];
                    p.op("call", &a);
                    if r.chance(1, 8) {
                        let a = [r.range(0, 30)];
                        p.op("gp", &a);
                    }
                }
                gen_windows(r, &mut p, 120);
            }
        }
        p
    }
    fn run(&self, p: &Plan) -> Res {
        match p.scenario.as_str() {
            "cover" => with_float!(p, cover(p)),
            "session" => with_float!(p, session(p)),
            _ => with_float!(p, calls(p)),
        }
    }
}

fn raw<F: Fl>(v: F) -> u64 {
    // the bits as they are, NaN payloads included
    match std::mem::size_of::<F>() {
        4 => unsafe { std::mem::transmute_copy::<F, u32>(&v) as u64 },
        _ => unsafe { std::mem::transmute_copy::<F, u64>(&v) },
    }
}
fn width<F: Fl>() -> usize {
    std::mem::size_of::<F>() * 8
}

/// One call of a single-gene operator.
#[derive(Clone, PartialEq, Debug)]
struct Call {
    ins: Vec<u64>,
    out: u64,
}

/// What the wrapped operators did, and at which call they are to panic.
#[derive(Default)]
struct Tape {
    calls: RefCell<Vec<Call>>,
    seen: Cell<u64>,
    panics: RefCell<BTreeSet<u64>>,
    /// changed bits, by mask
    masks: RefCell<BTreeMap<u64, u64>>,
    genes: Cell<u64>,
    mutated: Cell<u64>,
}
impl Tape {
    fn enter(&self) {
        let n = self.seen.get();
        self.seen.set(n + 1);
        simseam::step("gene_operator");
        if self.panics.borrow().contains(&n) {
            stat::hit("fault.gene_operator_panic");
            std::panic::panic_any(Injected("gene operator"));
        }
    }
    fn log(&self, ins: Vec<u64>, out: u64) {
        stat::mark(hash_x(&ins, out));
        if ins.iter().any(|i| *i != out) {
            stat::nontrivial();
        }
        self.calls.borrow_mut().push(Call { ins, out });
    }
}

/// A single-gene mutation whose every call is checked.
struct GeneMut<F> {
    inner: Box<dyn Mutation<F>>,
    bits: usize,
    tape: Rc<Tape>,
}
impl<F: Fl> Mutation<F> for GeneMut<F> {
    fn mutation(&mut self, g: &F) -> F {
        self.tape.enter();
        let out = self.inner.mutation(g);
        let (a, b) = (raw(*g), raw(out));
        stat::hit("probe.bit_mutation");
        if self.bits == 0 {
            stat::hit("probe.zero_bits");
        }
        if self.bits > width::<F>() {
            stat::hit("probe.more_bits_than_width");
        }
        if g.is_nan() {
            stat::hit("probe.nan_gene");
        }
        let d = (a ^ b).count_ones() as usize;
        if d > self.bits || d % 2 != self.bits % 2 {
            stat::fail("mutation-bits", format!("{} changes asked for, gene {:#x} became {:#x}: {} bits differ", self.bits, a, b, d));
        }
        *self.tape.masks.borrow_mut().entry(a ^ b).or_insert(0) += 1;
        self.tape.log(vec![a], b);
        out
    }
}

/// A vector mutation whose every call is checked.
struct VecMut<F> {
    inner: Box<dyn Mutation<Vec<F>>>,
    prob: f64,
    tape: Rc<Tape>,
}
impl<F: Fl> Mutation<Vec<F>> for VecMut<F> {
    fn mutation(&mut self, c: &Vec<F>) -> Vec<F> {
        self.tape.calls.borrow_mut().clear();
        let out = self.inner.mutation(c);
        stat::hit("probe.vec_mutation");
        let show = || format!("{:?} became {:?}, single-gene calls {:?}", c.iter().map(|v| raw(*v)).collect::<Vec<_>>(), out.iter().map(|v| raw(*v)).collect::<Vec<_>>(), self.tape.calls.borrow());
        if out.len() != c.len() {
            stat::fail("mutation-length", show());
            return out;
        }
        let calls = self.tape.calls.borrow();
        let mut left: Vec<Call> = calls.clone();
        for (g, o) in c.iter().zip(&out) {
            let (a, b) = (raw(*g), raw(*o));
            if a == b {
                continue;
            }
            match left.iter().position(|k| k.ins == [a] && k.out == b) {
                Some(i) => {
                    left.swap_remove(i);
                }
                None => {
                    stat::fail("gene-touched", format!("gene {:#x} became {:#x} without the mutation of the gene: {}", a, b, show()));
                    return out;
                }
            }
        }
        // what is left must have kept its gene
        for k in &left {
            if k.ins != [k.out] || !c.iter().any(|g| raw(*g) == k.out) {
                stat::fail("mutation-lost", format!("a mutated gene is missing in the result: {}", show()));
                return out;
            }
        }
        let n = calls.len();
        if n > c.len() || self.prob <= 0.0 && n > 0 || self.prob >= 100.0 && n != c.len() {
            stat::fail("mutation-percentage", format!("{} of {} genes mutated at {} per cent", n, c.len(), self.prob));
        }
        if !c.is_empty() {
            if self.prob <= 0.0 {
                stat::hit("probe.never");
            }
            if self.prob >= 100.0 {
                stat::hit("probe.always");
            }
        }
        self.tape.genes.set(self.tape.genes.get() + c.len() as u64);
        self.tape.mutated.set(self.tape.mutated.get() + n as u64);
        out
    }
}

/// Whether `c` consists of the upper bits of one and the lower bits of the
/// other, cut somewhere inside the width.
fn cut_of(a: u64, b: u64, c: u64, width: usize) -> Option<usize> {
    (1..width).find(|pos| {
        let low = (1u64 << pos) - 1;
        let all = if width == 64 { !0 } else { (1u64 << width) - 1 };
        let high = all & !low;
        c == (a & high | b & low) || c == (b & high | a & low)
    })
}

/// All values a component can take, with either parent on top.
fn cuts(a: u64, b: u64, width: usize) -> BTreeSet<u64> {
    let all = if width == 64 { !0 } else { (1u64 << width) - 1 };
    let mut s = BTreeSet::new();
    for pos in 1..width {
        let low = (1u64 << pos) - 1;
        s.insert((a & !low | b & low) & all);
        s.insert((b & !low | a & low) & all);
    }
    s
}

/// m * 2^e, rounded once as far as the type allows.
fn scaled<F: Fl>(m: F, e: i32) -> F {
    let mut v = m;
    let mut e = e.clamp(-5000, 5000);
    while e != 0 {
        let k = e.clamp(-100, 100);
        v = v * F::of(2.0).powi(k);
        e -= k;
    }
    v
}

fn near<F: Fl>(a: F, b: F) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return a.is_sign_negative() == b.is_sign_negative() || a == F::zero();
    }
    a.is_finite() && b.is_finite() && a.signum() == b.signum() && (a - b).abs() <= a.abs().max(b.abs()) * F::epsilon() * F::of(4.0)
}

fn exp_ok<F: Fl>(a: F, b: F, c: F) -> bool {
    let ((m1, e1, s1), (m2, e2, s2)) = (a.integer_decode(), b.integer_decode());
    let ms = cuts(m1, m2, 64);
    let es = cuts(e1 as u16 as u64, e2 as u16 as u64, 16);
    for e in &es {
        let e = *e as u16 as i16;
        let scale = F::of(e as f64).exp2();
        for m in &ms {
            let m = F::of(*m as f64);
            let (naive, exact) = (m * scale, scaled(m, e as i32));
            if near(c.abs(), naive) || near(c.abs(), exact) {
                if c.is_nan() {
                    return true;
                }
                // the sign of either parent
                if c == F::zero() || c.is_sign_negative() == (s1 < 0) || c.is_sign_negative() == (s2 < 0) {
                    return true;
                }
            }
        }
    }
    false
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Bits,
    Exp,
    Other,
}

/// A single-gene crossing whose every call is checked.
struct GeneCross<F> {
    inner: Box<dyn Cross<F>>,
    kind: Kind,
    tape: Rc<Tape>,
}
impl<F: Fl> Cross<F> for GeneCross<F> {
    fn cross(&mut self, p: &[&F]) -> Vec<F> {
        self.tape.enter();
        let out = self.inner.cross(p);
        let ins: Vec<u64> = p.iter().map(|g| raw(**g)).collect();
        if out.len() != 1 {
            stat::fail("children-count", format!("{} children of {:x?}", out.len(), ins));
            return out;
        }
        let c = raw(out[0]);
        match self.kind {
            Kind::Bits => {
                stat::hit("probe.bit_cross");
                if p.iter().any(|g| g.is_nan()) {
                    stat::hit("probe.nan_gene");
                }
                if cut_of(ins[0], ins[1], c, width::<F>()).is_none() {
                    stat::fail("not-a-recombination", format!("bits {:#x} and {:#x} gave {:#x}", ins[0], ins[1], c));
                }
                *self.tape.masks.borrow_mut().entry(c).or_insert(0) += 1;
            }
            Kind::Exp => {
                if p.iter().all(|g| g.is_finite() && (g.is_normal() || **g == F::zero())) {
                    stat::hit("probe.exp_cross");
                    if !exp_ok(*p[0], *p[1], out[0]) {
                        stat::fail("not-a-recombination", format!("{:e} {:?} and {:e} {:?} gave {:e} {:?}", p[0].d(), p[0].integer_decode(), p[1].d(), p[1].integer_decode(), out[0].d(), out[0].integer_decode()));
                    }
                }
                *self.tape.masks.borrow_mut().entry(c).or_insert(0) += 1;
            }
            Kind::Other => {}
        }
        self.tape.log(ins, c);
        out
    }
}

/// A vector crossing whose every call is checked.
struct VecCross<F> {
    inner: Box<dyn Cross<Vec<F>>>,
    tape: Rc<Tape>,
}
impl<F: Fl> Cross<Vec<F>> for VecCross<F> {
    fn cross(&mut self, p: &[&Vec<F>]) -> Vec<Vec<F>> {
        self.tape.calls.borrow_mut().clear();
        let out = self.inner.cross(p);
        stat::hit("probe.vec_cross");
        let show = || format!("parents {:?}, children {:?}, single-gene calls {:?}", p.iter().map(|x| x.iter().map(|v| raw(*v)).collect::<Vec<_>>()).collect::<Vec<_>>(), out.iter().map(|x| x.iter().map(|v| raw(*v)).collect::<Vec<_>>()).collect::<Vec<_>>(), self.tape.calls.borrow());
        if out.len() != 1 || out[0].len() != p[0].len() {
            stat::fail("children-count", show());
            return out;
        }
        let mut left = self.tape.calls.borrow().clone();
        for i in 0..p[0].len() {
            let c = raw(out[0][i]);
            let mut genes: Vec<u64> = p.iter().map(|x| raw(x[i])).collect();
            genes.sort();
            let same = |ins: &[u64]| {
                let mut ins = ins.to_vec();
                ins.sort();
                ins == genes
            };
            if genes.len() > 2 {
                stat::hit("probe.many_parents");
            }
            match left.iter().position(|k| k.out == c && same(&k.ins)) {
                Some(j) => {
                    left.swap_remove(j);
                }
                None => {
                    stat::fail("gene-misplaced", format!("gene {} of the child is not a crossing of the genes {}: {}", i, i, show()));
                    return out;
                }
            }
        }
        if !left.is_empty() {
            stat::fail("gene-misplaced", format!("crossings of genes got lost: {}", show()));
        }
        out
    }
}

/// Genes by pattern.
fn gene<F: Fl>(pat: i64, h: u64) -> F {
    let u = (h >> 11) as f64 / (1u64 << 53) as f64;
    match pat {
        0 | 1 => F::of(u * 2000.0 - 1000.0),
        2 => F::of_bits(mix(h)),
        3 => match h % 6 {
            0 => F::nan(),
            1 => F::infinity(),
            2 => F::neg_infinity(),
            3 => -F::nan(),
            _ => F::of(u),
        },
        4 => F::zero(),
        5 => {
            if h % 2 == 0 {
                F::of_bits(0)
            } else {
                F::of_bits(u64::MAX)
            }
        }
        6 => F::of_bits(0xAAAA_AAAA_AAAA_AAAA >> (h % 2)),
        7 => F::of(1.0),
        8 => F::max_value() * F::of(u * 2.0 - 1.0),
        _ => F::min_positive_value() * F::of(1.0 + u * 1000.0),
    }
}

fn single_cross<F: Fl>(kind: i64) -> (Box<dyn Cross<F>>, Kind) {
    match kind {
        0 | 1 => (F::bit_cross(), Kind::Bits),
        2 | 3 => (Box::new(FloatCrossExp::new()), Kind::Exp),
        4 => (Box::new(CrossMean::new()), Kind::Other),
        _ => (Box::new(FloatCrossGeometricMean::new()), Kind::Other),
    }
}

/// FloatCrossExp is only specified for finite normal genes (and zero).
fn tame<F: Fl>(v: F) -> F {
    if v.is_finite() && (v.is_normal() || v == F::zero()) {
        v
    } else {
        F::of(1.5)
    }
}

fn calls<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let tape = Rc::new(Tape::default());
    for o in p.ops_of("gp") {
        tape.panics.borrow_mut().insert(o.argc(0, 0, 1 << 40) as u64);
    }
    let salt = p.get("salt", 0, 0, i64::MAX) as u64;
    for (n, o) in p.ops_of("call").enumerate() {
        let len = o.argc(1, 0, 140) as usize;
        let (pat, k) = (o.argc(2, 0, 9), o.argc(3, 0, 300));
        let prob = o.argc(4, 0, 1_000_000) as f64 / 1000.0;
        let vec = |w: u64| -> Vec<F> { (0..len).map(|i| gene::<F>(pat, hash_x(&[i as u64, w, n as u64], salt ^ o.arg(5) as u64))).collect() };
        let t = || tape.clone();
        // a few calls of the same instance: a panic must not spoil the next
        match o.argc(0, 0, 3) {
            0 => {
                let mut m = GeneMut { inner: F::bit_mutation(k as usize), bits: k as usize, tape: t() };
                for g in vec(0) {
                    guard(|| m.mutation(&g))?;
                }
            }
            1 => {
                let g = GeneMut { inner: F::bit_mutation(k as usize), bits: k as usize, tape: t() };
                let mut m = VecMut { inner: Box::new(VecMutation::new(prob, Box::new(g))), prob, tape: t() };
                for w in 0..3 {
                    guard(|| m.mutation(&vec(w)))?;
                }
            }
            2 => {
                let (inner, kind) = single_cross::<F>(k);
                let mut c = GeneCross { inner, kind, tape: t() };
                for (a, b) in vec(0).into_iter().zip(vec(1)) {
                    let (a, b) = if kind == Kind::Exp { (tame(a), tame(b)) } else { (a, b) };
                    guard(|| c.cross(&[&a, &b]))?;
                }
            }
            _ => {
                let (inner, kind) = single_cross::<F>(k);
                let g = GeneCross { inner, kind, tape: t() };
                let mut c = VecCross { inner: Box::new(VecCrossAllGenes::new(Box::new(g))), tape: t() };
                for w in 0..3 {
                    let (mut a, mut b) = (vec(w), vec(w + 10));
                    if kind == Kind::Exp {
                        a = a.into_iter().map(tame).collect();
                        b = b.into_iter().map(tame).collect();
                    }
                    guard(|| c.cross(&[&a, &b]))?;
                }
            }
        }
        if stat::failed() {
            break;
        }
    }
    Ok(())
}

/// The operators inside genetic runs, fed by what they made before.
fn session<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    stat::hit("probe.session");
    let mut s: Session<F> = Session::new(p);
    let tape = Rc::new(Tape::default());
    let cfg = s.cfg.clone();
    let g = GeneMut { inner: F::bit_mutation(cfg.mut_bits), bits: cfg.mut_bits, tape: tape.clone() };
    let m = VecMut { inner: Box::new(VecMutation::new(cfg.mut_prob, Box::new(g))), prob: cfg.mut_prob, tape: tape.clone() };
    let (inner, kind) = single_cross::<F>(cfg.cross * 2 - (cfg.cross == 3) as i64);
    let single: Box<dyn Cross<F>> = Box::new(GeneCross { inner, kind, tape: tape.clone() });
    // the exponent crossing cannot take infinities and NaN
    let single: Box<dyn Cross<F>> = if kind == Kind::Exp { Box::new(Tame { inner: single }) } else { single };
    let c = VecCrossAllGenes::new(single);
    // the outer check only where the single-gene calls see the genes as they are
    let cross: Box<dyn Cross<Vec<F>>> = if kind == Kind::Exp { Box::new(c) } else { Box::new(VecCross { inner: Box::new(c), tape: tape.clone() }) };
    if let Opt::Ga(ga) = &mut s.opt {
        ga.set_cross(Box::new(TapCross { inner: cross, rig: s.rig.clone() }));
        ga.set_mutation(Box::new(TapMut { inner: Box::new(m), rig: s.rig.clone() }));
    }
    for o in p.ops.iter().filter(|o| o.k == "run" || o.k == "more") {
        s.step(o)?;
        if stat::failed() {
            return Ok(());
        }
    }
    if p.ops_of("rw").next().is_none() {
        let (n, k) = (tape.genes.get(), tape.mutated.get());
        if surprise(k, n, (cfg.mut_prob / 100.0).min(1.0)) > SURPRISE {
            return bad("mutation-percentage", format!("{} of {} genes mutated at {} per cent", k, n, cfg.mut_prob));
        }
    }
    Ok(())
}

struct Tame<F> {
    inner: Box<dyn Cross<F>>,
}
impl<F: Fl> Cross<F> for Tame<F> {
    fn cross(&mut self, p: &[&F]) -> Vec<F> {
        let v: Vec<F> = p.iter().map(|g| tame(**g)).collect();
        self.inner.cross(&v.iter().collect::<Vec<_>>())
    }
}

fn shares(v: &[u64]) -> BTreeMap<u64, f64> {
    let mut m = BTreeMap::new();
    v.iter().for_each(|x| *m.entry(*x).or_insert(0.0) += 1.0 / v.len() as f64);
    m
}

/// One outcome must not tell anything about the next one.
fn coincide(what: &str, v: &[u64]) -> Res {
    let same = v.windows(2).filter(|w| w[0] == w[1]).count() as u64;
    let q = shares(v).values().map(|f| f * f).sum::<f64>();
    if surprise(same, v.len() as u64 - 1, q.min(1.0)) > SURPRISE {
        return bad("dependent", format!("{}: the same as in the call before {} of {} times, expected share {}", what, same, v.len(), q));
    }
    Ok(())
}

/// One part must not tell anything about the other.
fn independent(na: &str, a: &[u64], nb: &str, b: &[u64]) -> Res {
    let (fa, fb) = (shares(a), shares(b));
    let mut both: BTreeMap<(u64, u64), u64> = BTreeMap::new();
    a.iter().zip(b).for_each(|(x, y)| *both.entry((*x, *y)).or_insert(0) += 1);
    for (x, p) in &fa {
        for (y, q) in &fb {
            let k = both.get(&(*x, *y)).copied().unwrap_or(0);
            if surprise(k, a.len() as u64, p * q) > SURPRISE {
                return bad("dependent", format!("{} {:#x} and {} {:#x} meet {} times in {}, expected share {}", na, x, nb, y, k, a.len(), p * q));
            }
        }
    }
    Ok(())
}

fn cover<F: Fl>(p: &Plan) -> Res {
    let tape = Rc::new(Tape::default());
    let w = width::<F>() as u64;
    let salt = p.get("salt", 0, 0, i64::MAX) as u64;
    let calls = w * 60;
    match p.get("which", 0, 0, 6) {
        0 => {
            // every bit
            let bits = p.get("n", 1, 1, 8) as usize;
            let mut m = GeneMut { inner: F::bit_mutation(bits), bits, tape: tape.clone() };
            for i in 0..calls {
                m.mutation(&gene::<F>(2, mix(salt ^ i)));
            }
            let hit: u64 = tape.masks.borrow().keys().fold(0, |a, k| a | k);
            let all = if w == 64 { !0 } else { (1u64 << w) - 1 };
            if hit != all {
                return bad("bit-unreachable", format!("in {} mutations of {} bits never flipped: bits {:#x}", calls, bits, all & !hit));
            }
            stat::hit("probe.bits_covered");
        }
        1 => {
            // every cut, told from the child of all zero and all one
            let (a, b) = (F::of_bits(0), F::of_bits(u64::MAX));
            let mut c = GeneCross { inner: F::bit_cross(), kind: Kind::Bits, tape: tape.clone() };
            for _ in 0..calls {
                c.cross(&[&a, &b]);
            }
            let seen: BTreeSet<u32> = tape.masks.borrow().keys().map(|k| if k & 1 == 1 { k.trailing_ones() } else { k.trailing_zeros().min(w as u32) }).collect();
            for pos in 1..w as u32 {
                if !seen.contains(&pos) {
                    return bad("cut-impossible", format!("in {} crossings never cut at bit {}", calls, pos));
                }
            }
            // a cut says nothing about the next one
            let outs: Vec<u64> = tape.calls.borrow().iter().map(|k| k.out).collect();
            coincide("cut", &outs)?;
            stat::hit("probe.cuts_covered");
        }
        2 => {
            // mantissa cuts: all zero and all one below the leading bit
            let digits = if w == 64 { 53 } else { 24 };
            let one = F::of(1.0);
            let top = F::of(2.0) - F::epsilon();
            let mut c = GeneCross { inner: Box::new(FloatCrossExp::new()), kind: Kind::Exp, tape: tape.clone() };
            for _ in 0..64 * 60 {
                c.cross(&[&one, &top]);
            }
            let seen: BTreeSet<u64> = tape.calls.borrow().iter().map(|k| F::of_bits(k.out).integer_decode().0).collect();
            let (a, b) = (one.integer_decode().0, top.integer_decode().0);
            for pos in 1..digits {
                let low = (1u64 << pos) - 1;
                if !seen.contains(&(a & !low | b & low)) && !seen.contains(&(b & !low | a & low)) {
                    return bad("cut-impossible", format!("mantissa never cut at bit {}", pos));
                }
            }
            stat::hit("probe.mantissa_cuts_covered");
        }
        3 => {
            // exponent cuts and signs: equal mantissas, exponents 0 and all one
            let bits = if w == 64 { 9 } else { 6 };
            let base = if w == 64 { 52 } else { 23 };
            let (a, b) = (scaled(F::of(1.0), base), -scaled(F::of(1.0), base + (1 << bits) - 1));
            let mut c = GeneCross { inner: Box::new(FloatCrossExp::new()), kind: Kind::Exp, tape: tape.clone() };
            for _ in 0..2000 {
                c.cross(&[&a, &b]);
            }
            let (mut es, mut signs) = (BTreeSet::new(), BTreeSet::new());
            for k in tape.calls.borrow().iter() {
                let (_, e, s) = F::of_bits(k.out).integer_decode();
                es.insert(e as i64);
                signs.insert(s);
            }
            for pos in 1..bits as u32 {
                let low = (1i64 << pos) - 1;
                let all = (1i64 << bits) - 1;
                if !es.contains(&low) && !es.contains(&(all & !low)) {
                    return bad("cut-impossible", format!("exponent never cut at bit {}: exponents {:?}", pos, es));
                }
            }
            stat::hit("probe.exponent_cuts_covered");
            if signs.len() != 2 {
                return bad("sign-impossible", format!("parents of both signs, children only {:?}", signs));
            }
            stat::hit("probe.signs_covered");
        }
        6 => {
            // mantissa, exponent and sign are recombined independently
            let (bits, base) = if w == 64 { (9, 0) } else { (5, 0) };
            let (a, b) = (F::of(1.0), scaled(F::epsilon() - F::of(2.0), base + (1 << bits) - 1));
            let (a, b) = if salt % 2 == 0 { (a, b) } else { (b, a) };
            let a = scaled(a, if w == 64 { 52 } else { 23 });
            let b = scaled(b, if w == 64 { 52 } else { 23 });
            let mut c = FloatCrossExp::new();
            let mut parts: [Vec<u64>; 3] = Default::default();
            for _ in 0..20_000 {
                let (m, e, s) = c.cross(&[&a, &b])[0].integer_decode();
                parts[0].push(m);
                parts[1].push(e as u16 as u64);
                parts[2].push(s as u8 as u64);
            }
            let names = ["mantissa", "exponent", "sign"];
            for i in 0..3 {
                coincide(names[i], &parts[i])?;
                for j in i + 1..3 {
                    independent(names[i], &parts[i], names[j], &parts[j])?;
                }
            }
            stat::nontrivial();
            stat::hit("probe.parts_independent");
        }
        5 => {
            // signs again: parents that differ in little else or in nothing
            for (n, (ka, kb)) in [(1.0, 1.0), (1.0, 2.0), (1.0, 1.25), (3.0, 2.0), (0.5, 6.0), (0.0, 1.0)].iter().enumerate() {
                let v = F::of(1.0 + (mix(salt ^ n as u64) % 1024) as f64 / 256.0);
                let (a, b) = (v * F::of(*ka), v * F::of(*kb));
                for (a, b) in [(a, -b), (-a, b)] {
                    tape.calls.borrow_mut().clear();
                    let mut c = GeneCross { inner: Box::new(FloatCrossExp::new()), kind: Kind::Exp, tape: tape.clone() };
                    let mut signs = BTreeSet::new();
                    for _ in 0..400 {
                        let k = c.cross(&[&a, &b])[0];
                        if stat::failed() {
                            return Ok(());
                        }
                        if k != F::zero() {
                            signs.insert(k.is_sign_negative());
                        }
                    }
                    // crossing with zero may leave nothing but zeros
                    if signs.len() == 1 || signs.is_empty() && *ka != 0.0 {
                        return bad("sign-impossible", format!("400 children of {:e} and {:e}, negative: {:?}", a.d(), b.d(), signs));
                    }
                }
            }
            stat::hit("probe.signs_of_likes_covered");
        }
        _ => {
            // the percentage, gene by gene and for neighbours
            let prob = p.get("prob", 0, 0, 100_000) as f64 / 1000.0;
            let q = prob / 100.0;
            let len = 6;
            let g = GeneMut { inner: F::bit_mutation(1), bits: 1, tape: tape.clone() };
            let mut m = VecMut { inner: Box::new(VecMutation::new(prob, Box::new(g))), prob, tape: tape.clone() };
            // rare mutations need many trials to be told from none
            let rare = prob > 0.0 && prob < 0.1 || prob > 99.9 && prob < 100.0;
            let n = if rare { 50_000u64 } else { 2500 };
            if rare {
                stat::hit("probe.tiny_percentage");
            }
            let mut at = vec![0u64; len];
            let mut both = vec![0u64; len];
            for i in 0..n {
                let c: Vec<F> = (0..len).map(|k| gene::<F>(0, hash_x(&[i, k as u64], salt))).collect();
                let out = m.mutation(&c);
                if stat::failed() {
                    return Ok(());
                }
                let ch: Vec<bool> = c.iter().zip(&out).map(|(a, b)| raw(*a) != raw(*b)).collect();
                for k in 0..len {
                    at[k] += ch[k] as u64;
                    both[k] += (ch[k] && ch[(k + 1) % len]) as u64;
                }
            }
            for k in 0..len {
                if surprise(at[k], n, q) > SURPRISE || surprise(both[k], n, q * q) > SURPRISE {
                    return bad("mutation-percentage", format!("at {} per cent gene {} was mutated {} times in {}, together with the next one {} times", prob, k, at[k], n, both[k]));
                }
            }
            let (all, total) = (at.iter().sum::<u64>(), n * len as u64);
            if surprise(all, total, q) > SURPRISE {
                return bad("mutation-percentage", format!("at {} per cent {} of {} genes were mutated", prob, all, total));
            }
            stat::hit("probe.percentage");
        }
    }
    Ok(())
}
