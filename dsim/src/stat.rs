//! What one simulated run records about itself: fault and probe counters, the
//! trace hash, the first violation seen inside a callback.
use crate::prng::mix;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub tag: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn bad<T>(tag: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { tag: tag.into(), detail: detail.into() })
}

#[derive(Default, Clone)]
pub struct Coll {
    pub c: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub nontrivial: bool,
    pub fail: Option<Violation>,
    pub draws: u64,
    pub sim_ns: u64,
}

thread_local! {
    static COLL: RefCell<Coll> = RefCell::new(Coll::default());
}

pub fn reset() {
    COLL.with(|c| *c.borrow_mut() = Coll::default());
}
pub fn take() -> Coll {
    COLL.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
/// merge what another (finished) simulated thread of the same run recorded
pub fn merge(o: Coll) {
    COLL.with(|c| {
        let mut c = c.borrow_mut();
        for (k, v) in o.c {
            *c.c.entry(k).or_insert(0) += v;
        }
        c.hash = mix(c.hash ^ o.hash);
        c.draws += o.draws;
        c.sim_ns += o.sim_ns;
        if c.fail.is_none() {
            c.fail = o.fail;
        }
    });
}
pub fn add(k: &'static str, n: u64) {
    COLL.with(|c| *c.borrow_mut().c.entry(k).or_insert(0) += n);
}
pub fn hit(k: &'static str) {
    add(k, 1);
}
pub fn get(k: &'static str) -> u64 {
    COLL.with(|c| c.borrow().c.get(k).copied().unwrap_or(0))
}
pub fn mark(x: u64) {
    COLL.with(|c| {
        let mut c = c.borrow_mut();
        c.hash = mix(c.hash.rotate_left(5) ^ x);
    });
}
pub fn nontrivial() {
    COLL.with(|c| c.borrow_mut().nontrivial = true);
}
/// record a violation seen where it cannot be returned (inside a callback)
pub fn fail(tag: &str, detail: impl Into<String>) {
    COLL.with(|c| {
        let mut c = c.borrow_mut();
        if c.fail.is_none() {
            c.fail = Some(Violation { tag: tag.into(), detail: detail.into() });
        }
    });
}
pub fn failed() -> bool {
    COLL.with(|c| c.borrow().fail.is_some())
}
