//! A plan is one simulated run, written down: it decides everything.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: String,
    pub a: Vec<i64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub p: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
}

impl Op {
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    /// argument i clamped into lo..=hi
    pub fn argc(&self, i: usize, lo: i64, hi: i64) -> i64 {
        self.arg(i).clamp(lo, hi)
    }
}

impl Plan {
    pub fn new(property: &str, scenario: &str, seed: u64) -> Self {
        Plan { property: property.into(), scenario: scenario.into(), seed, p: BTreeMap::new(), ops: vec![] }
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Self {
        self.p.insert(k.into(), v);
        self
    }
    /// parameter `k` clamped into lo..=hi, `lo`-clamped default when absent
    pub fn get(&self, k: &str, default: i64, lo: i64, hi: i64) -> i64 {
        self.p.get(k).copied().unwrap_or(default).clamp(lo, hi)
    }
    pub fn flag(&self, k: &str) -> bool {
        self.p.get(k).copied().unwrap_or(0) != 0
    }
    pub fn op(&mut self, k: &str, a: &[i64]) -> &mut Self {
        self.ops.push(Op { k: k.into(), a: a.to_vec() });
        self
    }
    pub fn ops_of<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a Op> + 'a {
        self.ops.iter().filter(move |o| o.k == k)
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "dsim-plan 1").unwrap();
        writeln!(s, "property {}", self.property).unwrap();
        writeln!(s, "scenario {}", self.scenario).unwrap();
        writeln!(s, "seed {}", self.seed).unwrap();
        for (k, v) in &self.p {
            writeln!(s, "param {} {}", k, v).unwrap();
        }
        for o in &self.ops {
            write!(s, "op {}", o.k).unwrap();
            for a in &o.a {
                write!(s, " {}", a).unwrap();
            }
            s.push('\n');
        }
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan::new("", "", 0);
        let mut head = false;
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let bad = || format!("bad line: {}", line);
            match w[0] {
                "dsim-plan" => head = true,
                "property" => p.property = w.get(1).ok_or_else(bad)?.to_string(),
                "scenario" => p.scenario = w.get(1).ok_or_else(bad)?.to_string(),
                "seed" => p.seed = w.get(1).ok_or_else(bad)?.parse().map_err(|_| bad())?,
                "param" => {
                    let v: i64 = w.get(2).ok_or_else(bad)?.parse().map_err(|_| bad())?;
                    p.p.insert(w[1].to_string(), v);
                }
                "op" => {
                    let k = w.get(1).ok_or_else(bad)?.to_string();
                    let a: Result<Vec<i64>, _> = w[2..].iter().map(|x| x.parse::<i64>()).collect();
                    p.ops.push(Op { k, a: a.map_err(|_| bad())? });
                }
                _ => return Err(bad()),
            }
        }
        if !head || p.property.is_empty() {
            return Err("not a plan file".into());
        }
        Ok(p)
    }
}
