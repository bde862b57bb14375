//! Controlled-execution model checker for ipmb: engine binding, explorer, scenario run-time.
pub mod bus;
pub mod cli;
pub mod eng;
pub mod explore;
pub mod guard;
pub mod rt;
pub mod wire;

#[global_allocator]
static ALLOC: guard::Guard = guard::Guard;

use explore::{Cfg, Scn};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn deep(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, quick: T, deep: T) -> T {
        if self.deep() {
            deep
        } else {
            quick
        }
    }
}

pub fn scn(name: &str, run: fn(u32), arg: u32, what: &'static str, cfg: Cfg) -> Scn {
    Scn { name: name.into(), run, arg, cfg, what }
}
/// Data choices only: the default schedule.
pub fn data() -> Cfg {
    Cfg { nosched: 1, atom: 0, prune: false, max_s: 0.0, ..Default::default() }
}
/// All schedules with at most `p` deviations from the default one (run until blocked, then the lowest thread).
pub fn sched(p: u32) -> Cfg {
    Cfg { p, free_cost: 1, max_s: 0.0, ..Default::default() }
}
/// As `sched`, with at most `f` faults on top.
pub fn faulty(p: u32, f: u32) -> Cfg {
    Cfg { p, f, free_cost: 1, max_s: 0.0, ..Default::default() }
}

pub struct Prop {
    pub id: &'static str,
    pub scns: fn(Tier) -> Vec<Scn>,
}
