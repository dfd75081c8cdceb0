//! Shrinks a violating plan while it keeps violating in the same way.

use crate::plan::*;
use crate::report;
use crate::runner::{execute, End, Found};
use crate::sched::{Decision, Strategy};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

struct Min {
    best: Plan,
    kind: String,
    accept: u32,
    end: Instant,
}
impl Min {
    fn over(&self) -> bool {
        Instant::now() > self.end
    }
    /// Keeps the candidate if it violates in the same way.
    fn try_plan(&mut self, p: Plan) -> bool {
        if self.over() {
            return false;
        }
        match execute(&p, 0, self.accept) {
            End::Violation { kind, .. } if kind == self.kind => {
                self.best = p;
                true
            }
            _ => false,
        }
    }
    /// Removes as many elements of a list as possible.
    fn list<T: Clone>(
        &mut self,
        get: impl Fn(&Plan) -> Vec<T>,
        set: impl Fn(&mut Plan, Vec<T>),
    ) {
        let mut chunk = (get(&self.best).len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            loop {
                let cur = get(&self.best);
                if i >= cur.len() || self.over() {
                    break;
                }
                let mut v = cur.clone();
                let _ = v.drain(i..(i + chunk).min(cur.len()));
                let mut p = self.best.clone();
                set(&mut p, v);
                if self.try_plan(p) {
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if self.over() || (chunk == 1 && !any) {
                return;
            }
            if chunk > 1 {
                chunk /= 2;
            }
        }
    }
    fn change(&mut self, f: impl FnOnce(&mut Plan)) -> bool {
        let mut p = self.best.clone();
        f(&mut p);
        self.try_plan(p)
    }
}

fn only(s: &mut RStep) -> Option<&mut Option<u32>> {
    match s {
        RStep::Cuts { only, .. }
        | RStep::Tails { only, .. }
        | RStep::Rot { only, .. }
        | RStep::PayloadRot { only, .. } => Some(only),
        _ => None,
    }
}

pub fn minimise(plan: Plan, f: &Found, decisions: Vec<Decision>, accept: u32, budget: Duration) -> Plan {
    let mut m = Min {
        best: plan,
        kind: f.kind.clone(),
        accept,
        end: Instant::now() + budget,
    };
    let run_to_end = m.change(|p| p.strategy = Strategy::RunToEnd);
    let _ = decisions;
    // sweeps: only the violating item
    if f.item != u32::MAX {
        for t in 0..m.best.readers.len() {
            for i in 0..m.best.readers[t].len() {
                if only(&mut m.best.readers[t][i].clone()).is_some() {
                    let _ = m.change(|p| {
                        if let Some(o) = only(&mut p.readers[t][i]) {
                            *o = Some(f.item);
                        }
                    });
                }
            }
        }
    }
    // huge sprites: no bigger than it takes
    for t in 0..m.best.readers.len() {
        for i in 0..m.best.readers[t].len() {
            while matches!(m.best.readers[t].get(i), Some(RStep::Huge { n, .. }) if *n > 2) {
                let mut less = false;
                for (a, b) in [(1u32, 2u32), (3, 4), (15, 16), (127, 128)] {
                    less = m.change(|p| {
                        if let RStep::Huge { n, .. } = &mut p.readers[t][i] {
                            *n = (u32::from(*n) * a / b) as u16;
                        }
                    });
                    if less {
                        break;
                    }
                }
                if !less {
                    break;
                }
            }
        }
    }
    for t in 0..m.best.readers.len() {
        for i in 0..m.best.readers[t].len() {
            for (a, b) in [(1u32, 4u32), (1, 4), (1, 4), (1, 4), (1, 2), (1, 2), (3, 4), (7, 8)] {
                if matches!(m.best.readers[t].get(i), Some(RStep::Endure { n, .. }) if *n > 2) {
                    let _ = m.change(|p| {
                        if let RStep::Endure { n, .. } = &mut p.readers[t][i] {
                            *n = (*n / b).max(1) * a;
                        }
                    });
                }
            }
        }
    }
    for round in 0..2 {
        for t in 0..m.best.readers.len() {
            if !m.best.readers[t].is_empty() {
                let _ = m.change(|p| p.readers[t].clear());
            }
        }
        for t in 0..m.best.readers.len() {
            m.list(|p| p.readers[t].clone(), |p, v| p.readers[t] = v);
        }
        m.list(|p| p.faults.clone(), |p, v| p.faults = v);
        for k in 0..m.best.files.len() {
            if !m.best.files[k].steps.is_empty() {
                let _ = m.change(|p| p.files[k].steps.clear());
            }
        }
        for k in 0..m.best.files.len() {
            m.list(|p| p.files[k].steps.clone(), |p, v| p.files[k].steps = v);
        }
        if round == 0 {
            for k in 0..m.best.files.len() {
                for i in 0..m.best.files[k].steps.len() {
                    if matches!(m.best.files[k].steps[i], EdStep::Save { .. }) {
                        for what in 0..4 {
                            let _ = m.change(|p| {
                                if let EdStep::Save { mode, opts, kill_at, sync } = &mut p.files[k].steps[i] {
                                    match what {
                                        0 => *kill_at = None,
                                        1 => *mode = Mode::Rename,
                                        2 => *sync = true,
                                        _ => {
                                            opts.counter = 0;
                                            opts.shuffle = false;
                                            opts.unknown = false;
                                            opts.trailing = false;
                                            opts.reserved = false;
                                            opts.no_opacity = false;
                                        }
                                    }
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    if m.best.alone > 0 {
        let _ = m.change(|p| p.alone = 0);
    }
    // the interleaving
    if !run_to_end && m.best.readers.iter().filter(|r| !r.is_empty()).count() > 1 {
        let _ = m.change(|p| p.strategy = Strategy::RunToEnd);
        if !matches!(m.best.strategy, Strategy::RunToEnd) {
            // what the schedule of the plan as it is now was
            if let End::Violation { .. } = execute(&m.best, 0, accept) {
                let s = report::slot_of(0);
                let n = (s.ndec.load(Relaxed) as usize).min(report::DECISIONS);
                let dec = s.dec[..n].to_vec();
                let same = m.change(|p| p.schedule = Some(dec));
                if same {
                    m.list(
                        |p| p.schedule.clone().unwrap_or_default(),
                        |p, v| p.schedule = Some(v),
                    );
                    // neighbours of the same task can be one decision
                    let merged = m.best.schedule.clone().map(|d| {
                        let mut out: Vec<Decision> = Vec::new();
                        for (w, n) in d {
                            match out.last_mut() {
                                Some((x, k)) if *x == w => *k = k.saturating_add(n),
                                _ => out.push((w, n)),
                            }
                        }
                        out
                    });
                    let _ = m.change(|p| p.schedule = merged);
                }
            }
        }
    }
    m.best
}
