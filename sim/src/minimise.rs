//! Making a failing plan smaller. Each candidate runs in a process of its own, and is kept when it fails in
//! the same way.

use crate::local::Step;
use crate::runs::{Case, Plan};
use crate::world::Act;
use std::time::Instant;

pub struct Mini<'a> {
    /// Whether a case still fails in the same way.
    pub fails: &'a mut dyn FnMut(&Case) -> bool,
    pub until: Instant,
    pub tried: u64,
}

impl Mini<'_> {
    fn over(&self) -> bool {
        Instant::now() >= self.until
    }

    fn keep(&mut self, best: &mut Case, c: Case) -> bool {
        if self.over() {
            return false;
        }
        self.tried += 1;
        if (self.fails)(&c) {
            *best = c;
            return true;
        }
        false
    }

    /// Remove as many of `n` things as possible; `cut` makes a case without those from..to.
    fn ddmin(&mut self, best: &mut Case, len: impl Fn(&Case) -> usize, cut: impl Fn(&Case, usize, usize) -> Case) -> bool {
        let mut any = false;
        let mut size = len(best).max(1);
        while size > 0 {
            let mut at = len(best);
            while at > 0 && !self.over() {
                let from = at.saturating_sub(size);
                let c = cut(best, from, at);
                if self.keep(best, c) {
                    any = true;
                }
                at = from.min(len(best));
            }
            size /= 2;
        }
        any
    }

    pub fn run(&mut self, case: &Case) -> Case {
        let mut best = case.clone();
        loop {
            let mut any = match &best.plan {
                Plan::World(_) => self.world(&mut best),
                Plan::Local(_) => self.local(&mut best),
                Plan::Layouts(_) => self.layouts(&mut best),
                _ => false,
            };
            if self.over() {
                any = false;
            }
            if !any {
                return best;
            }
        }
    }

    fn world(&mut self, best: &mut Case) -> bool {
        fn w(c: &Case) -> &crate::world::World {
            match &c.plan {
                Plan::World(w) => w,
                _ => unreachable!(),
            }
        }
        fn with(c: &Case, f: impl FnOnce(&mut crate::world::World)) -> Case {
            let mut c = c.clone();
            if let Plan::World(w) = &mut c.plan {
                f(w);
            }
            c
        }
        let mut any = self.ddmin(best, |c| w(c).acts.len(), |c, a, b| with(c, |w| drop(w.acts.drain(a..b))));
        let simpler: Vec<Case> = vec![
            with(best, |w| {
                w.loss = 0;
                w.dup = 0;
                w.delay = 5;
            }),
            with(best, |w| w.replicas = 1),
            with(best, |w| w.replicas = 2.min(w.replicas)),
            with(best, |w| w.every = 1),
        ];
        for c in simpler {
            let now = serde_json::to_string(&best.plan).unwrap_or_default();
            if serde_json::to_string(&c.plan).unwrap_or_default() != now {
                let mut c = c;
                // Keep what was already simplified.
                if let (Plan::World(x), Plan::World(b)) = (&mut c.plan, &best.plan) {
                    x.replicas = x.replicas.min(b.replicas);
                    x.loss = x.loss.min(b.loss);
                    x.dup = x.dup.min(b.dup);
                    x.delay = x.delay.min(b.delay);
                    x.every = x.every.min(b.every);
                }
                any |= self.keep(best, c);
            }
        }
        for i in 0..w(best).acts.len() {
            if let Act::Update { ops, trap } = &w(best).acts[i].act {
                let (n, trap) = (ops.len(), *trap);
                if trap.is_some() {
                    let c = with(best, |w| {
                        if let Act::Update { trap, .. } = &mut w.acts[i].act {
                            *trap = None;
                        }
                    });
                    any |= self.keep(best, c);
                }
                if n > 1 {
                    any |= self.ddmin(
                        best,
                        |c| match &w(c).acts[i].act {
                            Act::Update { ops, .. } => ops.len(),
                            _ => 0,
                        },
                        |c, a, b| {
                            with(c, |w| {
                                if let Act::Update { ops, .. } = &mut w.acts[i].act {
                                    ops.drain(a..b);
                                }
                            })
                        },
                    );
                }
            }
        }
        any
    }

    fn local(&mut self, best: &mut Case) -> bool {
        fn l(c: &Case) -> &crate::local::Local {
            match &c.plan {
                Plan::Local(l) => l,
                _ => unreachable!(),
            }
        }
        fn with(c: &Case, f: impl FnOnce(&mut crate::local::Local)) -> Case {
            let mut c = c.clone();
            if let Plan::Local(l) = &mut c.plan {
                f(l);
            }
            c
        }
        fn trap(s: &mut Step) -> Option<&mut u64> {
            match s {
                Step::Op { trap, .. } | Step::Read { trap, .. } | Step::Root { trap } | Step::Dump { trap } | Step::Reload { trap, .. } | Step::Grow { trap, .. } => Some(trap),
                _ => None,
            }
        }
        let mut any = self.ddmin(best, |c| l(c).steps.len(), |c, a, b| with(c, |l| drop(l.steps.drain(a..b))));
        for i in 0..l(best).steps.len() {
            let mut now = l(best).steps[i].clone();
            if let Some(t) = trap(&mut now) {
                let t = *t;
                for smaller in [0, 1, t / 2, t.saturating_sub(1)] {
                    if smaller < t {
                        let c = with(best, |l| *trap(&mut l.steps[i]).unwrap() = smaller);
                        if self.keep(best, c) {
                            any = true;
                            break;
                        }
                    }
                }
            }
            if let Step::Op { op, .. } = &now {
                let n = op.n;
                for smaller in [n / 2, n - n / 8, n.saturating_sub(1)] {
                    if op.o == crate::coll::O::Fill && smaller < n && smaller > 0 {
                        let c = with(best, |l| {
                            if let Step::Op { op, .. } = &mut l.steps[i] {
                                op.n = smaller;
                            }
                        });
                        if self.keep(best, c) {
                            any = true;
                            break;
                        }
                    }
                }
            }
            if let Step::Grow { n, .. } = now {
                for smaller in [n / 2, n - n / 8, n.saturating_sub(1)] {
                    if smaller < n && smaller > 0 {
                        let c = with(best, |l| {
                            if let Step::Grow { n, .. } = &mut l.steps[i] {
                                *n = smaller;
                            }
                        });
                        if self.keep(best, c) {
                            any = true;
                            break;
                        }
                    }
                }
            }
        }
        any
    }

    fn layouts(&mut self, best: &mut Case) -> bool {
        fn l(c: &Case) -> &crate::layouts::Layouts {
            match &c.plan {
                Plan::Layouts(l) => l,
                _ => unreachable!(),
            }
        }
        fn with(c: &Case, f: impl FnOnce(&mut crate::layouts::Layouts)) -> Case {
            let mut c = c.clone();
            if let Plan::Layouts(l) = &mut c.plan {
                f(l);
            }
            c
        }
        let mut any = self.ddmin(best, |c| l(c).attempts.len(), |c, a, b| with(c, |l| drop(l.attempts.drain(a..b))));
        for i in 0..l(best).attempts.len() {
            any |= self.ddmin(best, |c| l(c).attempts[i].steps.len(), |c, a, b| with(c, |l| drop(l.attempts[i].steps.drain(a..b))));
            if !l(best).attempts[i].steps.is_empty() {
                // The steps name members by number.
                continue;
            }
            any |= self.ddmin(best, |c| l(c).attempts[i].members.len(), |c, a, b| with(c, |l| drop(l.attempts[i].members.drain(a..b))));
            for j in 0..l(best).attempts[i].members.len() {
                any |= self.ddmin(
                    best,
                    |c| l(c).attempts[i].members[j].first.len(),
                    |c, a, b| with(c, |l| drop(l.attempts[i].members[j].first.drain(a..b))),
                );
                if l(best).attempts[i].members[j].trap > 0 {
                    let c = with(best, |l| l.attempts[i].members[j].trap = 0);
                    any |= self.keep(best, c);
                }
            }
        }
        any
    }
}
