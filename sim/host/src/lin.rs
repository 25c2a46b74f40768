//! A linearizability check: is there an order of the operations, compatible with their real-time
//! order, that a sequential model explains?
use std::collections::HashSet;
use std::hash::Hash;

pub struct LOp<O> {
    pub s: usize,
    pub e: usize,
    /// The operation may also not have happened (it never returned).
    pub maybe: bool,
    pub op: O,
}
#[derive(PartialEq, Debug)]
pub enum Lin {
    Yes,
    No,
    /// Too expensive to tell.
    Unknown,
}
/// `step` gives the state after the operation, or nothing if its result contradicts the model.
pub fn check<O, S: Clone + Hash + Eq>(ops: &[LOp<O>], init: S, step: impl Fn(&S, &O) -> Option<S>, limit: usize) -> Lin {
    let n = ops.len();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| ops[*i].s);
    let words = n.div_ceil(64);
    let mut seen: HashSet<(Vec<u64>, S)> = HashSet::new();
    let mut stack: Vec<(Vec<u64>, S)> = vec![(vec![0; words], init)];
    let mut work = 0;
    while let Some((done, st)) = stack.pop() {
        let has = |i: usize| done[i / 64] >> (i % 64) & 1 == 1;
        // The earliest return among the open ones bounds what may come next.
        let mut bound = usize::MAX;
        let mut open = false;
        for i in 0..n {
            if !has(i) && !ops[i].maybe {
                open = true;
                bound = bound.min(ops[i].e);
            }
        }
        if !open {
            return Lin::Yes;
        }
        for &i in order.iter().rev() {
            if has(i) || ops[i].s > bound {
                continue;
            }
            work += 1;
            if let Some(x) = step(&st, &ops[i].op) {
                let mut d = done.clone();
                d[i / 64] |= 1 << (i % 64);
                let k = (d, x);
                if !seen.contains(&k) {
                    seen.insert(k.clone());
                    stack.push(k);
                }
            }
        }
        if work > limit {
            return Lin::Unknown;
        }
    }
    Lin::No
}
