//! Oracle over hash rings (C22).
use std::collections::BTreeMap;

use simapi::ev;

use crate::lin::{self, LOp, Lin};
use crate::pool::View;
use crate::props::Out;

const INF: usize = usize::MAX;

#[derive(Debug, Clone)]
enum R {
    Add(usize, i64, i64),
    Del(usize, i64),
    AddAll([i64; 6]),
    SetAll([i64; 6]),
    /// What the ring answers for a probe.
    Look(usize, i64),
}
#[derive(Debug, Clone)]
enum V {
    Put(i64, i64),
    /// The first half (always there) of a replacement, and its second half.
    Drop(u32),
    Then(u32, i64),
    Set(i64),
    Take(i64),
    Is(i64),
}
struct Op {
    s: usize,
    e: usize,
    what: i64,
    key: usize,
    val: i64,
    set: [i64; 6],
    res: i64,
}

pub fn c22(v: &View) -> Out {
    let mut o = Out::default();
    let mut order: [[usize; 6]; 6] = [[0; 6]; 6];
    let mut seen = 0;
    let mut ops: BTreeMap<i64, Op> = BTreeMap::new();
    let mut sets: BTreeMap<i64, [i64; 6]> = BTreeMap::new();
    for (i, r) in v.recs.iter().enumerate() {
        match r.kind as u32 {
            ev::RING_ORDER => {
                let p = r.a[0] as usize;
                for j in 0..6 {
                    order[p][j] = (r.a[1] >> (4 * j) & 15) as usize;
                }
                let mut c = order[p];
                c.sort();
                if c != [0, 1, 2, 3, 4, 5] {
                    o.v("ownership", format!("removing owners one after another does not show every node once: {:?}", order[p]));
                    return o;
                }
                seen += 1;
            }
            ev::RING_SET => {
                sets.entry(r.a[0]).or_insert([-2; 6])[r.a[1] as usize] = r.a[2];
            }
            ev::RING => {
                let set = sets.get(&r.a[0]).copied().unwrap_or([-2; 6]);
                ops.insert(r.a[0], Op { s: i, e: INF, what: r.a[1], key: r.a[2] as usize, val: r.a[3], set, res: 0 });
            }
            ev::RING_RET => {
                if let Some(x) = ops.get_mut(&r.a[0]) {
                    x.e = i;
                    x.res = r.a[1];
                }
            }
            _ => {}
        }
    }
    if seen < 6 {
        return o;
    }
    // Probes 0 and 1 are keys of nodes 0 and 3.
    if order[0][0] != 0 || order[1][0] != 3 {
        o.v("own-key", "the key of a node is not owned by that node".into());
    }
    // The same cyclic order from everywhere.
    let rot = |p: usize| -> [usize; 6] {
        let z = order[p].iter().position(|x| *x == 0).unwrap();
        std::array::from_fn(|j| order[p][(z + j) % 6])
    };
    for p in 1..6 {
        if rot(p) != rot(0) {
            o.v("order", "removing a node moved keys it did not own".into());
        }
    }
    let open = ops.values().filter(|x| x.e == INF).count();
    if open > 0 {
        o.v("stuck", format!("{} operations on the ring never returned", open));
        return o;
    }
    // The ring itself.
    let mut rops: Vec<LOp<R>> = Vec::new();
    let mut vops: [Vec<LOp<V>>; 6] = Default::default();
    let (mut hits, mut overs, mut nones) = (0, 0, 0);
    let mut n = 0u32;
    for x in ops.values() {
        let mut ring = |op| rops.push(LOp { s: x.s, e: x.e, maybe: false, op });
        let mut over = |p: usize, op| vops[p].push(LOp { s: x.s, e: x.e, maybe: false, op });
        match x.what {
            0 => {
                if x.res >= 0 && x.res % 16 >= 8 {
                    overs += 1;
                    if x.res % 16 - 8 != x.key as i64 {
                        o.v("wrong-override", "a lookup returned the override of another key".into());
                    }
                    over(x.key, V::Is(x.res));
                } else {
                    if x.res == -2 {
                        nones += 1
                    } else {
                        hits += 1
                    }
                    over(x.key, V::Is(-2));
                    ring(R::Look(x.key, x.res));
                }
            }
            1 => ring(R::Add(x.key, x.val, x.res)),
            2 => ring(R::Del(x.key, x.res)),
            3 => ring(R::AddAll(x.set)),
            4 => ring(R::SetAll(x.set)),
            5 => over(x.key, V::Put(x.val, x.res)),
            6 => over(x.key, V::Take(x.res)),
            7 => {
                for p in 0..6 {
                    if x.set[p] >= 0 {
                        over(p, V::Set(x.set[p]));
                    }
                }
            }
            8 => {
                for p in 0..6 {
                    over(p, V::Drop(n % 60));
                    if x.set[p] >= 0 {
                        over(p, V::Then(n % 60, x.set[p]));
                    }
                }
                n += 1;
            }
            _ => {
                ring(R::SetAll([-2; 6]));
                for p in 0..6 {
                    over(p, V::Drop(60));
                }
            }
        }
    }
    let step = |m: &[i64; 6], op: &R| -> Option<[i64; 6]> {
        let mut m = *m;
        match op {
            R::Add(k, x, old) => {
                if m[*k] != *old {
                    return None;
                }
                m[*k] = *x;
            }
            R::Del(k, old) => {
                if m[*k] != *old {
                    return None;
                }
                m[*k] = -2;
            }
            R::AddAll(s) => {
                for k in 0..6 {
                    if s[k] >= 0 {
                        m[k] = s[k];
                    }
                }
            }
            R::SetAll(s) => m = *s,
            R::Look(p, res) => {
                let owner = order[*p].iter().map(|n| m[*n]).find(|x| *x >= 0).unwrap_or(-2);
                if owner != *res {
                    return None;
                }
            }
        }
        Some(m)
    };
    match lin::check(&rops, [-2; 6], step, 200_000) {
        Lin::No => o.v("ring", format!("no order of the {} operations on the ring explains their results", rops.len())),
        Lin::Unknown => o.probe("undecided (too many concurrent operations)"),
        Lin::Yes => {}
    }
    for (p, l) in vops.iter().enumerate() {
        let step = |m: &(i64, u64), op: &V| -> Option<(i64, u64)> {
            let mut m = *m;
            match op {
                V::Put(x, old) => {
                    if m.0 != *old {
                        return None;
                    }
                    m.0 = *x;
                }
                V::Drop(i) => {
                    m.0 = -2;
                    m.1 |= 1 << i;
                }
                V::Then(i, x) => {
                    if m.1 >> i & 1 == 0 {
                        return None;
                    }
                    m.0 = *x;
                }
                V::Set(x) => m.0 = *x,
                V::Take(old) => {
                    if m.0 != *old {
                        return None;
                    }
                    m.0 = -2;
                }
                V::Is(x) if m.0 != *x => return None,
                V::Is(_) => {}
            }
            Some(m)
        };
        match lin::check(l, (-2, 0), step, 100_000) {
            Lin::No => o.v("overrides", format!("no order of the operations on the overrides of key {} explains their results", p)),
            Lin::Unknown => o.probe("undecided (too many concurrent operations)"),
            Lin::Yes => {}
        }
    }
    o.probe_if(hits > 0, "a lookup found a node");
    o.probe_if(overs > 0, "a lookup found an override");
    o.probe_if(nones > 0, "a lookup found nothing");
    let mut conc = 0;
    for x in ops.values().filter(|x| x.what > 0) {
        if ops.values().any(|y| y.s > x.s && y.s < x.e) {
            conc += 1;
        }
    }
    o.probe_if(conc > 0, "an update overlapped another operation");
    o.nontrivial = rops.len() >= 18 && hits + overs > 0;
    o
}
