//! Structural reduction of a failing input: greedy removal and simplification until nothing more can go.
use crate::case::*;
use std::time::{Duration, Instant};

fn ops_candidates(ops: &[Op]) -> Vec<Vec<Op>> {
    let mut v = vec![];
    let n = ops.len();
    if n > 3 {
        v.push(ops[..n / 2].to_vec());
        v.push(ops[n / 2..].to_vec());
    }
    for i in 0..n.min(60) {
        let mut o = ops.to_vec();
        o.remove(i);
        v.push(o);
    }
    for i in 0..n.min(60) {
        let mut put = |op: Op| {
            let mut o = ops.to_vec();
            o[i] = op;
            v.push(o);
        };
        match &ops[i] {
            Op::Times(k, op) => {
                put((**op).clone());
                if *k > 2 {
                    put(Op::Times(k / 2, op.clone()));
                    put(Op::Times(k - 1, op.clone()));
                }
            }
            Op::Sub(f) if f.len() > 1 => {
                put(Op::Sub(f[..f.len() / 2].to_vec()));
                put(Op::Sub(f[f.len() / 2..].to_vec()));
                for k in 0..f.len().min(8) {
                    let mut g = f.clone();
                    g.remove(k);
                    put(Op::Sub(g));
                }
            }
            Op::Unsub(f) if f.len() > 1 => {
                put(Op::Unsub(f[..f.len() / 2].to_vec()));
                put(Op::Unsub(f[f.len() / 2..].to_vec()));
            }
            Op::Pub { topic, qos, retain, dup, id, payload } => {
                if *payload != Payload::Tag(0) {
                    let p = |payload| Op::Pub { topic: topic.clone(), qos: *qos, retain: *retain, dup: *dup, id: *id, payload };
                    put(p(Payload::Tag(0)));
                    if let Payload::Is(Raw::Fill { n, salt }) = payload {
                        put(p(Payload::Is(Raw::Fill { n: n / 2, salt: *salt })));
                        put(p(Payload::Is(Raw::Fill { n: n.saturating_sub(1), salt: *salt })));
                    }
                }
                if *dup || *retain {
                    put(Op::Pub { topic: topic.clone(), qos: *qos, retain: false, dup: false, id: *id, payload: payload.clone() });
                }
            }
            Op::Mutated { op, muts } if muts.len() > 1 => {
                for k in 0..muts.len() {
                    let mut m = muts.clone();
                    m.remove(k);
                    put(Op::Mutated { op: op.clone(), muts: m });
                }
            }
            Op::Bytes(Raw::B(b)) if b.len() > 1 => {
                put(Op::Bytes(Raw::B(b[..b.len() / 2].to_vec())));
                for k in 0..b.len().min(24) {
                    let mut c = b.clone();
                    c.remove(k);
                    put(Op::Bytes(Raw::B(c)));
                }
            }
            _ => {}
        }
    }
    v
}
fn act_candidates(a: &Act) -> Vec<Act> {
    let mut v: Vec<Act> = ops_candidates(&a.ops).into_iter().map(|ops| Act { ops, ..a.clone() }).collect();
    if !a.segs.is_empty() {
        v.push(Act { segs: vec![], ..a.clone() });
        if a.segs.len() > 1 {
            v.push(Act { segs: a.segs[..1].to_vec(), ..a.clone() });
        }
    }
    if !a.gaps.is_empty() {
        v.push(Act { gaps: vec![], ..a.clone() });
    }
    v
}

/// Hands over one simpler input after the other until one is taken; large inputs are too many to keep.
fn candidates(i: &Input, taken: &mut dyn FnMut(Input) -> bool) -> bool {
    let c = match i {
        Input::Hist(c) => c,
        Input::Codec(k) => {
            let mut v = vec![];
            if !k.trailing.is_empty() {
                v.push(Input::Codec(CodecCase { trailing: vec![], ..k.clone() }));
            }
            if let (Raw::B(b), false) = (&k.packet, k.well_formed) {
                for j in 0..b.len().min(64) {
                    let mut c = b.clone();
                    c.remove(j);
                    v.push(Input::Codec(CodecCase { packet: Raw::B(c), ..k.clone() }));
                }
            }
            return v.into_iter().any(taken);
        }
    };
    let mut put = |c: Case| taken(Input::Hist(c));
    let n = c.steps.len();
    if n > 3 {
        if put(Case { steps: c.steps[..n / 2].to_vec(), ..c.clone() }) {
            return true;
        }
    }
    // Whole stretches first.
    for parts in [4, 16, 64] {
        let w = n / parts;
        for k in (0..if w > 1 { parts } else { 0 }).rev() {
            let mut s = c.steps.clone();
            s.drain(k * w..(k + 1) * w);
            if put(Case { steps: s, ..c.clone() }) {
                return true;
            }
        }
    }
    for i in (0..n).rev() {
        let mut s = c.steps.clone();
        s.remove(i);
        if put(Case { steps: s, ..c.clone() }) {
            return true;
        }
    }
    for i in 0..n {
        let with = |st: Step| {
            let mut s = c.steps.clone();
            s[i] = st;
            Case { steps: s, ..c.clone() }
        };
        let (acts, at) = match &c.steps[i] {
            Step::Batch(a) => (a, None),
            Step::Interrupt { acts, at, around_accept } => (acts, Some((*at, *around_accept))),
            Step::Idle(ms) if *ms > 1 => {
                if put(with(Step::Idle(ms / 2))) {
                    return true;
                }
                continue;
            }
            _ => continue,
        };
        let mk = |acts: Vec<Act>| match at {
            None => Step::Batch(acts),
            Some((at, around_accept)) => Step::Interrupt { acts, at, around_accept },
        };
        for parts in [2, 8, 32] {
            let w = acts.len() / parts;
            for k in 0..if w > 1 { parts } else { 0 } {
                let mut a = acts.clone();
                a.drain(k * w..(k + 1) * w);
                if put(with(mk(a))) {
                    return true;
                }
            }
        }
        for j in 0..acts.len() {
            let mut a = acts.clone();
            a.remove(j);
            if put(with(mk(a))) {
                return true;
            }
        }
        for j in 0..acts.len() {
            for b in act_candidates(&acts[j]) {
                let mut a = acts.clone();
                a[j] = b;
                if put(with(mk(a))) {
                    return true;
                }
            }
        }
    }
    for (i, s) in c.slots.iter().enumerate() {
        if *s != Slot::default() {
            let mut sl = c.slots.clone();
            sl[i] = Slot::default();
            if put(Case { slots: sl, ..c.clone() }) {
                return true;
            }
            for part in 0..3 {
                let mut t = s.clone();
                match part {
                    0 => t.yields.clear(),
                    1 => t.write_caps.clear(),
                    _ => t.write_delays.clear(),
                }
                if t != *s {
                    let mut sl = c.slots.clone();
                    sl[i] = t;
                    if put(Case { slots: sl, ..c.clone() }) {
                        return true;
                    }
                }
            }
        }
    }
    if c.rng != 0 {
        if put(Case { rng: 0, ..c.clone() }) {
            return true;
        }
    }
    false
}

pub fn reduce(mut best: Input, budget: Duration, mut fails: impl FnMut(&Input) -> bool) -> Input {
    let start = Instant::now();
    loop {
        let mut better = None;
        candidates(&best, &mut |c| {
            if start.elapsed() > budget {
                return true;
            }
            let found = fails(&c);
            if found {
                better = Some(c);
            }
            found
        });
        match better {
            Some(c) => best = c,
            None => return best,
        }
    }
}
