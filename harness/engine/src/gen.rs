//! Generators: for each property, the histories (or byte strings) that stress it.
use crate::case::*;
use crate::refcodec::*;
use crate::scale;
use crate::world::Stats;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, subsequence};

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn(Tier) -> BoxedStrategy<Input>,
    pub nontrivial: fn(&Stats) -> bool,
    /// Inputs every run begins with (spread over the workers).
    pub fixed: fn(Tier) -> Vec<Input>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

// ------------------------------------------------------------------ pieces

pub fn batch(acts: Vec<Act>) -> Step {
    Step::Batch(acts)
}
pub fn act(slot: usize, ops: Vec<Op>) -> Act {
    Act { slot, ops, segs: vec![], gaps: vec![] }
}
pub fn cid(i: usize) -> String {
    format!("c{i}")
}
pub fn connect_all(n: usize, ka: u16) -> Step {
    batch((0..n).map(|i| act(i, vec![Op::Connect(Conn::plain(cid(i), ka))])).collect())
}
pub fn publish(topic: impl Into<String>, qos: u8) -> Op {
    Op::Pub { topic: Name::S(topic.into()), qos, retain: false, dup: false, id: PubId::Auto, payload: Payload::Tag(0) }
}
pub fn case(slots: Vec<Slot>, steps: Vec<Step>, rng: u32) -> Input {
    Input::Hist(Case { rng, slots, steps, rounds: 0, keep: false })
}
pub fn plain_slots(n: usize) -> Vec<Slot> {
    vec![Slot::default(); n]
}

fn level() -> BoxedStrategy<String> {
    prop_oneof![
        10 => select(vec!["a", "b"]),
        4 => select(vec!["c", ""]),
        2 => select(vec!["A", "ab", "é", "$", "a b", "d", "aa", "日本", "-", "0"]),
        1 => select(vec!["\u{feff}a", "\u{feff}", "e\u{301}", "a\u{feff}", " a", "a ", " ", "𝄞", "\u{10fffd}", "ß", "SS", "İ", "É", "\u{e9}\u{301}", "e\u{301}\u{301}", "д", "Д", "\u{1}", "a\u{7f}", "\u{85}", "\t", "a\n", "\r\n", "a\r\nb", "\r", "&amp;", "%00", "a\u{0308}", "\u{202e}a", "🇦🇶", "a  b", "ﬁ", "fi", "\u{200d}a", "\u{ad}", "$share", ".", "..", "*", "\\", "%2F", "\"", "a\u{2028}b", "\u{a0}"]),
    ]
    .prop_map(String::from)
    .boxed()
}
fn tidy(mut s: String) -> String {
    if s.is_empty() {
        s.push('a');
    }
    s
}
fn dollar() -> BoxedStrategy<Option<&'static str>> {
    prop_oneof![9 => Just(None), 1 => select(vec![Some("$SYS"), Some("$"), Some("$a"), Some("$SHARE"), Some("$share/g"), Some("$share/h"), Some("$share")])].boxed()
}
/// Names around the level "$share", whole and incomplete.
fn share_topic() -> BoxedStrategy<String> {
    select(vec!["$share", "$share/", "$share//", "$share/g", "$share/g/", "$share//a", "$sharex/g/a", "$share/g/a/b", "$share/h/a", "$share/g//a", "/$share/g/a"])
        .prop_map(String::from)
        .boxed()
}
fn share_filter() -> BoxedStrategy<String> {
    let odd = select(vec![
        "$share", "$share/", "$share//", "$share/g", "$share/g/", "$share//a", "$share/+", "$share/#", "$share/+/a", "$share/#/a", "$share/g+/a", "$share/g#/a",
        "$share/g/#", "$share/g/+", "$share/g/+/#", "$share/h/a", "$share/g//a", "$share/g/a/b", "$share/g/a#", "$share/g/#/a", "$share/g/a+", "$sharex/g/a", "$SHARE/g/a", "+/$share/g",
    ]);
    odd.prop_map(String::from).boxed()
}
pub fn topic() -> BoxedStrategy<String> {
    prop_oneof![80 => common_topic(), 2 => share_topic(), 1 => tall_topic()].boxed()
}
/// Many levels, or long ones.
fn tall_topic() -> BoxedStrategy<String> {
    prop_oneof![
        1 => (select(vec!["a", "b", "ab", "é"]), 5usize..190).prop_map(|(l, n)| vec![l; n].join("/")),
        1 => (level(), select(vec!["x", "é", "日"]), prop_oneof![20usize..70, 120usize..135, 250usize..260, 1000usize..1100]).prop_map(|(l, u, n)| format!("{l}{}", u.repeat(n))),
    ]
    .boxed()
}
fn common_topic() -> BoxedStrategy<String> {
    (dollar(), vec(level(), 1..=4))
        .prop_map(|(d, mut l)| {
            if let Some(d) = d {
                l.insert(0, d.into());
            }
            tidy(l.join("/"))
        })
        .boxed()
}
/// A filter that is valid (or, now and then, an odd one below "$share").
pub fn filter() -> BoxedStrategy<String> {
    prop_oneof![80 => common_filter(), 2 => share_filter(), 1 => tall_filter()].boxed()
}
fn common_filter() -> BoxedStrategy<String> {
    let lv = prop_oneof![5 => level(), 2 => Just("+".to_string())];
    (dollar(), vec(lv, 0..=4), prop::bool::weighted(0.3))
        .prop_map(|(d, mut l, hash)| {
            if let Some(d) = d {
                l.insert(0, d.into());
            }
            if hash || l.is_empty() {
                l.push("#".into());
            }
            tidy(l.join("/"))
        })
        .boxed()
}
pub fn bad_filter() -> BoxedStrategy<String> {
    select(vec![
        "a/#/b", "#/", "#/a", "a#", "a/b#", "+a", "a+", "a/+b/c", "a/b+/#", "##", "++", "a/++", "+#", "a/#b", "/#/", "#+", "a/##", "", "a/+#",
        "$SYS/#/x", "b/ #", "+ ", "a/+/c+",
    ])
    .prop_map(String::from)
    .boxed()
}
/// A topic a filter matches, or nearly.
fn topic_for(f: String) -> BoxedStrategy<String> {
    (vec(level(), 8), 0usize..4, 0u8..10)
        .prop_map(move |(ls, extra, tweak)| {
            let mut out: Vec<String> = vec![];
            let mut k = 0;
            for l in f.split('/') {
                match l {
                    "+" => {
                        out.push(ls[k % 8].clone());
                        k += 1;
                    }
                    "#" => {
                        for _ in 0..extra {
                            out.push(ls[k % 8].clone());
                            k += 1;
                        }
                    }
                    l => out.push(l.replace(['+', '#'], "w")),
                }
            }
            match tweak {
                0 => out.push("".into()),
                1 => out.push("a".into()),
                2 => {
                    out.pop();
                }
                3 => {
                    let n = out.len();
                    if n > 0 {
                        out[k % n].push('x');
                    }
                }
                4 => {
                    // The same name in another case, or composed otherwise: another name.
                    let i = k % out.len().max(1);
                    if let Some(l) = out.get_mut(i) {
                        *l = if l.contains('é') {
                            l.replace('é', "e\u{301}")
                        } else if l.to_uppercase() != *l {
                            l.to_uppercase()
                        } else {
                            l.to_lowercase()
                        };
                    }
                }
                5 => {
                    let s = out.join("/").to_uppercase();
                    out = s.split('/').map(String::from).collect();
                }
                _ => {}
            }
            tidy(out.join("/"))
        })
        .boxed()
}
fn qos() -> BoxedStrategy<u8> {
    (0u8..3).boxed()
}
fn names(v: Vec<(String, u8)>) -> Vec<(Name, u8)> {
    v.into_iter().map(|(f, q)| (Name::S(f), q)).collect()
}
fn segs() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        4 => Just(vec![]),
        2 => Just(vec![1]),
        3 => vec(1u32..12, 1..6),
        2 => vec(1u32..200, 1..5),
        1 => vec(prop_oneof![Just(8191u32), Just(8192), Just(8193), Just(4096), Just(1), Just(1460), Just(65536)], 1..4),
    ]
    .boxed()
}
fn gaps() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![3 => Just(vec![]), 2 => vec(0u16..5, 1..5), 1 => vec(0u16..400, 1..4)].boxed()
}
/// Pauses in which anything that waits for a while gives up.
fn long_gaps() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![2 => gaps(), 1 => vec(prop_oneof![2 => 0u16..400, 1 => 400u16..20_000, 1 => 20_000u16..=65_535], 1..5)].boxed()
}
fn fast_gaps() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![3 => Just(vec![]), 2 => vec(0u16..4, 1..5)].boxed()
}
fn ack() -> BoxedStrategy<Ack> {
    prop_oneof![5 => Just(Ack::Auto), 1 => Just(Ack::Never), 2 => (2u8..5).prop_map(Ack::Some), 1 => (1u16..4).prop_map(Ack::Half), 1 => (1u16..4).prop_map(Ack::Wrong), 1 => (1u8..3).prop_map(Ack::Only)].boxed()
}
fn yields() -> BoxedStrategy<Vec<bool>> {
    prop_oneof![3 => Just(vec![]), 2 => vec(any::<bool>(), 1..8)].boxed()
}
/// A client socket with ordinary behaviour and arbitrary scheduling.
fn slot() -> BoxedStrategy<Slot> {
    (yields(), ack()).prop_map(|(yields, ack)| Slot { yields, ack, ..Default::default() }).boxed()
}
fn caps() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![2 => Just(vec![1u32]), 4 => vec(1u32..9, 1..5), 2 => vec(1u32..300, 1..5), 1 => vec(prop_oneof![Just(4096u32), Just(65536), Just(1)], 1..4)]
        .boxed()
}
/// A client whose socket takes little at a time.
fn slow_slot() -> BoxedStrategy<Slot> {
    (yields(), caps(), prop_oneof![2 => Just(vec![]), 1 => vec(0u16..4, 1..4)], ack())
        .prop_map(|(yields, write_caps, write_delays, ack)| Slot { yields, write_caps, write_delays, ack })
        .boxed()
}
fn payload() -> BoxedStrategy<Payload> {
    prop_oneof![
        6 => (0u32..40).prop_map(Payload::Tag),
        1 => Just(Payload::Is(Raw::B(vec![]))),
        2 => vec(any::<u8>(), 0..40).prop_map(|v| Payload::Is(Raw::B(v))),
        1 => (0u32..600).prop_map(Payload::Tag),
    ]
    .boxed()
}
fn pub_op(t: BoxedStrategy<String>) -> BoxedStrategy<Op> {
    (t, qos(), prop::bool::weighted(0.2), payload())
        .prop_map(|(t, qos, dup, payload)| Op::Pub {
            topic: Name::S(t),
            qos,
            retain: false,
            dup: dup && qos > 0,
            id: PubId::Auto,
            payload,
        })
        .boxed()
}
fn sub_op() -> BoxedStrategy<Op> {
    vec((prop_oneof![9 => filter(), 1 => bad_filter()], qos()), 1..4).prop_map(|v| Op::Sub(names(v))).boxed()
}
fn any_op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => sub_op(),
        2 => vec(filter(), 1..3).prop_map(|v| Op::Unsub(v.into_iter().map(Name::S).collect())),
        8 => pub_op(topic()),
        2 => Just(Op::Ping),
        1 => (1u16..5).prop_map(Op::PubRel),
        1 => (1u16..5).prop_map(Op::PubRec),
        1 => (1u16..5).prop_map(Op::PubAck),
        1 => (1u16..5).prop_map(Op::PubComp),
    ]
    .boxed()
}
fn rng() -> BoxedStrategy<u32> {
    any::<u32>().boxed()
}
fn none(_: Tier) -> Vec<Input> {
    vec![]
}

/// Ordinary life added to a history: connections that say nothing (or half a packet), failing accepts,
/// streams cut into pieces, tasks delayed.
#[derive(Clone, Debug)]
enum Spice {
    Large(u16, Op),
    Silent(Vec<u8>),
    Cut(Vec<u32>, Vec<u16>),
    AcceptError(u8),
    Idle(u32),
    Yields(Vec<bool>),
    Talk(Vec<Op>),
    Life(Box<Conn>, Vec<Op>, Vec<(u16, LifeEvent)>),
}
/// What happens to a client that lives next to the main history.
#[derive(Clone, Debug)]
enum LifeEvent {
    Stall(u32),
    Resume,
    Ops(Vec<Op>),
    End(Op),
    Again,
    Takeover,
}
fn life() -> BoxedStrategy<Spice> {
    let conn = prop_oneof![3 => Just(Conn::plain("", 0)), 1 => conn()];
    let subs = prop_oneof![3 => vec((filter(), qos()), 1..4).prop_map(|v| Op::Sub(names(v))), 1 => Just(Op::Sub(vec![("#".into(), 1)]))];
    let end = || select(vec![Op::Disconnect, Op::Eof, Op::Reset, Op::Bytes(Raw::B(vec![0xf0, 0])), Op::Bytes(Raw::B(vec![0x30, 3, 0, 1, b'#']))]);
    let ev = prop_oneof![
        2 => (0u32..60).prop_map(LifeEvent::Stall),
        1 => Just(LifeEvent::Resume),
        3 => vec(any_op(), 1..4).prop_map(LifeEvent::Ops),
        3 => end().prop_map(LifeEvent::End),
        2 => Just(LifeEvent::Again),
        1 => Just(LifeEvent::Takeover),
    ];
    (conn, prop_oneof![4 => Just(0u16), 1 => 1u16..20], subs, vec(any_op(), 0..3), vec((any::<u16>(), ev), 1..5))
        .prop_map(|(mut conn, keepalive, sub, ops, mut evs)| {
            conn.keepalive = keepalive;
            evs.sort_by_key(|e| e.0);
            Spice::Life(Box::new(conn), [vec![sub], ops].concat(), evs)
        })
        .boxed()
}
fn spice(hist: BoxedStrategy<Input>, cuts: bool, errors: bool) -> BoxedStrategy<Input> {
    let quiet = prop_oneof![4 => Just(vec![]), 1 => Just(vec![0x10]), 1 => Just(vec![0x10, 20, 0, 4, b'M']), 1 => Just(vec![0x30, 3, 0]), 1 => Just(vec![0x10, 0xff])];
    let one = (
        any::<u16>(),
        prop_oneof![
            3 => quiet.prop_map(Spice::Silent),
            3 => (0u8..8).prop_map(Spice::AcceptError),
            2 => (segs(), fast_gaps()).prop_map(|(a, b)| Spice::Cut(a, b)),
            1 => (0u32..900).prop_map(Spice::Idle),
            2 => vec(any::<bool>(), 1..8).prop_map(Spice::Yields),
            1 => vec(any_op(), 1..4).prop_map(Spice::Talk),
            1 => (any::<u16>(), large_op()).prop_map(|(i, op)| Spice::Large(i, op)),
            3 => life(),
        ],
    );
    (hist, prop_oneof![3 => Just(vec![]), 1 => vec(one, 1..5)])
        .prop_map(move |(input, spices)| {
            let Input::Hist(mut c) = input else { return input };
            for (at, s) in spices {
                let k = at as usize % c.steps.len().max(1);
                match s {
                    Spice::Silent(b) => {
                        c.slots.push(Slot::default());
                        let mut ops = vec![Op::Open];
                        if !b.is_empty() {
                            ops.push(Op::Bytes(Raw::B(b)));
                        }
                        c.steps.insert(k, batch(vec![act(c.slots.len() - 1, ops)]));
                    }
                    Spice::AcceptError(e) if errors => c.steps.insert(k, Step::AcceptError(e)),
                    Spice::AcceptError(_) => {}
                    Spice::Idle(ms) => c.steps.insert(k, Step::Idle(ms)),
                    Spice::Yields(y) => {
                        let n = c.slots.len();
                        c.slots[at as usize % n].yields = y;
                    }
                    Spice::Talk(ops) => {
                        c.slots.push(Slot::default());
                        let n = c.slots.len() - 1;
                        let mut all = vec![Op::Connect(Conn::plain(format!("talk{n}"), 0))];
                        all.extend(ops);
                        c.steps.insert(k, batch(vec![act(n, all)]));
                    }
                    Spice::Life(mut conn, ops, evs) => {
                        c.slots.push(Slot::default());
                        let mut n = c.slots.len() - 1;
                        if conn.cid.is_empty() {
                            conn.cid = format!("life{n}");
                        } else {
                            conn.cid += &format!("-{n}");
                        }
                        let begin = |n: usize, conn: &Conn| {
                            let mut all = vec![Op::Open, Op::Connect(conn.clone())];
                            all.extend(ops.iter().cloned());
                            batch(vec![act(n, all)])
                        };
                        // Places from the back, so that they stay right.
                        let last = c.steps.len();
                        let mut ins = vec![(k, vec![begin(n, &conn)])];
                        for (at, e) in evs {
                            let place = k + at as usize * (last - k) / 65536;
                            ins.push((place, match e {
                                LifeEvent::Stall(b) => vec![Step::Window { slot: n, bytes: Some(b) }],
                                LifeEvent::Resume => vec![Step::Window { slot: n, bytes: None }],
                                LifeEvent::Ops(o) => vec![batch(vec![act(n, o)])],
                                LifeEvent::End(o) => vec![batch(vec![act(n, vec![o])])],
                                LifeEvent::Again => vec![begin(n, &conn)],
                                LifeEvent::Takeover => {
                                    c.slots.push(Slot::default());
                                    n = c.slots.len() - 1;
                                    vec![begin(n, &conn)]
                                }
                            }));
                        }
                        for (place, steps) in ins.into_iter().rev() {
                            for s in steps.into_iter().rev() {
                                c.steps.insert(place, s);
                            }
                        }
                    }
                    Spice::Large(i, op) => {
                        // Among what a client sends anyway, so that others share its reads.
                        if let (true, Some(Step::Batch(acts))) = (c.slots.iter().all(|s| s.write_caps.is_empty()), c.steps.get_mut(k)) {
                            let n = acts.len();
                            let Some(a) = acts.get_mut(i as usize % n.max(1)) else { continue };
                            if a.segs.is_empty() || a.segs.iter().any(|n| *n > 1000) {
                                let places: Vec<usize> = (0..a.ops.len()).filter(|j| matches!(a.ops[*j], Op::Pub { .. } | Op::Sub(_) | Op::Unsub(_) | Op::Ping)).collect();
                                if !places.is_empty() {
                                    a.ops.insert(places[i as usize / 7 % places.len()], op);
                                }
                            }
                        }
                    }
                    Spice::Cut(segs, gaps) => {
                        if let (true, Some(Step::Batch(acts))) = (cuts, c.steps.get_mut(k)) {
                            for a in acts.iter_mut().filter(|a| a.segs.is_empty() && a.gaps.is_empty() && a.ops.len() < 30) {
                                if !a.ops.iter().any(|o| large(o)) {
                                    a.segs = segs.clone();
                                    a.gaps = gaps.clone();
                                }
                            }
                        }
                    }
                }
            }
            Input::Hist(c)
        })
        .boxed()
}
/// A message over the size of every ordinary buffer.
fn large_op() -> BoxedStrategy<Op> {
    let n = prop_oneof![4 => 3000u32..20_000, 2 => 8000u32..8400, 2 => 16_000u32..16_800, 1 => 20_000u32..70_000];
    (select(vec!["a", "a/a", "big"]), qos(), n, any::<u8>())
        .prop_map(|(t, qos, n, salt)| Op::Pub { topic: t.into(), qos, retain: false, dup: false, id: PubId::Auto, payload: Payload::Is(Raw::Fill { n, salt }) })
        .boxed()
}
/// Long enough that sending it in small pieces only costs time.
fn large(op: &Op) -> bool {
    let name = |n: &Name| matches!(n, Name::Rep { n, .. } if *n > 1000);
    match op {
        Op::Times(..) => true,
        Op::Pub { topic, payload, .. } => name(topic) || matches!(payload, Payload::Is(Raw::Fill { n, .. }) | Payload::Tag(n) if *n > 3000),
        Op::Sub(v) | Op::SubId(_, v) => v.len() > 100 || v.iter().any(|x| name(&x.0)),
        Op::Unsub(v) | Op::UnsubId(_, v) => v.len() > 100 || v.iter().any(name),
        _ => false,
    }
}

/// Dozens of clients at once: everyone subscribed to the same and to their own, some stuck, many ending,
/// one identifier after the other taken over.
fn crowd(t: Tier, interrupt: bool) -> BoxedStrategy<Input> {
    let max = if t == Tier::Quick { 200usize } else { 600 };
    let end = || select(vec![Op::Disconnect, Op::Eof, Op::Reset, Op::Bytes(Raw::B(vec![0xf0, 0])), Op::Open]);
    let shape = (prop_oneof![12 => 5usize..70, 1 => 70usize..max], qos(), qos(), vec((any::<u16>(), end()), 0..40), vec((any::<u16>(), any::<u16>()), 0..20), vec(any::<u16>(), 0..4), vec((topic(), qos()), 0..5));
    (shape, vec(slot(), 8), rng(), 0u16..60, 1u32..6)
        .prop_map(move |((n, q1, q2, ends, takeovers, stuck, extra), few, rng, at, each)| {
            let slots: Vec<Slot> = (0..n).map(|i| few[i % few.len()].clone()).collect();
            let mut steps = vec![connect_all(n, 0)];
            let sub = |i: usize| Op::Sub(vec![("all/#".into(), q1), (Name::S(format!("own/{i}")), q2), (Name::S(format!("+/{}", i / 2)), 1)]);
            steps.push(batch((0..n).map(|i| act(i, vec![sub(i)])).collect()));
            let talk = |k: usize| -> Vec<Act> {
                (0..n)
                    .filter(|i| i % 7 == k % 7)
                    .map(|i| {
                        let mut ops: Vec<Op> = (0..each).map(|j| publish(format!("own/{}", (i * 31 + j as usize) % n), (j % 3) as u8)).collect();
                        ops.push(publish("all/x", q2));
                        act(i, ops)
                    })
                    .collect()
            };
            for s in &stuck {
                steps.push(Step::Window { slot: *s as usize % n, bytes: Some(9) });
            }
            steps.push(batch(talk(0)));
            let mut acts: Vec<Act> = vec![];
            let mut used = vec![];
            for (s, e) in ends {
                let s = s as usize % n;
                if !used.contains(&s) {
                    used.push(s);
                    acts.push(act(s, vec![publish(format!("own/{}", (s + 1) % n), 1), e]));
                }
            }
            steps.push(batch(acts));
            for (a, b) in takeovers {
                let (a, b) = (a as usize % n, b as usize % n);
                steps.push(batch(vec![act(a, vec![Op::Open, Op::Connect(Conn::plain(cid(b), 0)), sub(a)])]));
            }
            steps.push(batch(vec![act(0, extra.into_iter().map(|(t, q)| publish(t, q)).collect())]));
            for s in &stuck {
                steps.push(Step::Window { slot: *s as usize % n, bytes: None });
            }
            if interrupt {
                for s in &stuck {
                    steps.push(Step::Window { slot: *s as usize % n, bytes: Some(30) });
                }
                steps.push(Step::Interrupt { acts: talk(1), at, around_accept: false });
            } else {
                steps.push(batch(talk(1)));
            }
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C01

/// Many levels, or long ones.
fn tall_filter() -> BoxedStrategy<String> {
    let deep = (vec(prop_oneof![4 => select(vec!["a", "b", ""]), 2 => Just("+")], 5..=20), prop_oneof![3 => Just(1usize), 1 => 2usize..10], any::<bool>()).prop_map(|(l, times, hash)| {
        let mut v: Vec<&str> = vec![];
        for _ in 0..times {
            v.extend(&l);
        }
        v.truncate(190);
        if hash {
            v.push("#");
        }
        v.join("/")
    });
    let long = (level(), select(vec!["x", "é", "日"]), prop_oneof![20u32..70, 120u32..135, 250u32..260, 1000u32..5000], prop_oneof![Just("".to_string()), Just("/#".to_string()), common_filter().prop_map(|f| format!("/{f}"))])
        .prop_map(|(l, u, n, rest)| format!("{l}{}{rest}", u.repeat(n as usize)));
    prop_oneof![3 => deep, 1 => long].prop_map(tidy).boxed()
}
fn c01(_: Tier) -> BoxedStrategy<Input> {
    let f = || prop_oneof![12 => filter(), 1 => tall_filter()];
    let subs = prop_oneof![
        12 => vec(vec((f(), qos()), 1..5), 1..4),
        1 => vec(vec((f(), qos()), 1..30), 1..9),
    ];
    (subs, rng())
        .prop_flat_map(|(subs, rng)| {
            let all: Vec<String> = subs.iter().flatten().map(|x| x.0.clone()).collect();
            let t = prop_oneof![2 => topic(), 5 => select(all).prop_flat_map(topic_for)].boxed();
            (Just(subs), vec((t, qos()), 4..16), Just(rng))
        })
        .prop_map(|(subs, topics, rng)| {
            let n = subs.len();
            let mut steps = vec![connect_all(n + 1, 0)];
            steps.push(batch(subs.into_iter().enumerate().map(|(i, f)| act(i, vec![Op::Sub(names(f))])).collect()));
            steps.push(batch(vec![act(n, topics.into_iter().map(|(t, q)| publish(t, q)).collect())]));
            case(plain_slots(n + 1), steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C02

fn pool() -> BoxedStrategy<Vec<String>> {
    let nested = vec!["a", "a/b", "a/b/c", "a/#", "a/+", "a/+/c", "#", "+", "+/b", "a/b/#", "/a", "a/", "/", "+/+", "b", "a/b/c/d", "$SYS/#", "a//b", "+/#"];
    (subsequence(nested, 3..7), vec(filter(), 0..3))
        .prop_map(|(n, r)| n.into_iter().map(String::from).chain(r).collect())
        .boxed()
}
fn c02(t: Tier) -> BoxedStrategy<Input> {
    let max = if t == Tier::Quick { 12 } else { 30 };
    (pool(), 1usize..4, rng())
        .prop_flat_map(move |(pool, n, rng)| {
            let f = select(pool.clone());
            let change = prop_oneof![
                5 => vec((prop_oneof![12 => f.clone().boxed(), 1 => bad_filter()], qos()), 1..4).prop_map(|v| Op::Sub(names(v))),
                5 => vec(f.clone(), 1..4).prop_map(|v| Op::Unsub(v.into_iter().map(Name::S).collect())),
                1 => filter().prop_map(|f| Op::Unsub(vec![Name::S(f)])),
            ];
            let step = (vec((0..n, vec(change, 1..3)), 1..3), vec((select(pool.clone()).prop_flat_map(topic_for), qos()), 1..6), any::<bool>(), prop_oneof![7 => Just(0u32), 1 => 1u32..25]);
            (Just(pool), Just(n), vec(step, 3..=max), Just(rng))
        })
        .prop_map(|(pool, n, hist, rng)| {
            let mut steps = vec![connect_all(n + 1, 0)];
            for (changes, pubs, merged, flood) in hist {
                let mut acts: Vec<Act> = changes.into_iter().map(|(s, o)| act(s, o)).collect();
                let mut p = act(n, pubs.into_iter().map(|(t, q)| publish(t, q)).collect());
                if flood > 0 {
                    // Much of its own is under way before and after the change: it counts from its place in the stream on.
                    for a in &mut acts {
                        let before = p.ops.iter().map(|o| Op::Times(flood / p.ops.len() as u32 + 1, Box::new(o.clone())));
                        a.ops = before.chain(std::mem::take(&mut a.ops)).chain(p.ops.clone()).collect();
                    }
                    if merged {
                        acts.push(p);
                    }
                    steps.push(batch(acts));
                } else if merged && acts.len() == 1 {
                    // One stream: change, then publish; the client's own deliveries show the change at once.
                    acts[0].ops.append(&mut p.ops);
                    steps.push(batch(acts));
                } else {
                    steps.push(batch(acts));
                    steps.push(batch(vec![p]));
                }
            }
            let last: Vec<Op> = pool.iter().map(|f| publish(tidy(f.replace('+', "a").replace('#', "a/b")), 0)).collect();
            steps.push(batch(vec![act(n, last)]));
            case(plain_slots(n + 1), steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C03

/// Payload sizes around every boundary of the remaining-length encoding and of likely buffers.
fn size(t: Tier) -> BoxedStrategy<u32> {
    let near = |b: u32| (b.saturating_sub(12)..b + 4).boxed();
    let big = if t == Tier::Quick { 1 } else { 4 };
    prop_oneof![
        6 => 0u32..300,
        6 => near(128),
        6 => near(8192),
        6 => near(16384),
        3 => near(65536),
        3 => near(4096),
        2 => 300u32..70_000,
        big => near(2_097_152),
    ]
    .boxed()
}
fn long_topic() -> BoxedStrategy<Name> {
    prop_oneof![
        6 => topic().prop_map(|t| Name::S(format!("t/{t}"))),
        3 => topic().prop_map(Name::S),
        2 => (level(), select(vec!["\u{feff}", "\u{feff}\u{feff}", " ", "\r\n", "\n", "\r", "  ", "\t", "\u{fffd}\u{fffd}", "\\", "\"", "\u{301}", "\u{200b}", "\u{fffd}", "\u{e000}", "A\u{30a}", "\u{212b}"]), level(), any::<bool>())
            .prop_map(|(a, odd, b, first)| Name::S(if first { format!("{odd}{a}/{b}") } else { format!("t/{a}{odd}{b}") })),
        2 => (select(vec!["x", "é", "日", "𝄞", "/", "ab/", " ", "\u{7f}"]), prop_oneof![1u32..400, Just(16000u32)])
            .prop_map(|(u, n)| Name::Rep { head: "t/".into(), unit: u.into(), n, tail: "".into() }),
        // The same peculiarities at the ends of long names.
        2 => (select(vec!["x", "é", "/", "ab/"]), prop_oneof![1u32..400, Just(1000u32), Just(16000), Just(21_830)], select(vec!["\u{feff}", " ", "\r\n", "\n", "\t", "/", "//", "\u{301}", "\u{fffd}", "é", "𝄞", "$"]), any::<bool>())
            .prop_map(|(u, n, odd, first)| Name::Rep { head: if first { format!("t/{odd}") } else { "t/".into() }, unit: u.into(), n, tail: if first { "z".into() } else { odd.into() } }),
        1 => Just(Name::Rep { head: "t/".into(), unit: "x".into(), n: 65533, tail: "".into() }),
        1 => Just(Name::Rep { head: "t/".into(), unit: "y".into(), n: 65532, tail: "".into() }),
    ]
    .boxed()
}
fn body(t: Tier) -> BoxedStrategy<Payload> {
    prop_oneof![
        4 => (size(t), any::<u8>()).prop_map(|(n, salt)| Payload::Is(Raw::Fill { n, salt })),
        3 => vec(any::<u8>(), 0..80).prop_map(|v| Payload::Is(Raw::B(v))),
        1 => vec(select(vec![0u8, 255, 0x30, 0x10, 0x80, 0xc0, b'/', b'#', b'+']), 0..40).prop_map(|v| Payload::Is(Raw::B(v))),
        1 => vec(select(vec![&b"\r\n"[..], b"\n", b"\r", b" ", b"\t", b"\xef\xbb\xbf", b"\0", b"a", b"{\"a\":1}", b"\xff\xfe", b"\x1a", b"\x1b[0m", b"\xc3\xa9", b"e\xcc\x81"]), 0..12)
            .prop_map(|v| Payload::Is(Raw::B(v.concat()))),
    ]
    .boxed()
}
fn c03(t: Tier) -> BoxedStrategy<Input> {
    let p = (long_topic(), qos(), body(t), prop::bool::weighted(0.2));
    (vec(p, 1..6), qos(), qos(), prop_oneof![slot(), slot(), slow_slot().prop_map(|mut s| {
        // Tiny caps on megabytes only cost time.
        s.write_caps.iter_mut().for_each(|c| *c = *c * 97 + 500);
        s.write_delays.clear();
        s
    })], segs(), rng())
        .prop_map(|(pubs, q1, q2, s, segs, rng)| {
            let mut steps = vec![connect_all(3, 0)];
            steps.push(batch(vec![
                act(0, vec![Op::Sub(vec![("t/#".into(), q1)])]),
                act(1, vec![Op::Sub(vec![("#".into(), q2)])]),
            ]));
            let ops = pubs
                .into_iter()
                .map(|(topic, qos, payload, dup)| Op::Pub { topic, qos, retain: false, dup: dup && qos > 0, id: PubId::Auto, payload })
                .collect();
            let segs = if segs.iter().all(|s| *s < 100) && segs.len() > 0 { segs.iter().map(|s| s * 37).collect() } else { segs };
            steps.push(batch(vec![Act { slot: 2, ops, segs, gaps: vec![] }]));
            case(vec![s, Slot::default(), Slot::default()], steps, rng)
        })
        .boxed()
}
fn c03_fixed(t: Tier) -> Vec<Input> {
    // Exactly the remaining lengths where the encoding grows, and the very largest packet.
    let mut sizes: Vec<u32> = vec![];
    for edge in [127u32, 128, 16383, 16384, 2_097_151, 2_097_152] {
        sizes.push(edge);
    }
    sizes.push(5_000_000);
    sizes.push(if t == Tier::Quick { 40_000_000 } else { 268_435_455 });
    if t == Tier::Quick {
        sizes.push(268_435_455);
    }
    sizes
        .into_iter()
        .enumerate()
        .map(|(i, rl)| {
            let sub_q = (i % 3) as u8;
            let big = rl > 100_000_000;
            let mk = |q: u8| Op::Pub {
                topic: "t".into(),
                qos: q,
                retain: false,
                dup: false,
                id: PubId::Auto,
                payload: Payload::Is(Raw::Fill { n: rl - 3 - if q > 0 { 2 } else { 0 }, salt: i as u8 }),
            };
            let pubs = if big { vec![mk(0)] } else { vec![mk(0), mk(1), mk(2)] };
            let steps = vec![
                connect_all(2, 0),
                batch(vec![act(0, vec![Op::Sub(vec![("t".into(), if big { 0 } else { sub_q })])])]),
                batch(vec![act(1, pubs)]),
                batch(vec![act(1, vec![publish("t", 1)])]),
            ];
            case(plain_slots(2), steps, i as u32)
        })
        .collect()
}

// ------------------------------------------------------------------ C04

fn c04(_: Tier) -> BoxedStrategy<Input> {
    let stream = |n: usize| {
        (vec(prop_oneof![9 => any_op(), 1 => pub_op(Just("a".to_string()).boxed())], 1..n), segs(), gaps())
    };
    let odd = prop_oneof![
        8 => Just(None),
        1 => Just(Some(Op::Bytes(Raw::B(vec![0xf0, 0])))),
        1 => Just(Some(Op::Bytes(Raw::B(vec![0x82, 0x80, 0x80, 0x80, 0x80, 1])))),
        1 => Just(Some(Op::Disconnect)),
        1 => Just(Some(Op::Eof)),
        1 => (0u32..20_000, any::<u8>()).prop_map(|(n, salt)| Some(Op::Pub { topic: "a".into(), qos: 1, retain: false, dup: false, id: PubId::Auto, payload: Payload::Is(Raw::Fill { n, salt }) })),
    ];
    let coarse = prop_oneof![2 => Just(vec![]), 2 => vec(prop_oneof![Just(8191u32), Just(8192), Just(8193), Just(4096), Just(1460), Just(65536)], 1..4), 2 => vec(500u32..20_000, 1..4)];
    let large = prop_oneof![12 => Just(None), 1 => (vec((any::<u16>(), large_op()), 1..4), coarse).prop_map(Some)];
    (vec((stream(10), odd, large), 1..4), (stream(6), long_gaps()), vec(slot(), 4), any::<bool>(), rng())
        .prop_map(|(streams, ((second, second_segs, _), second_gaps), slots, merged, rng)| {
            // CONNECT, subscription and everything else in one cut-up stream.
            let n = streams.len();
            let mut steps = vec![batch(vec![act(3, vec![Op::Connect(Conn::plain("watch", 0)), Op::Sub(vec![("#".into(), 2), ("a".into(), 1)])])])];
            let mut acts = vec![];
            for (i, ((mut ops, mut segs, gaps), odd, large)) in streams.into_iter().enumerate() {
                let mut o = vec![Op::Connect(Conn::plain(cid(i), 0)), Op::Sub(vec![("a/#".into(), 1)])];
                if let Some((large, coarse)) = large {
                    for (at, op) in large {
                        ops.insert(at as usize % (ops.len() + 1), op);
                    }
                    segs = coarse;
                }
                o.extend(ops);
                o.extend(odd);
                acts.push(Act { slot: i, ops: o, segs, gaps });
            }
            if merged {
                steps.push(batch(acts));
            } else {
                steps.extend(acts.into_iter().map(|a| batch(vec![a])));
            }
            steps.push(batch(vec![Act { slot: n - 1, ops: second, segs: second_segs, gaps: second_gaps }]));
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C05

fn c05(_: Tier) -> BoxedStrategy<Input> {
    let p = (topic(), qos(), prop_oneof![300 => 0u32..60, 100 => 60u32..700, 20 => 700u32..9000, 12 => 4000u32..5000, 1 => 60_000u32..70_000]).prop_map(|(t, qos, n)| Op::Pub {
        topic: Name::S(t),
        qos,
        retain: false,
        dup: false,
        id: PubId::Auto,
        payload: Payload::Tag(n),
    });
    let phase = (
        vec(p, 1..8),
        vec(any_op(), 0..4),
        prop_oneof![3 => Just(None), 3 => (0u32..200).prop_map(Some), 2 => (0u32..5).prop_map(Some)],
        prop_oneof![1 => Just(None), 2 => (0u32..100).prop_map(Some)],
    );
    (vec(slow_slot(), 2), vec(phase, 1..5), vec((filter(), qos()), 1..4), rng())
        .prop_map(|(mut slots, phases, subs, rng)| {
            slots.push(Slot::default());
            let mut steps = vec![connect_all(3, 0)];
            let mut f = names(subs);
            f.push(("#".into(), 2));
            steps.push(batch(vec![act(0, vec![Op::Sub(f), Op::Ping, Op::Ping]), act(1, vec![Op::Sub(vec![("+/#".into(), 1)])])]));
            for (pubs, own, window, then) in phases {
                if window.is_some() {
                    steps.push(Step::Window { slot: 0, bytes: window });
                }
                steps.push(batch(vec![act(2, pubs), act(0, own.clone()), act(1, own)]));
                if window.is_some() {
                    if then.is_some() {
                        steps.push(Step::Window { slot: 0, bytes: then });
                        steps.push(Step::Idle(300));
                    }
                    steps.push(Step::Window { slot: 0, bytes: None });
                }
            }
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C06

fn c06(t: Tier) -> BoxedStrategy<Input> {
    let max = if t == Tier::Quick { 30 } else { 80 };
    let pad = || prop_oneof![150 => 0u32..30, 1 => 1000u32..9000, 1 => 30_000u32..70_000];
    let pubs = (vec((topic(), qos(), pad()), 2..max), segs(), fast_gaps());
    (vec(vec((filter(), qos()), 1..4), 1..4), vec(pubs, 2..5), vec(prop_oneof![4 => slot(), 1 => slow_slot()], 8), vec((0usize..3, any_op()), 0..4), rng(), any::<bool>())
        .prop_map(|(subs, pubs, slots, noise, rng, twice)| {
            let ns = subs.len();
            let np = pubs.len();
            let mut steps = vec![connect_all(ns + np, 0)];
            steps.push(batch(
                subs.into_iter()
                    .enumerate()
                    .map(|(i, f)| {
                        let mut f = names(f);
                        if i == 0 {
                            f.push(("#".into(), 1));
                        }
                        act(i, vec![Op::Sub(f)])
                    })
                    .collect(),
            ));
            let mut acts: Vec<Act> = pubs
                .into_iter()
                .enumerate()
                .map(|(i, (p, segs, gaps))| Act {
                    slot: ns + i,
                    ops: p
                        .into_iter()
                        // Now and then the same again, to the last byte.
                        .map(|(t, qos, pad)| Op::Pub { topic: Name::S(t), qos, retain: false, dup: false, id: PubId::Auto, payload: if !(28..30).contains(&pad) { Payload::Tag(pad) } else { Payload::Is(Raw::B(b"again".to_vec())) } })
                        .collect(),
                    segs,
                    gaps,
                })
                .collect();
            for (s, o) in noise {
                // Subscribers are busy too (publishing, or changing subscriptions of their own).
                acts.push(act(s % ns, vec![o]));
            }
            steps.push(batch(acts.clone()));
            if twice {
                steps.push(batch(acts));
            }
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C07

fn c07(_: Tier) -> BoxedStrategy<Input> {
    let sub = vec((select(vec!["a", "+", "#", "a/b", "a/#", "a/+", "+/b", "+/#", "b"]).prop_map(String::from), qos()), 1..5);
    let p = (select(vec!["a", "b", "a/b", "c"]), qos(), any::<bool>(), any::<bool>());
    let ack_op = prop_oneof![(1u16..40).prop_map(Op::PubAck), (1u16..40).prop_map(Op::PubComp), (1u16..40).prop_map(Op::PubRec), (1u16..40).prop_map(Op::PubRel)];
    (vec(sub, 1..3), vec((vec(p, 1..10), vec(ack_op, 0..4)), 1..5), vec(slot(), 3), rng())
        .prop_map(|(subs, rounds, slots, rng)| {
            let n = subs.len();
            let mut steps = vec![connect_all(n + 1, 0)];
            steps.push(batch(subs.into_iter().enumerate().map(|(i, f)| act(i, vec![Op::Sub(names(f))])).collect()));
            for (pubs, acks) in rounds {
                let ops = pubs
                    .into_iter()
                    .map(|(t, qos, dup, retain)| Op::Pub { topic: t.into(), qos, retain, dup: dup && qos > 0, id: PubId::Auto, payload: Payload::Tag(0) })
                    .collect();
                steps.push(batch(vec![act(n, ops), act(0, acks)]));
            }
            case(slots, steps, rng)
        })
        .boxed()
}
/// More deliveries than there are packet identifiers, some of them never acknowledged.
fn c07_fixed(t: Tier) -> Vec<Input> {
    let long = |q: u8, skip: u8, total: u32, chunk: u32| {
        let mut steps = vec![connect_all(2, 0), batch(vec![act(0, vec![Op::Sub(vec![("a".into(), q)])])])];
        for _ in 0..total / chunk {
            steps.push(batch(vec![act(1, vec![Op::Times(chunk, Box::new(publish("a", q)))])]));
        }
        let mut slots = plain_slots(2);
        slots[0].ack = match skip {
            0 => Ack::Auto,
            10 => Ack::Half(100),
            11 => Ack::Wrong(100),
            n => Ack::AllBut(n as u16 * 100),
        };
        case(slots, steps, 1)
    };
    let mut v = vec![long(1, 1, 66_000, 6_000), long(2, 1, 66_000, 6_000), long(1, 0, 66_000, 6_000), long(2, 10, 66_000, 6_000), long(2, 11, 66_000, 6_000), long(1, 11, 66_000, 6_000)];
    v.extend([scale::wrapped(1), scale::wrapped(2), scale::all_unacknowledged(false), scale::all_unacknowledged(true)]);
    if t == Tier::Thorough {
        v.push(long(2, 2, 140_000, 20_000));
        v.push(long(1, 3, 140_000, 10_000));
    }
    v
}

// ------------------------------------------------------------------ C08

fn any_id() -> BoxedStrategy<u16> {
    prop_oneof![3 => 1u16..6, 1 => Just(65535u16), 1 => Just(256u16), 1 => Just(255u16), 2 => 1u16..=65535].boxed()
}
fn request() -> BoxedStrategy<Op> {
    let f = || prop_oneof![3 => filter(), 1 => bad_filter()];
    prop_oneof![
        8 => (any_id(), vec((f(), qos()), 1..7)).prop_map(|(i, v)| Op::SubId(i, names(v))),
        1 => (any_id(), vec((f(), qos()), 1..7), prop_oneof![Just(124usize), Just(125), Just(126), Just(127), Just(128), 7usize..300])
            .prop_map(|(i, v, n)| Op::SubId(i, names(v.into_iter().cycle().take(n).collect()))),
        4 => (any_id(), vec(prop_oneof![6 => filter(), 1 => bad_filter().prop_map(|f| if f.is_empty() { "#/#".into() } else { f })], 1..5))
            .prop_map(|(i, v)| Op::UnsubId(i, v.into_iter().map(Name::S).collect())),
        8 => (topic(), qos(), any_id(), any::<bool>(), any::<bool>()).prop_map(|(t, qos, id, dup, retain)| Op::Pub {
            topic: Name::S(t), qos, retain: retain && dup, dup: dup && qos > 0, id: PubId::Is(id), payload: Payload::Tag(0)
        }),
        4 => any_id().prop_map(Op::PubRel),
        4 => any_id().prop_map(Op::PubRec),
        2 => any_id().prop_map(Op::PubAck),
        2 => any_id().prop_map(Op::PubComp),
        4 => Just(Op::Ping),
    ]
    .boxed()
}
fn c08(_: Tier) -> BoxedStrategy<Input> {
    let stream = (vec(request(), 1..12), segs(), fast_gaps());
    (vec(vec(stream, 1..4), 1..4), vec(prop_oneof![5 => slot(), 1 => slow_slot()], 3), rng())
        .prop_map(|(clients, slots, rng)| {
            let n = clients.len();
            let mut steps = vec![connect_all(n, 0)];
            let rounds = clients.iter().map(|c| c.len()).max().unwrap_or(0);
            for r in 0..rounds {
                let acts = clients
                    .iter()
                    .enumerate()
                    .filter_map(|(i, c)| c.get(r).map(|(ops, segs, gaps)| Act { slot: i, ops: ops.clone(), segs: segs.clone(), gaps: gaps.clone() }))
                    .collect();
                steps.push(batch(acts));
            }
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C09

fn c09(_: Tier) -> BoxedStrategy<Input> {
    let id = || prop_oneof![4 => 1u16..4, 1 => Just(65535u16)];
    let p = |dup: bool| {
        (select(vec!["a", "b"]), prop_oneof![5 => Just(2u8), 1 => Just(1), 1 => Just(0)], id(), 0u8..4).prop_map(move |(t, qos, i, body)| Op::Pub {
            topic: t.into(),
            qos,
            retain: false,
            dup: dup && qos > 0,
            id: PubId::Is(i),
            payload: if body == 0 { Payload::Is(Raw::B(b"same".to_vec())) } else { Payload::Tag(0) },
        })
    };
    let op = prop_oneof![5 => p(false), 4 => p(true), 4 => id().prop_map(Op::PubRel), 1 => id().prop_map(Op::PubComp), 1 => id().prop_map(Op::PubRec), 1 => id().prop_map(Op::PubAck),
        // Requests of other kinds under the same identifiers.
        1 => (id(), vec((filter(), qos()), 1..3)).prop_map(|(i, f)| Op::SubId(i, names(f))),
        1 => (id(), vec(filter(), 1..3)).prop_map(|(i, f)| Op::UnsubId(i, f.into_iter().map(Name::S).collect())),
        1 => Just(Op::Ping)];
    let end = prop_oneof![4 => Just(None), 1 => Just(Some(Op::Eof)), 1 => Just(Some(Op::Reset)), 1 => Just(Some(Op::Disconnect))];
    let step = (vec((1usize..3, vec(op, 1..7), segs()), 1..3), end);
    (vec(step, 2..8), qos(), vec(slot(), 3), rng())
        .prop_map(|(hist, q, slots, rng)| {
            let mut steps = vec![connect_all(3, 0), batch(vec![act(0, vec![Op::Sub(vec![("#".into(), q)])])])];
            for (acts, end) in hist {
                let mut v: Vec<Act> = vec![];
                for (s, ops, segs) in acts {
                    if v.iter().any(|a| a.slot == s) {
                        steps.push(batch(std::mem::take(&mut v)));
                    }
                    v.push(Act { slot: s, ops, segs, gaps: vec![] });
                }
                let who = v[0].slot;
                steps.push(batch(v));
                if let Some(e) = end {
                    steps.push(batch(vec![act(who, vec![e])]));
                    steps.push(batch(vec![act(who, vec![Op::Connect(Conn::plain(cid(who), 0))])]));
                }
            }
            case(slots, steps, rng)
        })
        .boxed()
}

/// As many unreleased messages as there are identifiers, all of them sent again.
fn c09_fixed(_: Tier) -> Vec<Input> {
    let p = |id: u16, dup: bool| Op::Pub { topic: "a".into(), qos: 2, retain: false, dup, id: PubId::Is(id), payload: Payload::Tag(0) };
    [(300u16, 7u16), (9000, 1), (65535, 6)]
        .into_iter()
        .map(|(n, step)| {
            let ids: Vec<u16> = (1..=n).step_by(step as usize).collect();
            let mut steps = vec![connect_all(2, 0), batch(vec![act(0, vec![Op::Sub(vec![("a".into(), 0)])])])];
            for part in ids.chunks(20_000) {
                steps.push(batch(vec![act(1, part.iter().map(|i| p(*i, false)).collect())]));
            }
            for part in ids.chunks(20_000) {
                steps.push(batch(vec![act(1, part.iter().map(|i| p(*i, true)).collect())]));
            }
            steps.push(batch(vec![act(1, ids.iter().map(|i| Op::PubRel(*i)).collect())]));
            steps.push(batch(vec![act(1, vec![p(1, false), p(n, false), p(1, true)])]));
            case(plain_slots(2), steps, n as u32)
        })
        .collect()
}

// ------------------------------------------------------------------ C10

fn mutation() -> BoxedStrategy<Mutation> {
    let at = || prop_oneof![3 => 0u16..6, 3 => 0u16..40, 1 => any::<u16>()];
    prop_oneof![
        3 => (at(), 0u8..8).prop_map(|(at, bit)| Mutation::Flip { at, bit }),
        3 => (at(), prop_oneof![any::<u8>(), Just(0), Just(0xff), Just(0x80), Just(0x7f)]).prop_map(|(at, to)| Mutation::Set { at, to }),
        2 => (at(), any::<u8>()).prop_map(|(at, byte)| Mutation::Insert { at, byte }),
        2 => at().prop_map(|at| Mutation::Delete { at }),
        1 => at().prop_map(Mutation::Truncate),
        2 => (at(), -4i16..5).prop_map(|(at, by)| Mutation::Add16 { at, by }),
    ]
    .boxed()
}
fn raw() -> BoxedStrategy<Raw> {
    let first = prop_oneof![3 => select(vec![0x10u8, 0x30, 0x32, 0x34, 0x82, 0xa2, 0x62, 0x40, 0x50, 0x70, 0xc0, 0xe0]), 1 => any::<u8>()];
    let part = prop_oneof![
        2 => vec(any::<u8>(), 0..6).prop_map(Raw::B),
        3 => vec(any::<u8>(), 0..8).prop_map(|v| Raw::Str(Box::new(Raw::B(v)))),
        3 => prop_oneof![topic(), filter()].prop_map(|t| Raw::Str(Box::new(Raw::B(t.into_bytes())))),
        2 => Just(Raw::B(vec![0, 1])),
        1 => (0u8..4).prop_map(|q| Raw::B(vec![q])),
    ];
    prop_oneof![
        3 => vec(any::<u8>(), 1..60).prop_map(Raw::B),
        5 => (first, vec(part, 0..5)).prop_map(|(first, parts)| Raw::Packet { first, parts }),
        1 => (any::<u8>(), vec(prop_oneof![Just(0xffu8), Just(0x80), any::<u8>()], 1..6)).prop_map(|(f, mut v)| { v.insert(0, f); Raw::B(v) }),
    ]
    .boxed()
}
fn evil() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (any_op(), vec(mutation(), 1..4)).prop_map(|(op, muts)| Op::Mutated { op: Box::new(op), muts }),
        4 => raw().prop_map(Op::Bytes),
        2 => violation(),
        1 => (conn(), vec(mutation(), 1..4)).prop_map(|(c, muts)| Op::Mutated { op: Box::new(Op::Connect(c)), muts }),
    ]
    .boxed()
}
fn c10(_: Tier) -> BoxedStrategy<Input> {
    let attack = (vec(any_op(), 0..4), vec(evil(), 1..4), vec(any_op(), 0..3), any::<u8>(), segs());
    let round = (vec(attack, 1..3), vec(any_op(), 1..5), prop_oneof![6 => Just(None), 1 => (0u8..8).prop_map(Some)]);
    (vec(round, 1..5), vec(slot(), 4), rng())
        .prop_map(|(rounds, slots, rng)| {
            // 0, 1: bystanders; 2, 3: attackers (with or without a valid CONNECT first).
            let mut steps = vec![
                connect_all(2, 0),
                batch(vec![act(0, vec![Op::Sub(vec![("#".into(), 1)])]), act(1, vec![Op::Sub(vec![("a/+".into(), 2), ("b".into(), 0)])])]),
            ];
            let mut k = 0;
            for (attacks, good, err) in rounds {
                let mut acts = vec![act(1, good)];
                for (i, (before, evil, after, mode, segs)) in attacks.into_iter().enumerate() {
                    let mut ops = vec![Op::Open];
                    if mode % 8 != 0 {
                        k += 1;
                        ops.push(Op::Connect(Conn::plain(format!("x{k}"), 0)));
                        ops.extend(before);
                    }
                    ops.extend(evil);
                    ops.extend(after);
                    acts.push(Act { slot: 2 + i, ops, segs, gaps: vec![] });
                }
                if let Some(e) = err {
                    steps.push(Step::AcceptError(e));
                }
                steps.push(batch(acts));
            }
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C11

fn conn() -> BoxedStrategy<Conn> {
    let name = prop_oneof![
        3 => select(vec!["u", "user name", "é", "", "日本語"]).prop_map(|s| Name::S(s.into())),
        1 => (0u32..3000).prop_map(|n| Name::Rep { head: "".into(), unit: "n".into(), n, tail: "".into() }),
    ];
    let bytes = || prop_oneof![3 => vec(any::<u8>(), 0..20).prop_map(Raw::B), 1 => (0u32..20_000, any::<u8>()).prop_map(|(n, salt)| Raw::Fill { n, salt })];
    let id = prop_oneof![
        4 => select(vec!["k1", "k2", "-", "a/b", "#", "+", "$SYS", " ", "é", "日本", "client-with-a-name-longer-than-23-bytes", "A"]).prop_map(String::from),
        1 => "[a-zA-Z0-9]{1,40}".prop_map(|s| s),
        1 => (0usize..40, select(vec!["é", "日", "𝄞", "\u{feff}", "x"]), 1usize..40).prop_map(|(n, u, m)| format!("{}{}", "i".repeat(n), u.repeat(m))),
        1 => (select(vec!["long", "é"]), prop_oneof![120u32..135, 250u32..260, 510u32..515, 1020u32..1030, 4090u32..4100, 16_000u32..16_500, 32_760u32..32_770, 65_500u32..=65_535]).prop_map(|(u, n)| {
            let mut s = u.repeat(n as usize / u.len());
            s.extend(std::iter::repeat('i').take(n as usize - s.len()));
            s
        }),
        2 => Just(String::new()),
    ];
    let will = prop_oneof![
        2 => Just(None),
        3 => (prop_oneof![4 => topic().prop_map(Name::S), 1 => (1u32..9000).prop_map(|n| Name::Rep { head: "w".into(), unit: "w".into(), n, tail: "".into() })], bytes(), 0u8..3, any::<bool>()).prop_map(Some),
    ];
    (id, prop::bool::weighted(0.7), prop_oneof![Just(0u16), Just(65535), Just(10), 1u16..1000], will, proptest::option::of(name), proptest::option::of(bytes()))
        .prop_map(|(cid, clean, keepalive, will, user, pass)| {
            let pass = if user.is_some() { pass } else { None };
            Conn { cid, clean, keepalive, will, user, pass }
        })
        .boxed()
}
fn first_packet() -> BoxedStrategy<Op> {
    prop_oneof![
        10 => conn().prop_map(Op::Connect),
        3 => (conn(), prop_oneof![3 => Just(3u8), 3 => Just(5u8), 1 => any::<u8>()]).prop_map(|(conn, level)| Op::ConnectOdd { conn, level, name: b"MQTT".to_vec(), flag_xor: 0 }),
        1 => (conn(), select(vec!["MQIsdp", "MQTt", "", "MQTTX", "MQT", "mqtt"])).prop_map(|(conn, n)| Op::ConnectOdd { conn, level: 4, name: n.as_bytes().to_vec(), flag_xor: 0 }),
        4 => (conn(), prop_oneof![Just(1u8), Just(0x18), Just(0x20), Just(0x40), Just(0x80), Just(4), Just(0xc0), any::<u8>()])
            .prop_map(|(conn, flag_xor)| Op::ConnectOdd { conn, level: 4, name: b"MQTT".to_vec(), flag_xor }),
        1 => (conn(), vec(mutation(), 1..3)).prop_map(|(c, muts)| Op::Mutated { op: Box::new(Op::Connect(c)), muts }),
        4 => any_op(),
        1 => Just(Op::Disconnect),
        1 => raw().prop_map(Op::Bytes),
        2 => bad_connect(),
    ]
    .boxed()
}
/// A CONNECT with a string no string may be: identifier, will topic, user name or protocol name.
fn bad_connect() -> BoxedStrategy<Op> {
    let text = || select(vec!["", "k1", "w/é", "b"]).prop_map(|s| s.as_bytes().to_vec());
    let bad = (text(), ill_formed(), text()).prop_map(|(a, b, z)| [a, b, z].concat());
    (0usize..4, bad, vec(text(), 3), any::<bool>())
        .prop_map(|(at, bad, mut t, pass)| {
            let mut name = b"MQTT".to_vec();
            if at == 3 {
                name = bad;
            } else {
                t[at] = bad;
            }
            let st = |v: &[u8]| Raw::Str(Box::new(Raw::B(v.to_vec())));
            let mut parts = vec![st(&name), Raw::B(vec![4, 0x86 | (pass as u8) << 6, 0, 0]), st(&t[0]), st(&t[1]), st(b"will"), st(&t[2])];
            if pass {
                parts.push(st(b"\xff\0"));
            }
            Op::Bytes(Raw::Packet { first: 0x10, parts })
        })
        .boxed()
}
fn c11(_: Tier) -> BoxedStrategy<Input> {
    let probe = (first_packet(), vec(prop_oneof![8 => any_op(), 1 => conn().prop_map(Op::Connect)], 0..5), segs(), proptest::option::weighted(0.15, (any::<prop::sample::Index>(), proptest::option::of(0u16..100))));
    (vec(probe, 1..7), vec(slot(), 4), any::<bool>(), rng())
        .prop_map(|(probes, slots, together, rng)| {
            let mut steps = vec![connect_all(1, 0), batch(vec![act(0, vec![Op::Sub(vec![("#".into(), 1)])])])];
            let mut acts: Vec<Act> = probes
                .into_iter()
                .enumerate()
                .map(|(i, (f, mut rest, segs, again))| {
                    if let (Op::Connect(conn), Some((at, keep))) = (&f, again) {
                        // The same once more, to the letter or nearly.
                        let keepalive = keep.unwrap_or(conn.keepalive);
                        rest.insert(at.index(rest.len() + 1), Op::Connect(Conn { keepalive, ..conn.clone() }));
                    }
                    let mut ops = vec![Op::Open, f];
                    ops.extend(rest);
                    Act { slot: 1 + i % 3, ops, segs, gaps: vec![] }
                })
                .collect();
            if together && acts.len() <= 3 {
                steps.push(batch(acts));
            } else {
                steps.extend(acts.drain(..).map(|a| batch(vec![a])));
            }
            // Whatever a rejected client asked for must not have happened.
            steps.push(batch(vec![act(0, ["a", "b", "a/b", "c", "$SYS/a", "a/b/c"].iter().map(|t| publish(*t, 1)).collect())]));
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C12

/// Everything MQTT 3.1.1 forbids a connected client to send.
fn violation() -> BoxedStrategy<Op> {
    let s = |t: &str| Raw::Str(Box::new(Raw::B(t.as_bytes().to_vec())));
    let pk = |first: u8, parts: Vec<Raw>| Op::Bytes(Raw::Packet { first, parts });
    let id = || Raw::B(vec![0, 9]);
    let z = || Raw::B(vec![0, 0]);
    let b = |v: &[u8]| Raw::B(v.to_vec());
    let mut v: Vec<Op> = vec![
        // Reserved and server-to-client types.
        pk(0x00, vec![]),
        pk(0xf0, vec![]),
        pk(0x20, vec![b(&[0, 0])]),
        pk(0x90, vec![id(), b(&[0])]),
        pk(0xb0, vec![id()]),
        pk(0xd0, vec![]),
        // QoS 3.
        pk(0x36, vec![s("a"), id(), b(b"x")]),
        pk(0x3e, vec![s("a"), id(), b(b"x")]),
        // DUP with QoS 0.
        pk(0x38, vec![s("a"), b(b"x")]),
        pk(0x39, vec![s("a"), b(b"x")]),
        // Identifier 0.
        pk(0x32, vec![s("a"), z(), b(b"x")]),
        pk(0x34, vec![s("a"), z(), b(b"x")]),
        pk(0x82, vec![z(), s("a"), b(&[0])]),
        pk(0xa2, vec![z(), s("a")]),
        // Nothing asked for.
        pk(0x82, vec![id()]),
        pk(0xa2, vec![id()]),
        // Requested QoS.
        pk(0x82, vec![id(), s("a"), b(&[3])]),
        pk(0x82, vec![id(), s("a"), b(&[4])]),
        pk(0x82, vec![id(), s("a"), b(&[0x80])]),
        pk(0x82, vec![id(), s("a"), b(&[1]), s("b"), b(&[0xff])]),
        // Topic names.
        pk(0x30, vec![s(""), b(b"x")]),
        pk(0x32, vec![s(""), id(), b(b"x")]),
        pk(0x30, vec![s("#"), b(b"x")]),
        pk(0x30, vec![s("+"), b(b"x")]),
        pk(0x30, vec![s("a/#"), b(b"x")]),
        pk(0x32, vec![s("a/+/b"), id(), b(b"x")]),
        pk(0x30, vec![s("a#"), b(b"x")]),
        pk(0x30, vec![s("a+b"), b(b"x")]),
        pk(0x30, vec![s("a\0b"), b(b"x")]),
        pk(0x30, vec![s("\0"), b(b"x")]),
        // UTF-8.
        pk(0x30, vec![Raw::Str(Box::new(b(&[0xff]))), b(b"x")]),
        pk(0x30, vec![Raw::Str(Box::new(b(&[b'a', 0xc0, 0x80]))), b(b"x")]),
        pk(0x32, vec![Raw::Str(Box::new(b(&[0xed, 0xa0, 0x80]))), id(), b(b"x")]),
        pk(0x82, vec![id(), Raw::Str(Box::new(b(&[b'a', b'/', 0xe2, 0x82]))), b(&[0])]),
        pk(0x82, vec![id(), s("a\0"), b(&[0])]),
        pk(0xa2, vec![id(), Raw::Str(Box::new(b(&[0xfe])))]),
        pk(0xa2, vec![id(), s("a"), s("\0")]),
        // Shorter than the contents.
        pk(0x30, vec![]),
        pk(0x30, vec![b(&[0])]),
        pk(0x30, vec![b(&[0, 5]), b(b"a/b")]),
        pk(0x32, vec![s("a")]),
        pk(0x32, vec![s("a"), b(&[1])]),
        pk(0x34, vec![s("a"), b(&[1])]),
        pk(0x82, vec![]),
        pk(0x82, vec![b(&[1])]),
        pk(0x82, vec![id(), s("a")]),
        pk(0x82, vec![id(), s("a"), b(&[0]), s("b")]),
        pk(0x82, vec![id(), s("a"), b(&[0]), b(&[0, 3]), b(b"b")]),
        pk(0x82, vec![id(), s("a"), b(&[0]), b(&[0])]),
        pk(0xa2, vec![id(), b(&[0, 3]), b(b"b")]),
        pk(0xa2, vec![id(), s("a"), b(&[0])]),
        pk(0xa2, vec![b(&[1])]),
        // Length field.
        Op::Bytes(b(&[0xc0, 0x80, 0x80, 0x80, 0x80, 0x00])),
        Op::Bytes(b(&[0x30, 0xff, 0xff, 0xff, 0xff, 0x7f])),
        Op::Bytes(b(&[0x30, 0xff, 0xff, 0xff, 0xff])),
    ];
    // Acknowledgements, ping, disconnect: too short, too long.
    for f in [0x40u8, 0x50, 0x62, 0x70] {
        v.push(pk(f, vec![]));
        v.push(pk(f, vec![b(&[9])]));
        v.push(pk(f, vec![id(), b(&[0])]));
        v.push(pk(f, vec![id(), id()]));
        v.push(pk(f, vec![z()]));
    }
    for f in [0xc0u8, 0xe0] {
        v.push(pk(f, vec![b(&[0])]));
        v.push(pk(f, vec![id()]));
    }
    // Every wrong flag nibble of every type.
    for (ty, ok) in [(0x40u8, 0u8), (0x50, 0), (0x60, 2), (0x70, 0), (0x80, 2), (0xa0, 2), (0xc0, 0), (0xe0, 0)] {
        for fl in 0..16u8 {
            if fl != ok {
                let parts = match ty {
                    0x80 => vec![id(), s("a"), b(&[1])],
                    0xa0 => vec![id(), s("a")],
                    0xc0 | 0xe0 => vec![],
                    _ => vec![id()],
                };
                v.push(pk(ty | fl, parts));
            }
        }
    }
    prop_oneof![
        12 => select(v),
        // A well-formed packet made longer or shorter than its contents.
        2 => (prop_oneof![sub_op(), vec(filter(), 1..3).prop_map(|v| Op::Unsub(v.into_iter().map(Name::S).collect()))], any::<bool>(), 0u8..3).prop_map(|(op, longer, k)| {
            let mut muts = vec![];
            if longer {
                muts.push(Mutation::Grow(k as i8 + 1));
            } else {
                muts.push(Mutation::Grow(-(k as i8) - 1));
            }
            Op::Mutated { op: Box::new(op), muts }
        }),
        1 => conn().prop_map(Op::Connect),
        1 => (0usize..3).prop_map(|i| Op::Connect(Conn::plain(format!("v{i}"), 0))),
        4 => bad_string(),
        2 => ((3u8..=255), several(filter()), vec(filter(), 0..3)).prop_map(|(q, before, after)| {
            let mut parts = vec![Raw::B(vec![0, 9])];
            for (f, q) in before.into_iter().map(|f| (f, 0)).chain([("a".to_string(), q)]).chain(after.into_iter().map(|f| (f, 1))) {
                parts.extend([Raw::Str(Box::new(Raw::B(f.into_bytes()))), Raw::B(vec![q])]);
            }
            Op::Bytes(Raw::Packet { first: 0x82, parts })
        }),
    ]
    .boxed()
}
/// Bytes no UTF-8 string may contain: bytes that never occur, sequences cut short, lone and missing continuations,
/// overlong forms, surrogates, beyond the last code point, and the null character.
fn ill_formed() -> BoxedStrategy<Vec<u8>> {
    let known: Vec<&[u8]> = vec![
        b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc2", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xf0\x90\x80", b"\xe2", b"\xf0\x9f", b"\xc0\x80", b"\xc0\xaf", b"\xc1\xbf",
        b"\xe0\x80\xaf", b"\xe0\x9f\xbf", b"\xf0\x80\x80\xaf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\xa0\xbd\xed\xb8\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80",
        b"\xff\xfe\xfd", b"\x80\x80\x80", b"\0", b"\0\0",
    ];
    prop_oneof![4 => select(known).prop_map(|b| b.to_vec()), 1 => vec(128u8..=255, 1..5)].prop_filter("well-formed", |v| std::str::from_utf8(v).map_or(true, |s| s.contains('\0'))).boxed()
}
/// What stands before or after something, of any length.
fn affix() -> BoxedStrategy<String> {
    let n = prop_oneof![4 => 10u32..70, 2 => 95u32..140, 2 => 250u32..260, 1 => 500u32..520, 2 => 1000u32..1100, 1 => 4000u32..9000, 1 => 32_000u32..33_000];
    prop_oneof![6 => topic(), 1 => (select(vec!["x", "é", "日", "ab/", "𝄞"]), n).prop_map(|(u, n)| u.repeat((n as usize).min(65_000 / u.len())))].boxed()
}
/// How many of something stand before or after something.
fn several<T: std::fmt::Debug + Clone + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<Vec<T>> {
    prop_oneof![12 => vec(s.clone(), 0..3), 2 => vec(s.clone(), 3..20), 1 => (s, prop_oneof![4 => 20usize..70, 1 => 250usize..260, 1 => 1000usize..1030]).prop_map(|(x, n)| vec![x; n])].boxed()
}
/// A string with something forbidden in it, in every place a string may stand in.
fn bad_string() -> BoxedStrategy<Op> {
    let bad = (affix(), affix(), ill_formed()).prop_map(|(a, z, bad)| [a.into_bytes(), bad, z.into_bytes()].concat());
    let wild = (affix(), select(vec!["#", "+", "/#", "/+", "+/"]), prop_oneof![Just(String::new()), affix()]).prop_map(|(a, w, z)| format!("{a}{w}{z}").into_bytes());
    // Cut short by the end of the string: what follows must not complete it.
    let cut = (affix(), select(vec![&b"\xc3"[..], b"\xe2\x82", b"\xf0\x9f\x98"])).prop_map(|(a, c)| [a.into_bytes(), c.to_vec()].concat());
    let st = |v: Vec<u8>| Raw::Str(Box::new(Raw::B(v)));
    let any_bad = prop_oneof![5 => bad, 1 => cut].boxed();
    prop_oneof![
        3 => (prop_oneof![3 => any_bad.clone(), 2 => wild], qos(), vec(any::<u8>(), 0..5)).prop_map(move |(t, q, rest)| {
            let mut parts = vec![st(t)];
            if q > 0 {
                parts.push(Raw::B(vec![0, 9]));
            }
            parts.push(Raw::B(rest));
            Op::Bytes(Raw::Packet { first: 0x30 | q << 1, parts })
        }),
        2 => (several((filter(), qos()).boxed()), any_bad.clone(), qos(), vec((filter(), qos()), 0..3)).prop_map(move |(before, bad, q, after)| {
            let mut parts = vec![Raw::B(vec![0, 9])];
            let all = before.into_iter().map(|(f, q)| (f.into_bytes(), q)).chain([(bad, q)]).chain(after.into_iter().map(|(f, q)| (f.into_bytes(), q)));
            for (f, q) in all {
                parts.extend([st(f), Raw::B(vec![q])]);
            }
            Op::Bytes(Raw::Packet { first: 0x82, parts })
        }),
        1 => (several(filter()), any_bad, vec(filter(), 0..3)).prop_map(move |(before, bad, after)| {
            let mut parts = vec![Raw::B(vec![0, 9])];
            parts.extend(before.into_iter().map(String::into_bytes).chain([bad]).chain(after.into_iter().map(String::into_bytes)).map(st));
            Op::Bytes(Raw::Packet { first: 0xa2, parts })
        }),
    ]
    .boxed()
}
fn c12(_: Tier) -> BoxedStrategy<Input> {
    let probe = (vec(any_op(), 0..4), violation(), vec(any_op(), 0..3), segs());
    (vec(probe, 2..7), vec(slot(), 4), vec((filter(), qos()), 1..3), rng())
        .prop_map(|(probes, slots, subs, rng)| {
            let mut f = names(subs);
            f.push(("#".into(), 1));
            let mut steps = vec![connect_all(1, 0), batch(vec![act(0, vec![Op::Sub(f)])])];
            for (i, (before, bad, after, segs)) in probes.into_iter().enumerate() {
                let mut ops = vec![Op::Open, Op::Connect(Conn::plain(format!("v{i}"), 0))];
                ops.extend(before);
                ops.push(bad);
                ops.extend(after);
                steps.push(batch(vec![Act { slot: 1 + i % 3, ops, segs, gaps: vec![] }, act(0, vec![publish("a", 1)])]));
            }
            steps.push(batch(vec![act(0, ["a", "b", "a/b", "c"].iter().map(|t| publish(*t, 1)).collect())]));
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C13

fn c13(_: Tier) -> BoxedStrategy<Input> {
    let open = (0usize..4, any::<bool>(), vec((select(vec!["a", "a/#", "+", "b", "a/b", "#"]).prop_map(String::from), qos()), 0..3), vec(any_op(), 0..3), segs(), any::<bool>(), fast_gaps());
    #[derive(Clone, Debug)]
    enum E {
        Open(usize, (usize, bool, Vec<(String, u8)>, Vec<Op>, Vec<u32>, bool, Vec<u16>)),
        Do(usize, Vec<Op>),
        End(usize, u8),
    }
    let unsub = || select(vec!["a", "a/#", "+", "b", "a/b", "#"]).prop_map(|f| Op::Unsub(vec![f.into()]));
    let ev = || {
        prop_oneof![
            6 => (1usize..5, open.clone()).prop_map(|(s, o)| E::Open(s, o)),
            3 => (1usize..5, vec(prop_oneof![4 => any_op(), 2 => sub_op(), 2 => unsub()], 1..4)).prop_map(|(s, o)| E::Do(s, o)),
            3 => (1usize..5, 0u8..4).prop_map(|(s, k)| E::End(s, k)),
        ]
    };
    let step = prop_oneof![3 => vec(ev(), 1..2), 3 => vec(ev(), 2..4)];
    let stall = prop_oneof![8 => Just(None), 1 => (1usize..5, prop_oneof![3 => Just(Some(3u32)), 1 => Just(None)]).prop_map(Some)];
    // Two identifiers, as a rule quite different ones; and none.
    let family = prop_oneof![5 => Just(vec!["s1".to_string(), "s2".to_string()]), 1 => select(scale::related_ids())];
    (vec((step, stall), 3..10), vec(slot(), 5), rng(), family)
        .prop_map(|(hist, slots, rng, family)| {
            let mut steps = vec![connect_all(1, 0), batch(vec![act(0, vec![Op::Sub(vec![("#".into(), 1)])])])];
            for (evs, stall) in hist {
                let mut acts: Vec<Act> = vec![];
                for e in evs {
                    let (slot, ops, segs, gaps) = match e {
                        E::Open(s, (id, clean, subs, more, segs, fresh, gaps)) => {
                            let mut ops = vec![];
                            if fresh {
                                ops.push(Op::Open);
                            }
                            let id = match id {
                                3 => String::new(),
                                2 => family[1].clone(),
                                _ => family[0].clone(),
                            };
                            let clean = clean || id.is_empty();
                            ops.push(Op::Connect(Conn { clean, ..Conn::plain(id, 0) }));
                            if !subs.is_empty() {
                                ops.push(Op::Sub(names(subs)));
                            }
                            ops.extend(more);
                            (s, ops, segs, gaps)
                        }
                        E::Do(s, ops) => (s, ops, vec![], vec![]),
                        E::End(s, k) => (
                            s,
                            vec![match k {
                                0 => Op::Disconnect,
                                1 => Op::Eof,
                                2 => Op::Reset,
                                _ => Op::Bytes(Raw::B(vec![0xf0, 0])),
                            }],
                            vec![],
                            vec![],
                        ),
                    };
                    if acts.iter().any(|a| a.slot == slot) {
                        steps.push(batch(std::mem::take(&mut acts)));
                    }
                    acts.push(Act { slot, ops, segs, gaps });
                }
                steps.push(batch(acts));
                if let Some((slot, bytes)) = stall {
                    steps.push(Step::Window { slot, bytes });
                }
                steps.push(batch(vec![act(0, ["a", "b", "a/b"].iter().map(|t| publish(*t, 1)).collect())]));
            }
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C14

fn c14(_: Tier) -> BoxedStrategy<Input> {
    // Per client a keep-alive, and a schedule of (silence as a fraction of it, what is sent).
    let ka = || prop_oneof![2 => Just(0u16), 2 => Just(1u16), 2 => Just(2), 2 => Just(5), 2 => 3u16..30, 1 => Just(60), 1 => Just(300), 1 => Just(3600), 1 => Just(65535)];
    let traffic = || prop_oneof![4 => Just(Op::Ping), 4 => any_op(), 1 => (1u16..9).prop_map(Op::PubAck)];
    let step = (prop_oneof![5 => 30u32..98, 1 => 151u32..210, 1 => 100u32..150], 0usize..3, vec((traffic(), prop::bool::weighted(0.8)), 3));
    let stall = prop_oneof![4 => Just(None), 1 => (0usize..3, 0u32..40).prop_map(Some)];
    (vec(ka(), 3), vec(step, 2..10), vec(slot(), 5), any::<bool>(), rng(), prop::bool::weighted(0.3), stall)
        .prop_map(|(kas, hist, slots, ghost, rng, partial, stall)| {
            let mut acts: Vec<Act> = kas.iter().enumerate().map(|(i, k)| act(i, vec![Op::Connect(Conn::plain(cid(i), *k)), Op::Sub(vec![("a/#".into(), 1)])])).collect();
            // 3 talks to the others all the time (that is not their traffic); 4 never says CONNECT.
            acts.push(act(3, vec![Op::Connect(Conn::plain("talker", 0))]));
            if ghost {
                acts.push(act(4, if partial { vec![Op::Open, Op::Bytes(Raw::B(vec![0x10, 20, 0, 4]))] } else { vec![Op::Open] }));
            }
            let mut steps = vec![];
            if rng % 5 == 0 {
                // They open their connections, and take their time to say CONNECT.
                steps.push(batch((0..3).map(|i| act(i, vec![Op::Open])).collect()));
                steps.push(Step::Idle([700, 1900, 3000, 8000, 30_000, 55_000][rng as usize / 5 % 6]));
            }
            steps.push(batch(acts));
            if let Some((slot, bytes)) = stall {
                // It takes nothing, and is active all the same.
                steps.push(Step::Window { slot, bytes: Some(bytes) });
            }
            for (pct, who, ops) in hist {
                let base = kas[who].max(if kas[who] == 0 { 100 } else { 1 }) as u64 * 1000;
                let mut ms = (base * pct as u64 / 100) as u32;
                if pct > 150 {
                    ms += 1100;
                }
                // The talker speaks in the middle of the silence.
                let half = ms / 2;
                steps.push(Step::Idle(half));
                steps.push(batch(vec![act(3, vec![publish("a/b", 0)])]));
                steps.push(Step::Idle(ms - half - 20));
                let acts = ops
                    .into_iter()
                    .enumerate()
                    .filter(|(_, (_, go))| *go)
                    .map(|(i, (op, _))| act(i, vec![op]))
                    .collect();
                steps.push(batch(acts));
            }
            if ghost {
                steps.push(Step::Idle(125_000));
            }
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C15

fn c15(t: Tier) -> BoxedStrategy<Input> {
    let max = if t == Tier::Quick { 700u32 } else { 5000 };
    let count = || prop_oneof![3 => 1u32..40, 2 => 90u32..130, 2 => 190u32..max];
    let load = prop_oneof![
        // Someone else floods the stuck client.
        4 => (count(), qos(), 0u32..60).prop_map(|(n, q, pad)| (1usize, n, q, pad, "f/x")),
        // It floods itself, or two clients flood each other.
        3 => (count(), qos(), 0u32..60).prop_map(|(n, q, pad)| (0usize, n, q, pad, "f/x")),
        2 => (count(), qos(), 0u32..60).prop_map(|(n, q, pad)| (2usize, n, q, pad, "g")),
        1 => (count(), qos(), 0u32..60).prop_map(|(n, q, pad)| (1usize, n, q, pad, "f/g")),
    ];
    let phase = (
        prop_oneof![2 => Just(None), 3 => (0u32..400).prop_map(Some), 1 => Just(Some(0u32))],
        vec(load, 1..5),
        vec(any_op(), 0..3),
        prop_oneof![3 => Just(None), 2 => Just(Some(())) ],
    );
    (vec(phase, 1..4), prop_oneof![2 => slot(), 1 => slow_slot()], vec(slot(), 3), qos(), rng(), prop::bool::weighted(0.3))
        .prop_map(|(phases, mut s0, mut others, q, rng, both)| {
            if !s0.write_delays.is_empty() {
                // Slow means slow, not forever.
                s0.write_caps.iter_mut().for_each(|c| *c += 200);
            }
            let mut slots = vec![s0];
            slots.append(&mut others);
            let mut steps = vec![connect_all(4, 0)];
            steps.push(batch(vec![
                act(0, vec![Op::Sub(vec![("f/#".into(), q), ("g".into(), 1)])]),
                act(2, vec![Op::Sub(vec![("g".into(), q), ("f/g".into(), 0)])]),
                act(3, vec![Op::Sub(vec![("h".into(), 1), ("f/g".into(), 2)])]),
            ]));
            for (window, loads, extra, disconnect) in phases {
                if window.is_some() {
                    steps.push(Step::Window { slot: 0, bytes: window });
                    if both {
                        steps.push(Step::Window { slot: 2, bytes: Some(50) });
                    }
                }
                let mut acts = vec![];
                for (who, n, qos, pad, topic) in loads {
                    acts.push(act(
                        who,
                        vec![Op::Times(
                            n,
                            Box::new(Op::Pub { topic: topic.into(), qos, retain: false, dup: false, id: PubId::Auto, payload: Payload::Tag(pad) }),
                        )],
                    ));
                }
                acts.push(act(3, vec![publish("h", 1), Op::Ping]));
                steps.push(batch(acts));
                // Everyone else is served as ever.
                steps.push(batch(vec![act(3, [vec![publish("h", 2), Op::Ping, Op::Sub(vec![("h".into(), 1)])], extra].concat()), act(1, vec![publish("h", 0)])]));
                if window.is_some() {
                    if disconnect.is_some() {
                        // Another client takes the stuck client's place.
                        steps.push(batch(vec![act(0, vec![Op::Open, Op::Connect(Conn::plain(cid(0), 0)), Op::Sub(vec![("f/#".into(), q)])])]));
                    } else {
                        steps.push(Step::Window { slot: 0, bytes: Some(60) });
                        steps.push(Step::Window { slot: 0, bytes: None });
                    }
                    steps.push(Step::Window { slot: 2, bytes: None });
                }
            }
            case(slots, steps, rng)
        })
        .boxed()
}
fn c15_fixed(_: Tier) -> Vec<Input> {
    let mut v = vec![];
    for q in 0..3u8 {
        // A client that floods itself without reading; two that flood each other; everybody floods everybody.
        let flood = |slot: usize, n: u32, t: &str| act(slot, vec![Op::Times(n, Box::new(publish(t, q)))]);
        let mut steps = vec![connect_all(4, 0), batch((0..4).map(|i| act(i, vec![Op::Sub(vec![("x/#".into(), q), (Name::S(format!("y/{i}")), 1)])])).collect())];
        steps.push(batch(vec![flood(0, 1500, "y/0"), flood(1, 400, "y/2"), flood(2, 400, "y/1"), act(3, vec![Op::Ping])]));
        steps.push(batch((0..4).map(|i| flood(i, 300, "x/1")).collect()));
        steps.push(Step::Window { slot: 0, bytes: Some(10) });
        steps.push(batch(vec![flood(1, 4000, "y/0"), act(3, vec![Op::Ping, publish("y/3", 1)])]));
        steps.push(Step::Window { slot: 0, bytes: None });
        steps.push(batch((0..4).map(|i| flood(i, 5, "x/1")).collect()));
        v.push(case(plain_slots(4), steps, q as u32));
    }
    v
}

// ------------------------------------------------------------------ C16

fn c16(_: Tier) -> BoxedStrategy<Input> {
    let end = || prop_oneof![4 => Just(Op::Eof), 3 => Just(Op::Reset), 3 => Just(Op::Disconnect)];
    let partial = prop_oneof![
        4 => Just(None),
        1 => Just(Some(Op::Bytes(Raw::B(vec![0x30])))),
        1 => Just(Some(Op::Bytes(Raw::B(vec![0x30, 0x80])))),
        1 => Just(Some(Op::Bytes(Raw::B(vec![0x30, 20, 0, 1, b'a', b'x'])))),
        1 => (any_op(), 1u16..20).prop_map(|(op, k)| Some(Op::Mutated { op: Box::new(op), muts: vec![Mutation::Truncate(k)] })),
        1 => Just(Some(Op::Bytes(Raw::B(vec![0x32, 0xff, 0xff, 0x7f, 0, 1, b'a'])))),
        // Much of a packet, or nearly all of it.
        1 => (prop_oneof![10u32..1000, 1000u32..70_000, 100_000u32..300_000], select(vec![0x30u8, 0x10, 0x82, 0x62]), prop_oneof![Just(1u32), 1u32..50_000]).prop_map(|(n, first, missing)| {
            let len = n + missing;
            let head = vec![first, (len & 127) as u8 | 128, (len >> 7 & 127) as u8 | 128, (len >> 14) as u8, 0, 1, b'a'];
            Some(Op::Bytes(Raw::Seq(vec![Raw::B(head), Raw::Fill { n: n - 3, salt: 7 }])))
        }),
    ];
    let stall = prop_oneof![3 => Just(None), 1 => (0u32..60).prop_map(Some)];
    let round = (vec(any_op(), 0..10), partial, end(), any::<bool>(), segs(), fast_gaps(), (0u8..10, stall), vec(any_op(), 0..3));
    (vec(round, 1..6), vec(prop_oneof![5 => slot(), 1 => slow_slot()], 3), rng())
        .prop_map(|(rounds, slots, rng)| {
            let mut steps = vec![connect_all(2, 0), batch(vec![act(0, vec![Op::Sub(vec![("#".into(), 1), ("a/b".into(), 2)])])])];
            for (i, (ops, partial, end, one_go, segs, gaps, (kind, stall), meanwhile)) in rounds.into_iter().enumerate() {
                let mut all = vec![Op::Open];
                if kind > 0 {
                    all.push(Op::Connect(Conn::plain(if kind > 7 { "same".into() } else { format!("e{i}") }, 0)));
                    all.push(Op::Sub(vec![("a/#".into(), 1), ("b".into(), 2)]));
                    all.extend(ops);
                }
                if let Some(p) = partial {
                    // No DISCONNECT after a fragment: it would become part of it.
                    all.push(p);
                }
                if one_go {
                    all.push(end);
                    steps.push(batch(vec![Act { slot: 2, ops: all, segs, gaps }, act(1, meanwhile)]));
                } else {
                    steps.push(batch(vec![Act { slot: 2, ops: all, segs, gaps }, act(1, meanwhile)]));
                    if stall.is_some() && kind > 0 {
                        // It takes no more than a few bytes when it ends.
                        steps.push(Step::Window { slot: 2, bytes: stall });
                        steps.push(batch(vec![act(1, vec![publish("a", 0), publish("b", 2)]), act(2, vec![Op::Ping])]));
                    }
                    steps.push(batch(vec![act(2, vec![end]), act(1, vec![publish("a/b", 1)])]));
                }
                steps.push(batch(vec![act(1, vec![publish("a/b", 1), publish("b", 2)])]));
            }
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C17

fn c17(t: Tier) -> BoxedStrategy<Input> {
    let rounds = if t == Tier::Quick { 16u32..25 } else { 40u32..80 };
    let end = prop_oneof![Just(Op::Disconnect), Just(Op::Eof), Just(Op::Reset), Just(Op::Bytes(Raw::B(vec![0xf0, 0])))];
    let unsub_all = prop::bool::weighted(0.5);
    let client = (
        prop_oneof![2 => Just(Some("fix")), 1 => Just(Some("new@@@@-")), 1 => Just(None), 1 => Just(Some(""))],
        vec(sub_op(), 0..4),
        unsub_all,
        vec(any_op(), 0..6),
        end,
    );
    (vec((client, slot()), 1..4), rounds, rng(), prop::bool::weighted(0.2), prop::bool::weighted(0.3), 0u8..6, 0u8..5, prop_oneof![12 => Just(None), 1 => (60u32..200).prop_map(Some)])
        .prop_map(|(clients, rounds, rng, stall, takeover, fresh_names, fresh_pubs, flood)| {
            let mut slots = vec![];
            let mut steps = vec![];
            let mut ends = vec![];
            let mut first = vec![];
            for (i, ((id, subs, unsub, ops, end), slot)) in clients.into_iter().enumerate() {
                slots.push(slot);
                let name = match id {
                    Some("") => String::new(),
                    Some(x) => format!("{x}{i}"),
                    None => "shared".into(),
                };
                let subs: Vec<Op> = subs.into_iter().map(|o| fresh(o, fresh_names)).collect();
                let mut all = vec![Op::Open, Op::Connect(Conn::plain(name, 0))];
                let filters: Vec<Name> = subs.iter().flat_map(|s| if let Op::Sub(f) = s { f.clone() } else { vec![] }).map(|f| f.0).filter(|n| *n != Name::S(String::new())).collect();
                all.extend(subs);
                all.extend(ops.into_iter().map(|o| fresh(o, fresh_pubs)));
                if unsub && !filters.is_empty() {
                    all.push(Op::Unsub(filters));
                }
                first.push(act(i, all.clone()));
                ends.push(act(i, vec![end]));
                if takeover {
                    ends.push(act(i, all));
                }
            }
            steps.push(batch(first));
            if stall {
                steps.push(Step::Window { slot: 0, bytes: Some(5) });
                let n = slots.len();
                steps.push(batch(vec![act(n - 1, vec![Op::Times(20, Box::new(publish("a", 1)))])]));
                steps.push(Step::Window { slot: 0, bytes: None });
            }
            if let Some(n) = flood.filter(|_| !takeover) {
                // Everyone ends while others have much to say.
                let at = slots.len();
                slots.extend(vec![Slot::default(); 3]);
                steps.insert(1, batch((0..3).map(|k| act(at + k, vec![Op::Connect(Conn::plain(format!("loud{k}"), 0))])).collect()));
                let floods = (0..3).map(|k| act(at + k, vec![Op::Times(n, Box::new(publish("z", 0)))]));
                steps.push(batch(floods.chain(ends).collect()));
                return Input::Hist(Case { rng, slots, steps, rounds, keep: false });
            }
            for e in ends {
                steps.push(batch(vec![e]));
            }
            Input::Hist(Case { rng, slots, steps, rounds, keep: false })
        })
        .boxed()
}
/// Makes the filters of a request different ones in every round.
fn fresh(op: Op, how: u8) -> Op {
    let f = |n: Name| match n {
        Name::S(s) if !s.starts_with('$') => Name::S(match how {
            0 => format!("@@@@/{s}"),
            1 => format!("a/@@@@/{s}"),
            2 => format!("$share/@@@@/{s}"),
            // Nothing in common with the others of the same round.
            3 => format!("@@@@-{}-{}/{s}", s.len(), s.bytes().fold(0u32, |a, b| a * 31 % 9973 + u32::from(b))),
            _ => s,
        }),
        n => n,
    };
    match op {
        Op::Sub(v) => Op::Sub(v.into_iter().map(|(n, q)| (f(n), q)).collect()),
        Op::Unsub(v) => Op::Unsub(v.into_iter().map(f).collect()),
        Op::Pub { topic, qos, retain, dup, id, payload } => Op::Pub { topic: f(topic), qos, retain, dup, id, payload },
        op => op,
    }
}
/// Connections that stay: whatever they do in a round leaves nothing behind.
fn c17_keep(t: Tier) -> BoxedStrategy<Input> {
    let rounds = if t == Tier::Quick { 16u32..25 } else { 40u32..80 };
    let op = prop_oneof![
        4 => pub_op(topic()),
        2 => Just(Op::Ping),
        1 => (1u16..9).prop_map(Op::PubRel),
        1 => (1u16..9).prop_map(Op::PubComp),
        1 => (1u16..9).prop_map(Op::PubAck),
        1 => (topic(), 1u16..9, 1usize..4).prop_map(|(t, id, n)| Op::Times(n as u32, Box::new(Op::Pub {
            topic: Name::S(t), qos: 2, retain: false, dup: false, id: PubId::Is(id), payload: Payload::Tag(9) }))),
    ];
    let client = (vec(sub_op(), 0..4), vec(op, 0..8), 0u8..6);
    let churn = prop::option::of((vec(sub_op(), 0..3), select(vec![Op::Disconnect, Op::Eof, Op::Reset, Op::Ping]), any::<bool>(), 0u8..5));
    (vec((client, yields()), 1..4), churn, rounds, rng())
        .prop_map(|(clients, churn, rounds, rng)| {
            let n = clients.len();
            let mut steps = vec![connect_all(n, 0)];
            let mut slots = vec![];
            let (mut work, mut undo) = (vec![], vec![]);
            for (i, ((subs, ops, how), yields)) in clients.into_iter().enumerate() {
                slots.push(Slot { yields, ..Default::default() });
                let subs: Vec<Op> = subs.into_iter().map(|o| fresh(o, how)).collect();
                let filters: Vec<Name> = subs.iter().flat_map(|s| if let Op::Sub(f) = s { f.clone() } else { vec![] }).map(|f| f.0).collect();
                let mut all = subs;
                all.extend(ops.into_iter().map(|o| fresh(o, how / 2)));
                work.push(act(i, all));
                if !filters.is_empty() {
                    undo.push(act(i, vec![Op::Unsub(filters)]));
                }
            }
            steps.push(batch(work));
            if let Some((subs, end, named, how)) = churn {
                slots.push(Slot::default());
                let id = if named { "churn@@@@".to_string() } else { String::new() };
                let mut ops = vec![Op::Open, Op::Connect(Conn::plain(id, 0))];
                ops.extend(subs.into_iter().map(|o| fresh(o, how)));
                steps.push(batch(vec![act(n, ops)]));
                steps.push(batch(vec![act(0, vec![publish("a/b", 1)])]));
                steps.push(batch(vec![act(n, vec![end, Op::Eof])]));
            }
            steps.push(batch(undo));
            Input::Hist(Case { rng, slots, steps, rounds, keep: true })
        })
        .boxed()
}
fn c17_all(t: Tier) -> BoxedStrategy<Input> {
    prop_oneof![3 => c17(t), 2 => c17_keep(t)].boxed()
}

// ------------------------------------------------------------------ C18

fn c18(_: Tier) -> BoxedStrategy<Input> {
    let pre = vec((1usize..5, vec(any_op(), 0..5)), 0..5);
    let busy = vec(
        (
            0usize..6,
            vec(
                prop_oneof![
                    5 => any_op(),
                    2 => (10u32..400, qos()).prop_map(|(n, q)| Op::Times(n, Box::new(publish("a", q)))),
                    1 => Just(Op::Bytes(Raw::B(vec![0x30, 50, 0]))),
                    1 => Just(Op::Open),
                    1 => Just(Op::Connect(Conn::plain("late", 5))),
                    1 => Just(Op::Eof),
                    1 => Just(Op::Bytes(Raw::B(vec![0x10]))),
                ],
                1..5,
            ),
            segs(),
            gaps(),
        ),
        0..6,
    );
    (pre, prop::option::of((1usize..5, 0u32..60)), prop::option::of(1usize..5), busy, prop_oneof![2 => Just(0u16), 2 => 1u16..6, 1 => 6u16..400], vec(prop_oneof![3 => slot(), 1 => slow_slot()], 6), rng(), any::<bool>(), prop::bool::weighted(0.15), (prop_oneof![5 => Just(vec![]), 1 => vec(0u8..8, 1..5)], prop_oneof![5 => Just(None), 1 => (50u32..300, 0u8..3).prop_map(Some)]))
        .prop_map(|(pre, stall, stall2, busy, at, slots, rng, subs, around_accept, (errors, flood))| {
            let mut steps = vec![connect_all(5, 10)];
            if subs {
                steps.push(batch((0..5).map(|i| act(i, vec![Op::Sub(vec![("#".into(), (i % 3) as u8)])])).collect()));
            }
            steps.push(batch(pre.into_iter().map(|(s, o)| act(s, o)).collect()));
            if let Some((s, n)) = stall {
                steps.push(Step::Window { slot: s, bytes: Some(n) });
                steps.push(batch(vec![act(0, vec![Op::Times(30, Box::new(publish("a", 1)))])]));
            }
            if let Some(s) = stall2 {
                steps.push(Step::Window { slot: s, bytes: Some(0) });
                steps.push(batch(vec![act(0, vec![Op::Times(300, Box::new(publish("b", 0)))])]));
            }
            let mut acts: Vec<Act> = busy.into_iter().map(|(slot, ops, segs, gaps)| Act { slot, ops, segs, gaps }).collect();
            if let Some((n, q)) = flood {
                // Everybody has much to say at that moment.
                acts = (0..5).map(|i| act(i, vec![Op::Times(n, Box::new(publish("a", q)))])).collect();
            }
            steps.extend(errors.into_iter().map(Step::AcceptError));
            steps.push(Step::Interrupt { acts, at, around_accept });
            case(slots, steps, rng)
        })
        .boxed()
}

// ------------------------------------------------------------------ C19

fn wire_id() -> BoxedStrategy<Raw> {
    any_id().prop_map(|i| Raw::B(i.to_be_bytes().to_vec())).boxed()
}
fn wire_str(empty: bool) -> BoxedStrategy<Raw> {
    let s = prop_oneof![
        6 => topic(),
        2 => "[a-zA-Z0-9 /_é日-]{1,30}".prop_map(|s| s),
        1 => (1usize..700).prop_map(|n| "x".repeat(n)),
        1 => Just("y".repeat(65535)),
        1 => "\\PC{1,20}".prop_map(|s| s.replace('\0', "0")),
        1 => Just(if empty { String::new() } else { "e".into() }),
    ];
    s.prop_map(|s| Raw::Str(Box::new(Raw::B(s.into_bytes())))).boxed()
}
/// A topic name: never empty, no wildcards.
fn wire_topic() -> BoxedStrategy<Raw> {
    wire_str(false)
        .prop_map(|s| match s {
            Raw::Str(b) => match *b {
                Raw::B(v) => Raw::Str(Box::new(Raw::B(v.into_iter().map(|c| if c == b'+' || c == b'#' { b'w' } else { c }).collect()))),
                b => Raw::Str(Box::new(b)),
            },
            s => s,
        })
        .boxed()
}
fn wire_bin() -> BoxedStrategy<Raw> {
    prop_oneof![3 => vec(any::<u8>(), 0..30).prop_map(Raw::B), 1 => (0u32..66_000, any::<u8>()).prop_map(|(n, salt)| Raw::Fill { n: n.min(65535), salt })]
        .prop_map(|r| Raw::Str(Box::new(r)))
        .boxed()
}
/// A well-formed packet of any type, either direction, with the shortest length encoding.
fn wire(t: Tier) -> BoxedStrategy<Raw> {
    let p = |first: u8, parts: Vec<Raw>| Raw::Packet { first, parts };
    let connect = (any::<bool>(), any::<u16>(), wire_str(true), prop::option::of((wire_topic(), wire_bin(), 0u8..3, any::<bool>())), prop::option::of((wire_str(true), prop::option::of(wire_bin()))))
        .prop_map(move |(clean, ka, cid, will, user)| {
            // Only a clean session goes without a client identifier.
            let clean = clean || cid.build().len() == 2;
            let mut f = (clean as u8) << 1;
            let mut tail = vec![cid];
            if let Some((wt, wm, q, r)) = will {
                f |= 4 | q << 3 | (r as u8) << 5;
                tail.push(wt);
                tail.push(wm);
            }
            if let Some((u, pw)) = user {
                f |= 0x80;
                tail.push(u);
                if let Some(pw) = pw {
                    f |= 0x40;
                    tail.push(pw);
                }
            }
            let mut parts = vec![Raw::B(vec![0, 4, b'M', b'Q', b'T', b'T', 4, f, (ka >> 8) as u8, ka as u8])];
            parts.extend(tail);
            p(0x10, parts)
        });
    let publish = (wire_topic(), qos(), any::<bool>(), any::<bool>(), wire_id(), prop_oneof![3 => vec(any::<u8>(), 0..60).prop_map(Raw::B), 3 => (size(t), any::<u8>()).prop_map(|(n, salt)| Raw::Fill { n, salt })])
        .prop_map(move |(topic, q, dup, retain, id, body)| {
            let mut parts = vec![topic];
            if q > 0 {
                parts.push(id);
            }
            parts.push(body);
            p(0x30 | ((dup && q > 0) as u8) << 3 | q << 1 | retain as u8, parts)
        });
    prop_oneof![
        4 => connect,
        1 => (any::<bool>(), 0u8..6).prop_map(move |(sp, c)| p(0x20, vec![Raw::B(vec![(sp && c == 0) as u8, c])])),
        6 => publish,
        2 => (select(vec![0x40u8, 0x50, 0x62, 0x70, 0xb0]), wire_id()).prop_map(move |(f, id)| p(f, vec![id])),
        3 => (wire_id(), vec((wire_str(false), qos()), 1..8)).prop_map(move |(id, v)| {
            let mut parts = vec![id];
            for (s, q) in v {
                parts.push(s);
                parts.push(Raw::B(vec![q]));
            }
            p(0x82, parts)
        }),
        2 => (wire_id(), vec(select(vec![0u8, 1, 2, 0x80]), 1..20)).prop_map(move |(id, v)| p(0x90, vec![id, Raw::B(v)])),
        1 => (wire_id(), (100usize..20000, select(vec![0u8, 1, 2, 0x80]))).prop_map(move |(id, (n, c))| p(0x90, vec![id, Raw::B(vec![c; n])])),
        2 => (wire_id(), vec(wire_str(false), 1..8)).prop_map(move |(id, v)| {
            let mut parts = vec![id];
            parts.extend(v);
            p(0xa2, parts)
        }),
        1 => select(vec![0xc0u8, 0xd0, 0xe0]).prop_map(move |f| p(f, vec![])),
    ]
    .boxed()
}
fn trailing() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![2 => Just(vec![]), 2 => vec(any::<u8>(), 1..20), 1 => Just(vec![0xc0, 0]), 1 => Just(vec![0, 1, b'a', 0, 0, 1, b'b', 1])].boxed()
}
fn c19(t: Tier) -> BoxedStrategy<Input> {
    if crate::broker().recode.is_none() {
        // No entry point to the codec: what goes through it at the sockets.
        return prop_oneof![c03(t), c08(t), c10(t)].boxed();
    }
    prop_oneof![
        5 => (wire(t), trailing()).prop_map(|(packet, trailing)| CodecCase { packet, trailing, well_formed: true }),
        4 => (wire(Tier::Quick), vec(mutation(), 1..4), trailing()).prop_map(|(p, m, trailing)| {
            let mut b = p.build();
            if b.len() > 4000 {
                b.truncate(4000);
            }
            CodecCase { packet: Raw::B(mutate(b, &m)), trailing, well_formed: false }
        }),
        1 => (wire(Tier::Quick), any::<u16>()).prop_map(|(p, k)| {
            let mut b = p.build();
            b.truncate(k as usize % b.len());
            CodecCase { packet: Raw::B(b), trailing: vec![], well_formed: false }
        }),
        2 => (raw(), trailing()).prop_map(|(packet, trailing)| CodecCase { packet, trailing, well_formed: false }),
    ]
    .prop_map(Input::Codec)
    .boxed()
}
fn c19_fixed(t: Tier) -> Vec<Input> {
    if crate::broker().recode.is_none() {
        return c03_fixed(t);
    }
    let mut v = vec![];
    let mut sizes = vec![126u32, 127, 128, 129, 16382, 16383, 16384, 16385, 2_097_150, 2_097_151, 2_097_152, 2_097_153];
    sizes.push(if t == Tier::Quick { 30_000_000 } else { 268_435_455 });
    for rl in sizes {
        for first in [0x30u8, 0x31, 0x32, 0x3d] {
            let q = (first >> 1) & 3;
            let mut parts = vec![Raw::B(vec![0, 1, b't'])];
            if q > 0 {
                parts.push(Raw::B(vec![1, 2]));
            }
            parts.push(Raw::Fill { n: rl - 3 - if q > 0 { 2 } else { 0 }, salt: q });
            v.push(Input::Codec(CodecCase { packet: Raw::Packet { first, parts }, trailing: vec![0x30, 1], well_formed: true }));
        }
    }
    // Every first byte with every short body of zeros and of a small pattern.
    for first in 0..=255u8 {
        for n in 0..8usize {
            for pat in [vec![0u8; 8], vec![0, 1, b'a', 0, 1, 2, 0, 1], vec![0xff; 8], vec![0, 4, b'M', b'Q', b'T', b'T', 4, 2]] {
                v.push(Input::Codec(CodecCase { packet: Raw::Packet { first, parts: vec![Raw::B(pat[..n].to_vec())] }, trailing: vec![], well_formed: false }));
            }
        }
    }
    // Every CONNECT flags byte.
    for f in 0..=255u8 {
        let mut body = vec![0, 4, b'M', b'Q', b'T', b'T', 4, f, 0, 10, 0, 1, b'c'];
        if f & 4 != 0 {
            body.extend([0, 1, b'w', 0, 2, 0xff, 0]);
        }
        if f & 0x80 != 0 {
            body.extend([0, 1, b'u']);
        }
        if f & 0x40 != 0 {
            body.extend([0, 2, 0xfe, 1]);
        }
        let b = packet(0x10, &body);
        let ok = matches!(decode_client(&b), Decoded::Pkt(..));
        v.push(Input::Codec(CodecCase { packet: Raw::B(b), trailing: vec![7], well_formed: ok }));
    }
    v
}

// ------------------------------------------------------------------ C20

fn c20(_: Tier) -> BoxedStrategy<Input> {
    let unit = || select(vec!["/", "a/", "+/", "b/", "ab/"]);
    let deep = prop_oneof![
        3 => (unit(), prop_oneof![1u32..300, 300u32..5000, Just(30_000u32)]).prop_map(|(u, n)| (u.to_string(), n)),
        1 => (Just("/".to_string()), prop_oneof![Just(65_000u32), Just(65_534), Just(65_535)]),
        1 => (Just("x".to_string()), prop_oneof![Just(65_535u32), 1u32..60_000]),
    ];
    let tail = select(vec!["", "a", "#", "+"]);
    let f = move || (deep.clone(), tail.clone()).prop_map(|((unit, n), tail)| (unit, n, tail.to_string()));
    let many = (1u32..4000, any::<bool>(), 1usize..4);
    // Many filters, each of them deep.
    let bulk = prop_oneof![3 => Just(None), 1 => (1u32..150, 2u32..198, select(vec!["/a", "/+", "/"]), any::<bool>()).prop_map(Some)];
    (vec((f(), qos()), 1..4), prop::option::of(many), qos(), vec(slot(), 3), rng(), any::<bool>(), bulk)
        .prop_map(|(deep, many, q, slots, rng, unsub, bulk)| {
            let mut steps = vec![connect_all(3, 0)];
            let filter = |(u, n, t): &(String, u32, String)| {
                // Keep within 65535 bytes and well-formed at the end.
                let room = (65_535 - t.len()) / u.len();
                let t = if u == "x" { "" } else { t.as_str() };
                Name::Rep { head: "".into(), unit: u.clone(), n: (*n).min(room as u32), tail: t.into() }
            };
            let topic = |(u, n, t): &(String, u32, String)| {
                let u = u.replace('+', "q");
                let t = if u == "x" { "".into() } else { t.replace(['+', '#'], "z") };
                let room = (65_535 - t.len()) / u.len();
                let name = Name::Rep { head: "".into(), unit: u, n: (*n).min(room as u32), tail: t };
                if name.bytes().is_empty() { Name::S("a".into()) } else { name }
            };
            let ok = |n: &Name| !n.bytes().is_empty();
            let subs: Vec<(Name, u8)> = deep.iter().map(|(d, q)| (filter(d), *q)).filter(|x| ok(&x.0)).collect();
            let subs = if subs.is_empty() { vec![("a".into(), 0)] } else { subs };
            steps.push(batch(vec![act(0, vec![Op::Sub(subs.clone())]), act(1, vec![Op::Sub(vec![("#".into(), q)])])]));
            let p = |n: Name| Op::Pub { topic: n, qos: q, retain: false, dup: false, id: PubId::Auto, payload: Payload::Tag(0) };
            steps.push(batch(vec![act(2, deep.iter().map(|(d, _)| p(topic(d))).collect())]));
            if let Some((n, wild, width)) = many {
                // Thousands of filters in one packet.
                let fs: Vec<(Name, u8)> = (0..n)
                    .map(|i| {
                        let mut s = format!("m/{}", i % 1500);
                        for w in 1..width {
                            s += &format!("/{}", i / (w as u32 * 10));
                        }
                        if wild && i % 3 == 0 {
                            s += "/+";
                        }
                        (Name::S(s), (i % 3) as u8)
                    })
                    .collect();
                steps.push(batch(vec![act(0, vec![Op::Sub(fs.clone())])]));
                steps.push(batch(vec![act(2, vec![publish("m/7", 1), publish("m/1/0", 2), publish("m/12/1/0", 1), publish("a", 1)])]));
                if unsub {
                    steps.push(batch(vec![act(0, vec![Op::Unsub(fs.into_iter().map(|x| x.0).collect())])]));
                    steps.push(batch(vec![act(2, vec![publish("m/7", 1), publish("m/1/0", 2)])]));
                }
            }
            if let Some((n, depth, unit, own)) = bulk {
                let name = |i: u32| Name::Rep { head: format!("n{i}"), unit: unit.into(), n: depth, tail: "".into() };
                let topic = |i: u32| Name::Rep { head: format!("n{i}"), unit: unit.replace('+', "w"), n: depth, tail: "".into() };
                steps.push(batch(vec![act(own as usize, vec![Op::Sub((0..n).map(|i| (name(i), (i % 3) as u8)).collect())])]));
                steps.push(batch(vec![act(2, [0, n / 2, n - 1].into_iter().map(|i| p(topic(i))).collect())]));
            }
            if unsub {
                steps.push(batch(vec![act(0, vec![Op::Unsub(subs.into_iter().map(|x| x.0).collect())])]));
                steps.push(batch(vec![act(2, deep.iter().map(|(d, _)| p(topic(d))).collect())]));
            }
            steps.push(batch(vec![act(0, vec![Op::Disconnect])]));
            steps.push(batch(vec![act(2, vec![publish("a/b", 1)])]));
            case(slots, steps, rng)
        })
        .boxed()
}
fn c20_fixed(_: Tier) -> Vec<Input> {
    let mut v = vec![];
    for (unit, n, tail) in [("/", 65_535u32, ""), ("+/", 32_767, "+"), ("a/", 32_767, "#"), ("a/", 32_767, "b"), ("/", 10_000, "#"), ("x", 65_535, "")] {
        let f = Name::Rep { head: "".into(), unit: unit.into(), n, tail: tail.into() };
        let t = Name::Rep { head: "".into(), unit: unit.replace('+', "q"), n, tail: tail.replace(['+', '#'], "z") };
        let p = || Op::Pub { topic: t.clone(), qos: 1, retain: false, dup: false, id: PubId::Auto, payload: Payload::Tag(3) };
        for how in 0..3 {
            let mut steps = vec![connect_all(3, 0), batch(vec![act(1, vec![Op::Sub(vec![("#".into(), 1), ("+/#".into(), 2)])])])];
            steps.push(batch(vec![act(0, vec![Op::Sub(vec![(f.clone(), 1), ("a".into(), 1)])])]));
            steps.push(batch(vec![act(2, vec![p(), publish("a", 1)])]));
            match how {
                0 => steps.push(batch(vec![act(0, vec![Op::Unsub(vec![f.clone()])])])),
                1 => steps.push(batch(vec![act(0, vec![Op::Eof])])),
                _ => steps.push(batch(vec![act(0, vec![Op::Open, Op::Connect(Conn::plain("c0", 0))])])),
            }
            steps.push(batch(vec![act(2, vec![p(), publish("a", 1)])]));
            v.push(case(plain_slots(3), steps, 3));
        }
    }
    // Many deep filters in one packet.
    for unit in ["/a", "/+"] {
        let fs: Vec<Name> = (0..1000).map(|i| Name::Rep { head: format!("{i}"), unit: unit.into(), n: 195, tail: "".into() }).collect();
        v.push(case(
            plain_slots(2),
            vec![
                connect_all(2, 0),
                batch(vec![act(0, vec![Op::Sub(fs.iter().map(|f| (f.clone(), 1)).collect())])]),
                batch(vec![act(1, vec![Op::Pub { topic: Name::Rep { head: "7".into(), unit: "/a".into(), n: 195, tail: "".into() }, qos: 1, retain: false, dup: false, id: PubId::Auto, payload: Payload::Tag(3) }])]),
                batch(vec![act(0, vec![Op::Unsub(fs)])]),
                batch(vec![act(1, vec![publish("7/a", 1)])]),
            ],
            5,
        ));
    }
    // As many filters as one packet can reasonably hold.
    let fs: Vec<(Name, u8)> = (0..20_000).map(|i| (Name::S(format!("k/{i}")), (i % 3) as u8)).collect();
    v.push(case(
        plain_slots(2),
        vec![
            connect_all(2, 0),
            batch(vec![act(0, vec![Op::Sub(fs.clone())])]),
            batch(vec![act(1, vec![publish("k/0", 2), publish("k/19999", 2), publish("k/20000", 2)])]),
            batch(vec![act(0, vec![Op::Unsub(fs.into_iter().map(|f| f.0).collect())])]),
            batch(vec![act(1, vec![publish("k/0", 2), publish("k/19999", 2)])]),
        ],
        1,
    ));
    v
}

// ------------------------------------------------------------------ scale

/// The large histories each property begins with.
fn large_cases(id: &str, t: Tier) -> Vec<Input> {
    let x = if t == Tier::Quick { 1 } else { 4 };
    match id {
        "C01" => vec![scale::forest(100, 20 * x), scale::filters(2000 * x as u32, "d/@/+"), scale::filters(1000, "@/#"), scale::fanout(100), scale::wide(1200 * x as u32), scale::wide(5000)],
        "C02" => vec![scale::filters(3000 * x as u32, "l/@"), scale::filters(1500, "@/a/+/#"), scale::forest(150 * x, 12), scale::crowd(120), scale::crowd(700 * x)],
        "C03" => vec![scale::chatter(4000, 400, 2)],
        "C04" => vec![scale::publishers(60, 10), scale::huge(1 << 21), scale::huge(5_000_000)],
        "C05" => vec![scale::chatter(12_000, 3000, 1), scale::burst(30_000, 1, 1), scale::burst(5000, 11, 0)],
        "C06" => vec![scale::fanout(300), scale::fanout(2500 * x), scale::publishers(200 * x, 20), scale::chatter(70_000 * x as u32, 7000, 0), scale::chatter(9000, 9000, 2), scale::backlog(8001, 1), scale::backlog(4003, 0)],
        "C07" => vec![scale::fanout(200), scale::all_unacknowledged(false), scale::all_unacknowledged(true)],
        "C08" => vec![scale::all_ids(5), scale::all_ids(if x > 1 { 1 } else { 17 }), scale::one_request(600), scale::one_request(5000), scale::one_request(12_000), scale::one_request(70_000), scale::burst(40_000, 1, 0)],
        "C10" => vec![scale::hostile(5000 * x, 0), scale::hostile(400, 150), scale::hostile(200, 600)],
        "C11" => vec![scale::population(1000 * x), scale::hostile(2000, 0)],
        "C12" => vec![scale::hostile(3000 * x, 20)],
        "C13" => [scale::neighbours(), vec![scale::takeovers(1500 * x), scale::population(600), scale::anonymous(300), scale::anonymous(1100), scale::succession(200), scale::succession(65_400)]].concat(),
        "C14" => vec![scale::uptime(200 * x, 60_000_000), scale::uptime(20, 98_000_000)],
        "C15" => vec![scale::backlog(60_000, 0), scale::backlog(65_400, 1), scale::backlog(12_001, 2), scale::overflow(76_000, 0), scale::overflow(72_000, 2), scale::fanout(700), scale::all_unacknowledged(false), scale::all_unacknowledged(true)],
        "C16" => vec![scale::endings(2000 * x), scale::fanout(500), scale::burst(30_000, 1, 0), scale::burst(24_001, 1, 1), scale::burst(9_001, 100_000, 1), scale::burst(3_003, 7, 1)],
        "C17" => vec![scale::hoard(1500 * x as u32, false), scale::hoard(1200, true)],
        "C20" => vec![scale::one_request(70_000), scale::one_request(140_000 * x as u32)],
        "C18" => vec![scale::interrupt(300 * x, 0), scale::interrupt(300, 3), scale::interrupt(40, 50)],
        _ => vec![],
    }
}

// ------------------------------------------------------------------ table

fn spiced(id: &str, t: Tier, s: BoxedStrategy<Input>) -> BoxedStrategy<Input> {
    match id {
        // Rounds must repeat exactly.
        "C17" | "C19" => s,
        // Segments and silences are the point of these.
        "C04" => spice(s, false, true),
        "C14" => spice(s, false, false),
        "C06" | "C13" | "C15" | "C16" => spice(prop_oneof![150 => s, 1 => crowd(t, false)].boxed(), true, true),
        "C18" => spice(prop_oneof![150 => s, 1 => crowd(t, true)].boxed(), true, true),
        _ => spice(s, true, true),
    }
}

pub fn specs() -> Vec<Spec> {
    macro_rules! spec {
        ($id:literal, $f:ident, $fixed:expr, $q:expr, $t:expr, $nt:expr, $rule:literal) => {
            Spec { id: $id, rule: $rule, quick: $q, thorough: $t, strategy: |t| spiced($id, t, $f(t)), nontrivial: $nt, fixed: |t| [large_cases($id, t), $fixed(t)].concat() }
        };
    }
    vec![
        spec!("C01", c01, none, 150_000, 3750_000, |s| s.wildcard_deliveries > 0 && s.not_delivered > 0,
            "1-3 clients subscribe 1-4 random filters each, 4-15 topics (random, or derived from the filters and perturbed) are published; non-trivial: a wildcard delivery and a non-delivery both occurred"),
        spec!("C02", c02, none, 90_000, 2250_000, |s| s.effective_unsubs > 0 && s.resubs > 0 && s.deliveries > 0 && s.not_delivered > 0,
            "3-12 rounds of subscribe / re-subscribe / unsubscribe over a pool of nested filters by 1-3 clients, each followed by publishes probing the pool; non-trivial: an effective unsubscribe, a re-subscription, a delivery and a non-delivery"),
        spec!("C03", c03, c03_fixed, 25_000, 625_000, |s| s.deliveries > 0 && (s.big_packets > 0 || s.empty_payloads > 0 || s.max_packet > 120),
            "1-5 messages with sizes around every remaining-length and buffer boundary (up to 268435455), binary contents, long topics, to two subscribers; non-trivial: a delivered packet that is empty, over 120 bytes or over 8 KiB"),
        spec!("C04", c04, none, 100_000, 2500_000, |s| s.split_packets > 0 && s.responses > 0,
            "whole client streams (CONNECT included) cut into random segments with random pauses, packets split and coalesced; non-trivial: a packet was split across segments and the broker answered"),
        spec!("C05", c05, none, 30_000, 750_000, |s| s.deliveries > 0 && s.short_writes > 0,
            "subscribers whose sockets accept 1-300 bytes per write, with delays, windows closing at random byte counts and reopening; non-trivial: a delivery over a socket with short writes"),
        spec!("C06", c06, none, 60_000, 1500_000, |s| s.concurrent_batches > 0 && s.deliveries > 10,
            "2-4 publishers send 2-30 tagged messages each at the same time, cut and paced at random, to 1-3 subscribers; non-trivial: several senders in one batch and over ten deliveries"),
        spec!("C07", c07, c07_fixed, 160_000, 4000_000, |s| s.deliveries_qos1 + s.deliveries_qos2 > 1 && s.unacked_max > 1,
            "overlapping subscriptions at mixed QoS, publishes at every QoS with DUP and RETAIN bits, acknowledgements withheld or given at random, up to 66000 deliveries on a connection; non-trivial: two or more unacknowledged QoS>0 deliveries at once"),
        spec!("C08", c08, none, 120_000, 3000_000, |s| s.responses > 5,
            "1-3 clients send 1-36 requests of every type with arbitrary identifiers in cut-up streams; non-trivial: more than five responses checked"),
        spec!("C09", c09, c09_fixed, 140_000, 3500_000, |s| s.qos2_repeats > 0 && s.deliveries > 0,
            "QoS 2/1/0 publishes over four identifiers by two clients, repeated, released, interleaved, reconnecting; non-trivial: a repeated QoS 2 publish before its release"),
        spec!("C10", c10, none, 100_000, 2500_000, |s| s.malformed > 0 && s.deliveries > 0,
            "mutated packets, structured and plain random bytes after valid traffic (or none), next to bystanders exchanging messages; accept errors; non-trivial: a malformed packet and a bystander delivery"),
        spec!("C11", c11, none, 100_000, 2500_000, |s| s.refused + s.before_connect + s.second_connects > 0 && s.connects_ok > 1,
            "connections opened by valid, refused, malformed and missing CONNECTs with every combination of fields, followed by more traffic; non-trivial: one refused or violating connection next to accepted ones"),
        spec!("C12", c12, none, 120_000, 3000_000, |s| s.malformed > 1 && s.deliveries > 0,
            "an enumerated list of about 200 forbidden packets (plus length-damaged ones) inside valid traffic; non-trivial: two or more violations and a delivery"),
        spec!("C13", c13, none, 100_000, 2500_000, |s| s.takeovers > 0 || s.reconnects > 2,
            "four sockets sharing two identifiers (and anonymous ones) connect, act, end in four ways, overtake each other, singly and racing; non-trivial: a takeover or three reconnections"),
        spec!("C14", c14, none, 120_000, 3000_000, |s| s.idle_kept > 0 || s.idle_closed > 0,
            "keep-alive values 0-65535, silences of 0.3-2.1 K between packets of every kind, broker traffic in between, connections without CONNECT; virtual time; non-trivial: a connection was kept after 0.7 K of silence or closed for inactivity"),
        spec!("C15", c15, c15_fixed, 20_000, 500_000, |s| s.backlog_max > 0 || s.self_deliveries > 20,
            "stuck, slow and self-flooding clients with up to 700 (fixed: 4000) messages due, others served meanwhile, resume or takeover; non-trivial: a backlog at a stuck client or over 20 self-deliveries"),
        spec!("C16", c16, none, 90_000, 2250_000, |s| s.eofs + s.resets + s.disconnects > 0 && s.deliveries > 0,
            "streams ended by end-of-file, reset or DISCONNECT right after packets, inside packets, while messages arrive; non-trivial: an end and a delivery"),
        spec!("C17", c17_all, none, 25_000, 625_000, |s| s.rounds >= 12 && (s.subscribes > 0 || s.publishes > 0),
            "one random history of connects, subscriptions, messages, unsubscribes and ends repeated 16-24 times in one broker, live bytes compared; non-trivial: at least 12 rounds with subscriptions or messages"),
        spec!("C18", c18, none, 50_000, 1250_000, |s| s.busy_at_interrupt > 0,
            "interrupt 0-400 ms into traffic with stuck, slow, half-open and flooding clients; non-trivial: unread input or a blocked write at the interrupt or, with traffic of the same instant, up to a dozen scheduler turns before it"),
        spec!("C19", c19, c19_fixed, if crate::broker().recode.is_some() { 350_000 } else { 20_000 }, if crate::broker().recode.is_some() { 10_000_000 } else { 500_000 }, |s| s.responses > 0 || s.malformed > 0,
            "well-formed packets of all fourteen types with trailing bytes; mutated, truncated and random byte strings; non-trivial: a round-trip checked, or malformed bytes rejected"),
        spec!("C20", c20, c20_fixed, 5_000, 125_000, |s| s.deep_filters > 0 || s.filters_in_one_packet > 100 || s.max_packet > 60_000,
            "filters and topics with up to 65535 levels, strings of 65535 bytes, up to 20000 filters in a packet; non-trivial: over 100 levels, over 100 filters in a packet, or a packet over 60000 bytes"),
    ]
}
