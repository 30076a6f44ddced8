//! Histories far beyond everyday size, along one dimension each: limits nobody wrote down show only there.
use crate::case::*;
use crate::gen::*;

fn slots(n: usize) -> Vec<Slot> {
    plain_slots(n)
}
fn sub(f: &[(&str, u8)]) -> Op {
    Op::Sub(f.iter().map(|(f, q)| ((*f).into(), *q)).collect())
}
fn end(k: usize) -> Op {
    [Op::Disconnect, Op::Eof, Op::Reset, Op::Bytes(Raw::B(vec![0xf0, 0]))][k % 4].clone()
}
fn with_id(op: Op, to: u16) -> Op {
    match op {
        Op::Pub { topic, qos, retain, dup, payload, .. } => Op::Pub { topic, qos, retain, dup, id: PubId::Is(to), payload },
        op => op,
    }
}

/// One message for `n` subscribers; half of them end, one way or the other; another.
pub fn fanout(n: usize) -> Input {
    let mut steps = vec![connect_all(n + 1, 0)];
    let filters = |i: usize| {
        let mut v = vec![("t".into(), (i % 3) as u8), (Name::S(format!("o/{i}")), 1)];
        // Some have several that match.
        if i % 4 == 1 {
            v.push(("+".into(), (i / 4 % 3) as u8));
        }
        if i % 5 == 2 {
            v.push(("#".into(), (i / 5 % 3) as u8));
        }
        v
    };
    steps.push(batch((0..n).map(|i| act(i, vec![Op::Sub(filters(i))])).collect()));
    let mut talk: Vec<Op> = (0..3).map(|q| publish("t", q)).collect();
    talk.extend((0..n).map(|i| publish(format!("o/{i}"), 0)));
    steps.push(batch(vec![act(n, talk.clone())]));
    steps.push(batch((0..n).filter(|i| i % 2 == 1).map(|i| act(i, vec![end(i / 2)])).collect()));
    steps.push(batch(vec![act(n, talk)]));
    case(slots(n + 1), steps, n as u32)
}
/// `m` messages from one connection to two others, in steps of `chunk`.
pub fn chatter(m: u32, chunk: u32, qos: u8) -> Input {
    let mut steps = vec![connect_all(3, 0), batch(vec![act(0, vec![sub(&[("a", qos)])]), act(1, vec![sub(&[("#", 0)])])])];
    for _ in 0..m / chunk {
        steps.push(batch(vec![act(2, vec![Op::Times(chunk, Box::new(publish("a", qos)))])]));
    }
    steps.push(batch(vec![act(2, vec![publish("a", 0), publish("a", 1), publish("a", 2), Op::Ping])]));
    case(slots(3), steps, m)
}
/// `n` publishers at once.
pub fn publishers(n: usize, each: u32) -> Input {
    let mut steps = vec![connect_all(n + 2, 0), batch(vec![act(n, vec![sub(&[("#", 1)])]), act(n + 1, vec![sub(&[("p/+", 2)])])])];
    steps.push(batch((0..n).map(|i| act(i, vec![Op::Times(each, Box::new(publish(format!("p/{}", i % 5), (i % 3) as u8)))])).collect()));
    case(slots(n + 2), steps, n as u32)
}
/// `n` subscriptions of one client, each asked for on its own, every second given up.
pub fn filters(n: u32, form: &str) -> Input {
    let name = |i: u32| form.replace('@', &i.to_string());
    let topic = |i: u32| name(i).replace('+', "w").replace('#', "x/y");
    let mut steps = vec![connect_all(2, 0)];
    let all: Vec<u32> = (0..n).collect();
    for part in all.chunks(1000) {
        steps.push(batch(vec![act(0, part.iter().map(|i| Op::Sub(vec![(Name::S(name(*i)), (i % 3) as u8)])).collect())]));
    }
    let probe = |step: u32| -> Vec<Op> { (0..n).step_by(step as usize).chain([n - 1, n]).map(|i| publish(topic(i), 2)).collect() };
    steps.push(batch(vec![act(1, probe(7))]));
    for part in all.chunks(1000) {
        steps.push(batch(vec![act(0, part.iter().filter(|i| *i % 2 == 0).map(|i| Op::Unsub(vec![Name::S(name(*i))])).collect())]));
    }
    steps.push(batch(vec![act(1, probe(5))]));
    case(slots(2), steps, n)
}
/// `n` names below one node, at three depths, next to every kind of wildcard, some of them given up again.
pub fn wide(n: u32) -> Input {
    let name = |i: u32| [format!("{i}"), format!("w/{i}"), format!("w/x/{i}"), format!("w/{i}/y")][i as usize % 4].clone();
    let wild = ["#", "+", "w/#", "w/+", "+/+", "+/#", "w/x/#", "w/+/#", "+/x/+", "w/+/y", "w/+/+", "+/+/y", "w/x/+", "w/x/+/#", "w"];
    let mut steps = vec![connect_all(5, 0)];
    let all: Vec<u32> = (0..n).collect();
    for part in all.chunks(1000) {
        steps.push(batch(vec![act(0, vec![Op::Sub(part.iter().map(|i| (Name::S(name(*i)), (i % 3) as u8)).collect())])]));
    }
    steps.push(batch(vec![
        act(1, (0..5).map(|i| sub(&[(wild[3 * i], 1)])).collect()),
        act(2, (0..5).map(|i| sub(&[(wild[3 * i + 1], 2)])).collect()),
        act(3, (0..5).map(|i| sub(&[(wild[3 * i + 2], 0)])).collect()),
    ]));
    let probe: Vec<Op> = (0..n)
        .step_by(1 + n as usize / 60)
        .flat_map(|i| [name(i), format!("w/x/{i}"), format!("{i}"), format!("w/{i}/y"), format!("w/{i}/y/z")])
        .chain(["w", "w/x", "none", "w/none", "w/x/none", "w/none/y", "none/x/none", "w/x/none/n"].iter().map(|x| x.to_string()))
        .enumerate()
        .map(|(i, t)| publish(t, (i % 3) as u8))
        .collect();
    steps.push(batch(vec![act(4, probe.clone())]));
    // With wildcards of its own, and without half of the names.
    steps.push(batch(vec![act(0, vec![sub(&[("w/+", 2), ("#", 1)])])]));
    for part in all.chunks(1000) {
        steps.push(batch(vec![act(0, vec![Op::Unsub(part.iter().filter(|i| *i % 8 > 3).map(|i| Name::S(name(*i))).collect())])]));
    }
    steps.push(batch(vec![act(4, probe.clone())]));
    steps.push(batch(vec![act(1, vec![Op::Unsub(vec!["#".into(), "w/+/#".into()])]), act(2, vec![Op::Unsub(vec!["w/+".into()])])]));
    steps.push(batch(vec![act(4, probe)]));
    case(slots(5), steps, n)
}
/// `n` clients with one filter: some ask for it again, some give it up, some come and go.
pub fn crowd(n: usize) -> Input {
    let mut steps = vec![connect_all(n + 1, 0)];
    let talk = || batch(vec![act(n, (0..3).map(|q| publish("t", q)).collect())]);
    steps.push(batch((0..n).map(|i| act(i, vec![sub(&[("t", (i % 3) as u8)])])).collect()));
    steps.push(talk());
    steps.push(batch((0..n).filter(|i| i % 5 == 1).map(|i| act(i, vec![sub(&[("t", ((i + 1) % 3) as u8)])])).collect()));
    steps.push(talk());
    steps.push(batch((0..n).filter(|i| i % 7 < 3).map(|i| act(i, vec![Op::Unsub(vec!["t".into()])])).collect()));
    steps.push(talk());
    steps.push(batch((0..n).filter(|i| i % 7 == 0).map(|i| act(i, vec![sub(&[("t", 2)])])).collect()));
    steps.push(batch((0..n).filter(|i| i % 11 == 4).map(|i| act(i, vec![end(i)])).collect()));
    steps.push(talk());
    case(slots(n + 1), steps, n as u32)
}
/// `n` clients with `k` filters each, in one tree.
pub fn forest(n: usize, k: usize) -> Input {
    let f = |i: usize, j: usize| match j % 5 {
        0 => format!("s/{}/{j}", i % 50),
        1 => format!("s/+/{}", i % 70),
        2 => format!("{i}/#"),
        3 => format!("+/{i}/{j}"),
        _ => format!("s/{i}/+"),
    };
    let mut steps = vec![connect_all(n + 1, 0)];
    steps.push(batch((0..n).map(|i| act(i, vec![Op::Sub((0..k).map(|j| (Name::S(f(i, j)), ((i + j) % 3) as u8)).collect())])).collect()));
    let probe: Vec<Op> = (0..60).map(|x| publish(match x % 4 { 0 => format!("s/{x}/{}", x % 7), 1 => format!("{x}/a/b"), 2 => format!("q/{x}/3"), _ => format!("s/{x}/{x}") }, (x % 3) as u8)).collect();
    steps.push(batch(vec![act(n, probe.clone())]));
    steps.push(batch((0..n).filter(|i| i % 3 == 0).map(|i| act(i, vec![Op::Unsub((0..k).map(|j| Name::S(f(i, j))).collect())])).collect()));
    steps.push(batch(vec![act(n, probe)]));
    case(slots(n + 1), steps, n as u32)
}
/// Every packet identifier there is, in every kind of request.
pub fn all_ids(step: u16) -> Input {
    let ids: Vec<u16> = (1..=65535u16).step_by(step as usize).chain([65535]).collect();
    let mut steps = vec![connect_all(2, 0)];
    for part in ids.chunks(5000) {
        let mut ops = vec![];
        for i in part {
            ops.push(Op::PubRec(*i));
            ops.push(Op::PubRel(*i));
            ops.push(with_id(publish("a", 1), *i));
            ops.push(with_id(publish("a", 2), *i));
            ops.push(Op::SubId(*i, vec![("b".into(), (i % 3) as u8)]));
            ops.push(Op::UnsubId(*i, vec!["b".into()]));
        }
        steps.push(batch(vec![act(0, ops)]));
    }
    case(slots(2), steps, step as u32)
}
/// One SUBSCRIBE and one UNSUBSCRIBE with `n` filters, some of them refused.
pub fn one_request(n: u32) -> Input {
    let name = |i: u32| Name::S(if i % 11 == 3 { format!("x#/{i}") } else { format!("r/{i}") });
    let steps = vec![
        connect_all(2, 0),
        batch(vec![act(0, vec![Op::SubId(9, (0..n).map(|i| (name(i), (i % 3) as u8)).collect()), Op::Ping])]),
        batch(vec![act(1, vec![publish("r/0", 2), publish(format!("r/{}", n - 1), 2), publish(format!("r/{n}"), 1)])]),
        batch(vec![act(0, vec![Op::UnsubId(10, (0..n).filter(|i| i % 11 != 3).map(name).collect()), Op::Ping])]),
        batch(vec![act(1, vec![publish("r/0", 2), publish(format!("r/{}", n - 1), 2)])]),
    ];
    case(slots(2), steps, n)
}
/// `n` connections that go wrong in every way, failing accepts, and bystanders served all along.
pub fn hostile(n: usize, errors: usize) -> Input {
    let bad: Vec<Vec<u8>> = vec![
        vec![0xf0, 0],
        vec![0, 0],
        vec![0x10, 0],
        vec![0x30, 0xff, 0xff, 0xff, 0xff, 1],
        vec![0x10, 12, 0, 4, b'M', b'Q', b'T', b'T', 9, 2, 0, 0, 0, 0],
        vec![0xc0, 0],
        vec![0x82, 5, 0, 0, 0, 0, 0],
        vec![0x10, 3, 0xff, 0xff, 0xff],
    ];
    let mut steps = vec![connect_all(2, 0), batch(vec![act(0, vec![sub(&[("#", 1)])])])];
    let mut k = 0;
    while k < n {
        let mut acts: Vec<Act> = (2..12)
            .map(|s| {
                k += 1;
                let mut ops = vec![Op::Open];
                if k % 3 == 0 {
                    ops.push(Op::Connect(Conn::plain(format!("h{k}"), 0)));
                }
                ops.push(Op::Bytes(Raw::B(bad[k % bad.len()].clone())));
                act(s, ops)
            })
            .collect();
        acts.push(act(1, vec![publish("a", (k % 3) as u8)]));
        if k % 200 < 10 {
            for e in 0..errors * 200 / n.max(1) {
                steps.push(Step::AcceptError(e as u8));
            }
        }
        steps.push(batch(acts));
    }
    case(slots(12), steps, n as u32)
}
/// `n` clients at once, every fourth without a name; all of them answered and addressed.
pub fn population(n: usize) -> Input {
    let name = |i: usize| if i % 4 == 3 { String::new() } else { cid(i) };
    let mut steps = vec![];
    let all: Vec<usize> = (0..n).collect();
    for part in all.chunks(100) {
        steps.push(batch(part.iter().map(|i| act(*i, vec![Op::Connect(Conn::plain(name(*i), 0)), Op::Sub(vec![(Name::S(format!("m/{i}")), 1)])])).collect()));
    }
    steps.push(batch((0..n).map(|i| act(i, vec![publish(format!("m/{}", (i * 7 + 1) % n), (i % 3) as u8), Op::Ping])).collect()));
    case(slots(n), steps, n as u32)
}
/// One identifier taken over `n` times, by one after the other and by several at once.
pub fn takeovers(n: usize) -> Input {
    let mut steps = vec![connect_all(1, 0), batch(vec![act(0, vec![sub(&[("w/#", 1)])])])];
    let mut k = 0;
    while k < n {
        let width = 1 + k % 7;
        let acts = (0..width)
            .map(|j| {
                k += 1;
                act(1 + j, vec![Op::Open, Op::Connect(Conn { clean: k % 2 == 0, ..Conn::plain("one", 0) }), Op::Sub(vec![(Name::S(format!("t/{}", k % 3)), 1)])])
            })
            .collect();
        steps.push(batch(acts));
        steps.push(batch(vec![act(0, vec![publish("t/0", 1), publish("t/1", 1), publish("t/2", 1)])]));
    }
    case(slots(8), steps, n as u32)
}
/// Clients whose identifiers differ, if only a little: all of them stay.
pub fn related_ids() -> Vec<Vec<String>> {
    let long = "l".repeat(65534);
    vec![
        ["s1", "S1"].map(String::from).to_vec(),
        ["id", "id ", " id", "id\u{a0}"].map(String::from).to_vec(),
        ["1", "01", "1.0", "+1"].map(String::from).to_vec(),
        ["abcdefghijklmnopqrstuvw", "abcdefghijklmnopqrstuvwx", "abcdefghijklmnopqrstuvwy"].map(String::from).to_vec(),
        ["\u{e9}", "e\u{301}", "e"].map(String::from).to_vec(),
        ["k", "\u{feff}k", "k\u{feff}", "\u{212a}", "K"].map(String::from).to_vec(),
        ["a/b", "a", "b", "a/c"].map(String::from).to_vec(),
        ["stra\u{df}e", "strasse", "STRASSE"].map(String::from).to_vec(),
        ["-", "_", "--"].map(String::from).to_vec(),
        ["x".repeat(255), "x".repeat(256), "x".repeat(257)].to_vec(),
        [format!("{long}1"), format!("{long}2")].to_vec(),
        ["#", "+", "$SYS"].map(String::from).to_vec(),
    ]
}
pub fn neighbours() -> Vec<Input> {
    related_ids()
        .into_iter()
        .map(|ids| {
            let n = ids.len();
            let join = |i: usize| act(i, vec![Op::Connect(Conn::plain(ids[i].clone(), 0)), Op::Sub(vec![(Name::S(format!("n/{i}")), 1), ("all".into(), 2)])]);
            let talk = |i: usize| act(i, (0..n).map(|j| publish(format!("n/{j}"), 1)).chain([publish("all", 2), Op::Ping]).collect());
            let mut steps: Vec<Step> = (0..n).map(|i| batch(vec![join(i)])).collect();
            steps.push(batch((0..n).map(talk).collect()));
            // One leaves, one is taken over: the others do not notice.
            steps.push(batch(vec![act(0, vec![Op::Disconnect])]));
            steps.push(batch(vec![act(n, vec![Op::Connect(Conn::plain(ids[1].clone(), 0))])]));
            steps.push(batch((0..n).map(talk).collect()));
            case(slots(n + 1), steps, n as u32)
        })
        .collect()
}
/// Months of uptime: idle clients without keep-alive stay, those with one stay while they speak.
pub fn uptime(steps_n: usize, ms: u32) -> Input {
    let mut steps = vec![batch(vec![
        act(0, vec![Op::Connect(Conn::plain("forever", 0)), sub(&[("a", 1)])]),
        act(1, vec![Op::Connect(Conn::plain("long", 65535)), sub(&[("a", 1)])]),
        act(2, vec![Op::Connect(Conn::plain("talker", 0))]),
    ])];
    for i in 0..steps_n {
        steps.push(Step::Idle(ms));
        steps.push(batch(vec![act(1, vec![Op::Ping])]));
        if i % 10 == 0 {
            steps.push(batch(vec![act(2, vec![publish("a", 1)])]));
        }
    }
    steps.push(batch(vec![act(3, vec![Op::Connect(Conn::plain("new", 10)), sub(&[("a", 1)])])]));
    steps.push(batch(vec![act(2, vec![publish("a", 1)])]));
    steps.push(Step::Idle(20_000));
    steps.push(batch(vec![act(2, vec![publish("a", 1)]), act(0, vec![Op::Ping])]));
    case(slots(4), steps, 1)
}
/// A stuck client gets `n` messages; everyone else is served, and so is it, later.
pub fn backlog(n: u32, qos: u8) -> Input {
    let mut steps = vec![connect_all(3, 0), batch(vec![act(0, vec![sub(&[("f", qos)])]), act(2, vec![sub(&[("h", 1)])])]), Step::Window { slot: 0, bytes: Some(7) }];
    if n % 2 == 1 {
        // Another one with the same subscription and one with a wildcard, stuck as well.
        steps.insert(1, batch(vec![act(3, vec![Op::Connect(Conn::plain("other", 0)), sub(&[("f", qos)])]), act(4, vec![Op::Connect(Conn::plain("wild", 0)), sub(&[("+", qos)])])]));
        steps.extend([3, 4].map(|slot| Step::Window { slot, bytes: Some(slot as u32) }));
    }
    for _ in 0..n / 4000 {
        steps.push(batch(vec![act(1, vec![Op::Times(4000, Box::new(publish("f", qos))), publish("h", 1)]), act(2, vec![Op::Ping])]));
    }
    steps.extend([0, 3, 4].map(|slot| Step::Window { slot, bytes: None }));
    steps.push(batch(vec![act(1, vec![publish("f", 1), publish("h", 0)])]));
    case(slots(5), steps, n)
}
/// A stuck client is due more messages than any broker need keep, and never takes them; it may lose them, others may not.
pub fn overflow(n: u32, qos: u8) -> Input {
    let mut steps = vec![connect_all(3, 0), batch(vec![act(0, vec![sub(&[("f", qos)])]), act(2, vec![sub(&[("f", 2), ("h", 1)])])]), Step::Window { slot: 0, bytes: Some(7) }];
    for _ in 0..n / 4000 {
        steps.push(batch(vec![act(1, vec![Op::Times(4000, Box::new(publish("f", qos))), publish("h", 1)]), act(2, vec![Op::Ping])]));
    }
    steps.push(batch(vec![act(0, vec![Op::Reset]), act(1, vec![publish("f", 2), Op::Ping])]));
    steps.push(batch(vec![act(1, vec![publish("f", 1), publish("h", 0)])]));
    case(slots(3), steps, n)
}
/// `n` clients without an identifier, all at once.
pub fn anonymous(n: usize) -> Input {
    let mut steps = vec![connect_all(1, 0)];
    let all: Vec<usize> = (0..n).collect();
    for part in all.chunks(50) {
        steps.push(batch(part.iter().map(|i| act(1 + i, vec![Op::Connect(Conn::plain("", 0)), Op::Sub(vec![(Name::S(format!("p/{i}")), (i % 3) as u8), ("all".into(), (i / 3 % 3) as u8)])])).collect()));
    }
    steps.push(batch(vec![act(0, vec![publish("all", 2)])]));
    steps.push(batch(vec![act(0, (0..n).map(|i| publish(format!("p/{i}"), 1)).collect())]));
    steps.push(batch((0..n).map(|i| act(1 + i, vec![Op::Ping])).collect()));
    case(slots(n + 1), steps, 3)
}
/// Some clients stay while `n` others come and go; the ones that come then are still told from them.
pub fn succession(n: usize) -> Input {
    let mut steps = vec![connect_all(3, 0), batch((0..3).map(|i| act(i, vec![sub(&[("s", i as u8), ("t/#", 1)])])).collect())];
    let all: Vec<usize> = (0..n).collect();
    for part in all.chunks(250) {
        steps.push(batch(part.iter().enumerate().map(|(j, i)| act(300 + j, vec![Op::Open, Op::Connect(Conn::plain(format!("v{i}"), 0)), end(i % 3)])).collect()));
    }
    // As many as may pass around the numbers the first ones have.
    steps.push(batch((3..300).map(|i| act(i, vec![Op::Connect(Conn::plain(cid(i), 0)), sub(&[("s", (i % 3) as u8), (if i % 2 == 0 { "t/#" } else { "+/x" }, 2)])])).collect()));
    let talk = || batch(vec![act(4, vec![publish("s", 2), publish("t/x", 1)])]);
    steps.push(talk());
    steps.push(batch((3..300).filter(|i| *i != 4).map(|i| act(i, if i % 3 == 0 { vec![Op::Unsub(vec!["s".into()])] } else { vec![end(i)] })).collect()));
    steps.push(talk());
    case(slots(550), steps, n as u32)
}
/// `n` clients end, each with the last thing it said still to be done.
pub fn endings(n: usize) -> Input {
    let mut steps = vec![connect_all(1, 0), batch(vec![act(0, vec![sub(&[("last/#", 1)])])])];
    let all: Vec<usize> = (0..n).collect();
    for part in all.chunks(20) {
        steps.push(batch(
            part.iter()
                .map(|i| act(1 + i % 20, vec![Op::Open, Op::Connect(Conn::plain(format!("e{i}"), 0)), sub(&[("gone", 2)]), publish(format!("last/{i}"), (i % 3) as u8), end(i % 3)]))
                .collect(),
        ));
        steps.push(batch(vec![act(0, vec![publish("gone", 1), Op::Ping])]));
    }
    case(slots(21), steps, n as u32)
}
/// The interrupt with `n` clients, some of them stuck with much to come.
pub fn interrupt(n: usize, at: u16) -> Input {
    let mut steps = vec![connect_all(n, 0)];
    steps.push(batch((0..n).map(|i| act(i, vec![sub(&[("#", (i % 3) as u8)])])).collect()));
    for s in (0..n).step_by(9) {
        steps.push(Step::Window { slot: s, bytes: Some(s as u32) });
    }
    steps.push(batch(vec![act(1, vec![Op::Times(20, Box::new(publish("a", 1)))])]));
    steps.push(Step::Interrupt { acts: (0..n).map(|i| act(i, vec![publish("b", 1), Op::Ping])).collect(), at, around_accept: false });
    case(slots(n), steps, at as u32)
}
/// Rounds in which clients with `n` filters each come and go in every way.
pub fn hoard(n: u32, fresh: bool) -> Input {
    let name = |i: u32| Name::S(if fresh { format!("h/@@@@/{i}") } else { format!("h/{i}/+") });
    let all: Vec<u32> = (0..n).collect();
    let join = |s: usize| {
        let mut ops = vec![Op::Open, Op::Connect(Conn::plain(if s == 3 { "h0".into() } else { format!("h{s}") }, 0))];
        ops.extend(all.chunks(300).map(|c| Op::Sub(c.iter().map(|i| (name(*i), (i % 3) as u8)).collect())));
        act(s, ops)
    };
    let mut steps = vec![batch((0..3).map(join).collect())];
    // The first is taken over, the others end by themselves.
    steps.push(batch(vec![join(3)]));
    steps.push(batch((1..4).map(|s| act(s, vec![end(s)])).collect()));
    Input::Hist(Case { rng: n, slots: slots(4), steps, rounds: 16, keep: false })
}
/// Two deliveries of one QoS stay unacknowledged while more than all identifiers pass with the other.
pub fn wrapped(held: u8) -> Input {
    let other = 3 - held;
    let mut steps = vec![connect_all(2, 0), batch(vec![act(0, vec![sub(&[("a", 2)])])])];
    steps.push(batch(vec![act(1, vec![publish("a", held), publish("a", held)])]));
    for _ in 0..11 {
        steps.push(batch(vec![act(1, vec![Op::Times(6000, Box::new(publish("a", other)))])]));
    }
    let mut s = slots(2);
    s[0].ack = Ack::Only(other);
    case(s, steps, u32::from(held))
}
/// A client that has acknowledged none of as many deliveries as there are identifiers is served in all else.
pub fn all_unacknowledged(more: bool) -> Input {
    let mut steps = vec![connect_all(3, 0), batch(vec![act(0, vec![sub(&[("a", 1)])]), act(2, vec![sub(&[("b", 1)])])])];
    for _ in 0..13 {
        steps.push(batch(vec![act(1, vec![Op::Times(5041, Box::new(publish("a", 1)))])]));
    }
    steps.push(batch(vec![act(1, vec![Op::Times(2, Box::new(publish("a", 2)))])]));
    if more {
        // There is no identifier left for these; they come when there is.
        steps.push(batch(vec![act(1, vec![publish("a", 1), publish("a", 2), publish("a", 0)])]));
    }
    steps.push(batch(vec![act(0, vec![Op::Ping, sub(&[("c", 0)]), publish("b", 1), publish("b", 2), Op::Unsub(vec!["c".into()])])]));
    steps.push(batch(vec![act(0, vec![publish("b", 0), Op::PubAck(300), Op::PubAck(7), Op::Ping]), act(1, vec![publish("b", 2)])]));
    steps.push(batch(vec![act(1, vec![publish("a", 1), publish("a", 2)])]));
    if more {
        steps.push(batch(vec![act(0, vec![Op::PubAck(5), Op::PubAck(65_000), Op::PubAck(5), Op::Ping])]));
        steps.push(batch(vec![act(1, vec![publish("a", 2), publish("a", 0), publish("a", 1)])]));
        steps.push(batch(vec![act(0, (1000..1060).map(Op::PubAck).collect()), act(1, vec![publish("a", 1)])]));
    }
    let mut s = slots(3);
    s[0].ack = Ack::Never;
    case(s, steps, 2)
}
/// `n` requests with long answers in one go, from a client that takes `cap` bytes at a time, and its end.
pub fn burst(n: u32, cap: u32, last: usize) -> Input {
    let mut steps = vec![connect_all(3, 0), batch(vec![act(2, vec![sub(&[("a", 1)])])])];
    let wide = || Op::Sub((0..200).map(|i| (Name::S(format!("w/{i}")), (i % 3) as u8)).collect());
    let ops = |k: u32| vec![Op::Times(n / 4, Box::new(Op::Ping)), wide(), Op::Times(n / 4, Box::new(Op::PubRec(9))), publish("a", (k % 3) as u8), Op::Times(n / 80, Box::new(wide())), publish("a", 2)];
    for k in 0..3 {
        steps.push(batch(vec![act(0, ops(k)), act(1, vec![publish("a", 1), Op::Ping])]));
    }
    steps.push(batch(vec![act(0, [ops(1), vec![[Op::Eof, Op::Disconnect][last].clone()]].concat()), act(1, vec![publish("a", 1), Op::Ping])]));
    steps.push(batch(vec![act(1, vec![publish("a", 1), Op::Ping])]));
    let mut s = slots(3);
    s[0].write_caps = vec![cap];
    case(s, steps, n)
}
/// Packets of `n` bytes and one more or less, in pieces and whole, the last of a connection and others.
pub fn huge(n: u32) -> Input {
    let big = |k: u32| Op::Pub { topic: "big".into(), qos: (k % 3) as u8, retain: false, dup: false, id: PubId::Auto, payload: Payload::Is(Raw::Fill { n: n + k, salt: k as u8 }) };
    let mut steps = vec![connect_all(2, 0), batch(vec![act(1, vec![sub(&[("big", 1)])])])];
    for (k, segs) in [(0u32, vec![]), (1, vec![4096u32]), (2, vec![1_000_000, 3]), (3, vec![n - 1])] {
        steps.push(batch(vec![Act { slot: 0, ops: vec![big(k)], segs: segs.clone(), gaps: vec![] }]));
        steps.push(batch(vec![Act { slot: 0, ops: vec![Op::Ping, big(k + 4), publish("big", 1), big(k)], segs, gaps: vec![] }]));
    }
    case(slots(2), steps, n)
}
