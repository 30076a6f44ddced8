//! Runs one history against the real broker and judges it with a reference model.
use crate::case::*;
use crate::refcodec::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use tokio::sim;
use tokio::time::{sleep, sleep_until, Duration, Instant};

/// Filters with more levels than this may be refused (a documented limit of the broker).
pub const SURE_LEVELS: usize = 100;
/// A connection that never says CONNECT is closed within this time.
const HANDSHAKE_MS: u64 = 120_000;
/// How long a connection that ends must be given to take what is still to be written to it.
const GRACE_MS: u64 = 900;
const STALL_LIMIT: usize = 60_000;
/// Memory the broker (and this harness) may hold: so much, and so much per byte received.
const FAIR_BASE: i64 = 16 << 20;
const FAIR_PER_CONN: i64 = 64 << 10;
const FAIR_PER_BYTE: i64 = 800;

#[derive(Debug, Clone)]
pub enum Verdict {
    Fail(String),
    /// Outside the domain of the properties (counted, not judged).
    Skip(&'static str),
}
type Res<T = ()> = Result<T, Verdict>;
macro_rules! fail { ($($t:tt)*) => { return Err(Verdict::Fail(format!($($t)*))) } }

macro_rules! stats {
    ($($f:ident),* $(,)?) => {
        /// What a history actually exercised.
        #[derive(Default, Clone, Debug)]
        pub struct Stats { $(pub $f: u64),* }
        impl Stats {
            pub fn add(&mut self, o: &Stats) { $(self.$f += o.$f;)* }
            pub fn pairs(&self) -> Vec<(&'static str, u64)> { vec![$((stringify!($f), self.$f)),*] }
        }
    };
}
stats!(
    connections, connects_ok, refused, publishes, deliveries, not_delivered, maybe_deliveries, self_deliveries,
    wildcard_deliveries, overlap_deliveries, dollar_publishes, deliveries_qos1, deliveries_qos2, downgraded,
    unacked_max, responses, subscribes, unsubscribes, effective_unsubs, resubs, refused_filters, qos2_repeats,
    id_reuse_after_release, malformed, packets_after_malformed, takeovers, eofs, resets, disconnects, races, stalled_sends,
    split_packets, coalesced_packets, segments, short_writes, stalls, backlog_max, big_packets, max_packet,
    idle_closed, idle_kept, concurrent_batches, partial_at_end, interrupts, deep_filters, accept_errors,
    empty_payloads, filters_in_one_packet, mid_batch_changes, second_connects, before_connect, binary_fields,
    reconnects, rounds, busy_at_interrupt, odd_names, max_filters, max_levels
);

#[derive(Clone, Debug, PartialEq)]
struct Sub {
    qos: u8,
    /// Not known to be granted (yet): what it matches may arrive, but need not.
    amb: bool,
    /// A name that is the server's business: may be granted or refused, and delivers or not.
    odd: bool,
}
type Subs = BTreeMap<String, Sub>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Phase {
    New,
    Up,
    Gone,
}

#[derive(Clone, Debug)]
enum Resp {
    ConnAck(u8),
    /// Any refusal, or none.
    MaybeRefusal,
    SubAck(u16, Vec<(u8, Option<String>)>),
    Id(u8, u16),
    PingResp,
}
impl Resp {
    fn kind(&self) -> u8 {
        match self {
            Resp::ConnAck(_) | Resp::MaybeRefusal => 2,
            Resp::SubAck(..) => 9,
            Resp::Id(k, _) => *k,
            Resp::PingResp => 13,
        }
    }
}

struct Msg {
    topic: String,
    payload: Vec<u8>,
}
struct ExpPub {
    msg: Rc<Msg>,
    from: usize,
    must: bool,
    qos: [bool; 3],
    pub_qos: u8,
    own: bool,
    wild: bool,
    multi: bool,
}

/// What a connection is still due, per publisher in order, and where each of them may stand:
/// equal messages of several publishers leave more than one possibility.
struct Due {
    lanes: Vec<(usize, usize, VecDeque<ExpPub>)>,
    states: Vec<Vec<usize>>,
}
struct Taken {
    must: bool,
    own: bool,
    wild: bool,
    multi: bool,
    pub_qos: u8,
}
impl Due {
    fn new() -> Self {
        Due { lanes: vec![], states: vec![vec![]] }
    }
    fn push(&mut self, e: ExpPub) {
        let i = self.lanes.iter().position(|l| l.0 == e.from).unwrap_or_else(|| {
            self.lanes.push((e.from, 0, VecDeque::new()));
            for s in &mut self.states {
                s.push(0);
            }
            self.lanes.len() - 1
        });
        self.lanes[i].2.push_back(e);
    }
    fn len(&self) -> usize {
        self.lanes.iter().map(|l| l.2.len()).sum()
    }
    /// Nothing is due any more.
    fn clear(&mut self) {
        *self = Due::new();
    }
    /// None: no candidate fits; Err: too many possibilities to follow.
    fn take(&mut self, topic: &[u8], payload: &[u8], qos: u8) -> Result<Option<Taken>, ()> {
        let mut next: Vec<Vec<usize>> = vec![];
        let mut known: HashSet<Vec<usize>> = HashSet::new();
        let mut taken = None;
        for st in &self.states {
            for (i, (_, base, q)) in self.lanes.iter().enumerate() {
                let mut seen_may = false;
                for (k, e) in q.iter().enumerate().skip(st[i] - base) {
                    let fits = e.qos[qos as usize] && e.msg.topic.as_bytes() == topic && e.msg.payload == payload;
                    if fits && !(seen_may && !e.must) {
                        seen_may |= !e.must;
                        let mut s2 = st.clone();
                        s2[i] = base + k + 1;
                        if known.insert(s2.clone()) {
                            next.push(s2);
                        }
                        taken = Some(Taken { must: e.must, own: e.own, wild: e.wild, multi: e.multi, pub_qos: e.pub_qos });
                    }
                    if e.must {
                        break;
                    }
                }
            }
        }
        if next.is_empty() {
            return Ok(None);
        }
        if next.len() > 2000 {
            return Err(());
        }
        self.states = next;
        for (i, l) in self.lanes.iter_mut().enumerate() {
            let low = self.states.iter().map(|s| s[i]).min().unwrap_or(0);
            while l.1 < low {
                l.2.pop_front();
                l.1 += 1;
            }
        }
        Ok(taken)
    }
    /// A message that must still come, unless the possibilities include that none must.
    fn missing(&self) -> Option<&ExpPub> {
        let mut some = None;
        for st in &self.states {
            let m = self.lanes.iter().enumerate().find_map(|(i, l)| l.2.iter().skip(st[i] - l.1).find(|e| e.must));
            match m {
                None => return None,
                Some(e) => some = some.or(Some(e)),
            }
        }
        some
    }
    fn rest(&self) -> impl Iterator<Item = &ExpPub> {
        self.lanes.iter().flat_map(|l| l.2.iter())
    }
}

struct MConn {
    sock: sim::Conn,
    slot: usize,
    inbuf: Vec<u8>,
    opened: Instant,
    last: Instant,
    phase: Phase,
    cid: Option<String>,
    keepalive: u16,
    subs: Subs,
    rx2: HashSet<u16>,
    rx2_released: HashSet<u16>,
    exp: BTreeMap<u8, VecDeque<Resp>>,
    exp_pub: Due,
    got: usize,
    any_received: bool,
    outstanding: HashMap<u16, u8>,
    acked_early: HashSet<u16>,
    delivered: u64,
    stalled: bool,
    /// Bytes that may be due to the client since it stalled.
    backlog: usize,
    sent_eof: bool,
    lax_close: bool,
    lax_resp: bool,
    next_id: u16,
    // per batch
    tl: Vec<Rc<Subs>>,
    closing: bool,
    unsure: bool,
    /// Sent something after more than its keep-alive: it may have been too late.
    late: bool,
    /// When this batch's last bytes for or from anybody arrive.
    ended: Instant,
}

pub struct World {
    net: sim::Net,
    case: Case,
    conns: Vec<MConn>,
    slots: Vec<Option<usize>>,
    sessions: HashMap<String, usize>,
    groups: Vec<Vec<usize>>,
    /// The broker's main task.
    pub main: Option<tokio::task::JoinHandle<String>>,
    pub stats: Stats,
    quantum: Duration,
    begun: Instant,
    accept_grace: Instant,
    tag: u64,
    round: u32,
    sent: u64,
}

pub fn valid_filter(f: &str) -> bool {
    if f.is_empty() {
        return false;
    }
    let l: Vec<&str> = f.split('/').collect();
    l.iter().enumerate().all(|(i, x)| {
        if x.contains('#') {
            *x == "#" && i + 1 == l.len()
        } else {
            !x.contains('+') || *x == "+"
        }
    })
}

/// Of the names under the level "$share", which MQTT 3.1.1 leaves to the server, those that a reading
/// as shared subscriptions could give another meaning than the ordinary one: nothing has to match
/// them, nothing else may, and they must do no harm.
fn odd_share(name: &str, levels: usize) -> bool {
    let mut l = name.split('/');
    l.next() == Some("$share") && (name.split('/').count() < levels || l.next().is_some_and(|g| g.is_empty() || g.contains(['+', '#'])))
}

/// MQTT 3.1.1 section 4.7.
pub fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) {
        return false;
    }
    let mut t = topic.split('/');
    let mut f = filter.split('/');
    loop {
        match (f.next(), t.next()) {
            (Some("#"), _) => return true,
            (None, None) => return true,
            (Some("+"), Some(_)) => {}
            (Some(a), Some(b)) if a == b => {}
            _ => return false,
        }
    }
}

enum Ev {
    Pkt(CPkt),
    Bad,
    Refuse(u8),
    Eof,
    Reset,
}

struct BPub {
    from: usize,
    pos: usize,
    msg: Rc<Msg>,
    qos: u8,
    may: bool,
}

/// What one batch sends on one connection.
struct Stream {
    conn: usize,
    bytes: Vec<u8>,
    packet_ends: Vec<usize>,
    eof: bool,
    reset: bool,
    segs: Vec<u32>,
    gaps: Vec<u16>,
}

impl World {
    pub fn new(case: &Case, net: sim::Net) -> Self {
        let maxd = case.slots.iter().flat_map(|s| s.write_delays.iter().copied()).max().unwrap_or(0);
        World {
            net,
            conns: vec![],
            slots: vec![None; case.slots.len()],
            sessions: HashMap::new(),
            groups: vec![],
            main: None,
            stats: Stats::default(),
            begun: Instant::now(),
            accept_grace: Instant::now(),
            quantum: Duration::from_millis(2 + maxd as u64),
            tag: 0,
            round: 0,
            sent: 0,
            case: case.clone(),
        }
    }

    fn ended(&self) -> bool {
        self.main.as_ref().is_none_or(|m| m.is_finished())
    }

    pub async fn run(&mut self) -> Res {
        sleep(Duration::from_millis(1)).await;
        let rounds = self.case.rounds.max(1);
        let steps = self.case.steps.clone();
        let mut live: Vec<i64> = Vec::with_capacity(rounds as usize + 1);
        let mut state = vec![];
        let mut target = rounds;
        let mut round = 0;
        while round < target {
            self.round = round;
            for (i, s) in steps.iter().enumerate() {
                if i == 0 && round > 0 && self.case.keep {
                    continue;
                }
                let r = self.step(s).await;
                if let Err(Verdict::Fail(m)) = r {
                    fail!("step {i}: {m}");
                }
                r?;
                if matches!(s, Step::Interrupt { .. }) {
                    return Ok(());
                }
            }
            round += 1;
            if self.case.rounds == 0 {
                continue;
            }
            if self.case.keep {
                let now = self.rest();
                if round == 1 {
                    state = now;
                } else if state != now {
                    return Err(Verdict::Skip("the rounds do not return to one state"));
                }
            } else {
                self.finish_round().await?;
            }
            live.push(crate::alloc::live());
            // Tables grow in steps: what looks like growth has to go on over many more rounds.
            // (And one of many tables, each of which grows once, meets the last of them late.)
            // What grows by much in each round is no table, though.
            let grows = |g: [i64; 3]| target == rounds || target < rounds * 64 && g.iter().any(|x| *x < live.len() as i64 / 4 * 2048);
            if round == target && self.growth(&live).is_some_and(grows) && crate::runner::cpu_time() < Duration::from_secs(10) {
                target *= 8;
                live.reserve_exact(target as usize - live.len());
            }
        }
        if self.case.rounds > 0 {
            self.stats.rounds += target as u64;
            if let Some(g) = self.growth(&live) {
                fail!(
                    "memory kept after identical rounds grows without bound: {g:?} bytes more in each of three successive groups of {} rounds",
                    live.len() / 4
                );
            }
        }
        if self.case.rounds == 0 {
            let r = self.probe().await;
            if let Err(Verdict::Fail(m)) = r {
                fail!("service check after the history: {m}");
            }
            r?;
        }
        Ok(())
    }

    /// Live bytes after each round. A table that grows once is no leak; growth in every one of the last three
    /// windows may be.
    fn growth(&self, live: &[i64]) -> Option<[i64; 3]> {
        let n = live.len();
        if n < 12 {
            return None;
        }
        let w = n / 4;
        let at = |k: usize| live[n - 1 - k * w];
        let g = [at(2) - at(3), at(1) - at(2), at(0) - at(1)];
        g.iter().all(|x| *x >= 16 * w as i64).then_some(g)
    }

    /// The end of a round in which connections stay: what the model still holds.
    fn rest(&mut self) -> Vec<(Phase, Subs, usize, usize, usize)> {
        for m in &mut self.conns {
            m.rx2_released = HashSet::new();
            m.exp_pub.clear();
            m.tl = vec![];
            m.next_id = 20000;
        }
        self.tag = 0;
        self.retire();
        self.conns.iter().map(|m| (m.phase, m.subs.clone(), m.rx2.len(), m.outstanding.len(), m.inbuf.len())).collect()
    }

    /// Forgets connections that are over and belong to nobody any more.
    fn retire(&mut self) {
        let gone: Vec<bool> = self.conns.iter().map(|m| m.phase == Phase::Gone && m.sock.lock().unwrap().closed()).collect();
        let mut new = vec![None; gone.len()];
        let mut n = 0;
        for (i, g) in gone.iter().enumerate() {
            if !g {
                new[i] = Some(n);
                n += 1;
            }
        }
        let mut i = 0;
        self.conns.retain(|_| {
            i += 1;
            !gone[i - 1]
        });
        self.conns.shrink_to_fit();
        self.sessions.values_mut().for_each(|c| *c = new[*c].expect("a session's connection"));
        self.slots.iter_mut().for_each(|s| *s = s.and_then(|c| new[c]));
    }

    async fn finish_round(&mut self) -> Res {
        let mut streams = vec![];
        for c in 0..self.conns.len() {
            let stalled = self.conns[c].stalled;
            if stalled {
                self.conns[c].stalled = false;
                self.conns[c].sock.lock().unwrap().set_window(None);
            }
            if self.conns[c].phase != Phase::Gone && !self.conns[c].sent_eof {
                streams.push(Stream { conn: c, bytes: vec![], packet_ends: vec![], eof: true, reset: false, segs: vec![], gaps: vec![] });
            }
        }
        self.batch(streams).await?;
        self.conns = Vec::new();
        self.slots.iter_mut().for_each(|s| *s = None);
        self.sessions = HashMap::new();
        self.tag = 0;
        Ok(())
    }

    async fn probe(&mut self) -> Res {
        let conn = self.open(usize::MAX, sim::Behaviour::default());
        let mut b = Conn::plain("~probe", 0).encode(4, b"MQTT", 0);
        b.extend(enc_subscribe(9, &[(b"~probe/+".to_vec(), 0)]));
        b.extend(enc_publish(b"~probe/x", b"~", 1, 10, false, false));
        b.extend([0xc0, 0]);
        let s = Stream { conn, bytes: b, packet_ends: vec![], eof: false, reset: false, segs: vec![], gaps: vec![] };
        self.batch(vec![s]).await
    }

    fn open(&mut self, slot: usize, b: sim::Behaviour) -> usize {
        let sock = sim::connect(&self.net, b);
        let now = Instant::now();
        self.stats.connections += 1;
        self.conns.push(MConn {
            sock,
            slot,
            inbuf: vec![],
            opened: now,
            last: now,
            phase: Phase::New,
            cid: None,
            keepalive: 0,
            subs: Subs::new(),
            rx2: HashSet::new(),
            rx2_released: HashSet::new(),
            exp: BTreeMap::new(),
            exp_pub: Due::new(),
            got: 0,
            any_received: false,
            outstanding: HashMap::new(),
            acked_early: HashSet::new(),
            delivered: 0,
            stalled: false,
            backlog: 0,
            sent_eof: false,
            lax_close: false,
            lax_resp: false,
            next_id: 20000,
            tl: vec![],
            closing: false,
            unsure: false,
            late: false,
            ended: now,
        });
        self.conns.len() - 1
    }

    fn open_slot(&mut self, slot: usize) -> usize {
        let s = &self.case.slots[slot];
        let b = sim::Behaviour {
            yields: s.yields.clone(),
            write_caps: s.write_caps.iter().map(|x| *x as usize).collect(),
            write_delays: s.write_delays.clone(),
        };
        if !b.write_caps.is_empty() {
            self.stats.short_writes += 1;
        }
        if self.slots[slot].is_some() {
            self.stats.reconnects += 1;
        }
        let c = self.open(slot, b);
        self.slots[slot] = Some(c);
        c
    }

    async fn step(&mut self, s: &Step) -> Res {
        match s {
            Step::Batch(acts) => {
                let streams = self.streams(acts);
                self.batch(streams).await
            }
            Step::Idle(ms) => {
                let end = Instant::now() + Duration::from_millis(*ms as u64);
                while Instant::now() < end {
                    sleep_until(end.min(Instant::now() + Duration::from_secs(2000))).await;
                    // A broker that wakes up often, as it may, makes days and weeks take too long here.
                    let cpu = crate::runner::cpu_time();
                    if cpu > Duration::from_secs(8) && self.begun.elapsed() > cpu * 1000 {
                        return Err(Verdict::Skip("too many days of a broker that often wakes up"));
                    }
                }
                self.batch(vec![]).await
            }
            Step::Window { slot, bytes } => {
                if *slot >= self.slots.len() {
                    return Ok(());
                }
                if let Some(c) = self.slots[*slot] {
                    let m = &mut self.conns[c];
                    if m.phase == Phase::Up {
                        if bytes.is_some() {
                            self.stats.stalls += 1;
                        }
                        m.sock.lock().unwrap().set_window(bytes.map(|b| b as usize));
                        // (What is due already stays due, while the client does not take it.)
                        if !m.stalled || bytes.is_none() {
                            m.backlog = 0;
                        }
                        m.stalled = bytes.is_some();
                    }
                }
                self.batch(vec![]).await
            }
            Step::AcceptError(k) => {
                use std::io::ErrorKind::*;
                let kinds = [ConnectionAborted, ConnectionReset, Other, WouldBlock, Interrupted, OutOfMemory, TimedOut, PermissionDenied];
                self.stats.accept_errors += 1;
                sim::accept_error(&self.net, kinds[*k as usize % kinds.len()]);
                // A broker may well wait a little before it tries to accept again.
                self.accept_grace = self.accept_grace.max(Instant::now()) + Duration::from_millis(1200);
                Ok(())
            }
            Step::Interrupt { acts, at, around_accept } => self.interrupt(acts, *at, *around_accept).await,
        }
    }

    fn encode(&mut self, c: usize, op: &Op, out: &mut Vec<u8>) {
        let auto = |m: &mut MConn| -> u16 {
            m.next_id = if m.next_id == 65535 { 20000 } else { m.next_id + 1 };
            m.next_id
        };
        match op {
            Op::Connect(k) => out.extend(k.encode(4, b"MQTT", 0)),
            Op::ConnectOdd { conn, level, name, flag_xor } => out.extend(conn.encode(*level, name, *flag_xor)),
            Op::Sub(f) => {
                let id = auto(&mut self.conns[c]);
                out.extend(enc_subscribe(id, &f.iter().map(|(n, q)| (n.bytes(), *q)).collect::<Vec<_>>()))
            }
            Op::SubId(id, f) => out.extend(enc_subscribe(*id, &f.iter().map(|(n, q)| (n.bytes(), *q)).collect::<Vec<_>>())),
            Op::Unsub(f) => {
                let id = auto(&mut self.conns[c]);
                out.extend(enc_unsubscribe(id, &f.iter().map(|n| n.bytes()).collect::<Vec<_>>()))
            }
            Op::UnsubId(id, f) => out.extend(enc_unsubscribe(*id, &f.iter().map(|n| n.bytes()).collect::<Vec<_>>())),
            Op::Pub { topic, qos, retain, dup, id, payload } => {
                let id = match id {
                    PubId::Is(i) => *i,
                    PubId::Auto if *qos > 0 => auto(&mut self.conns[c]),
                    PubId::Auto => 0,
                };
                self.tag += 1;
                let p = match payload {
                    Payload::Tag(pad) => {
                        let mut v = format!("#{}.{}#", self.conns[c].slot as i64, self.tag).into_bytes();
                        v.extend(fill(*pad as usize, self.tag as u8));
                        v
                    }
                    Payload::Is(r) => r.build(),
                };
                if p.is_empty() {
                    self.stats.empty_payloads += 1;
                }
                out.extend(enc_publish(&topic.bytes(), &p, *qos, id, *dup, *retain));
            }
            Op::PubAck(i) => out.extend(enc_ack(0x40, *i)),
            Op::PubRec(i) => out.extend(enc_ack(0x50, *i)),
            Op::PubRel(i) => out.extend(enc_ack(0x62, *i)),
            Op::PubComp(i) => out.extend(enc_ack(0x70, *i)),
            Op::Ping => out.extend([0xc0, 0]),
            Op::Disconnect => out.extend([0xe0, 0]),
            Op::Bytes(r) => out.extend(r.build()),
            Op::Mutated { op, muts } => {
                let mut b = vec![];
                self.encode(c, op, &mut b);
                out.extend(mutate(b, muts));
            }
            Op::Times(n, op) => {
                for _ in 0..*n {
                    self.encode(c, op, out);
                }
            }
            Op::Open | Op::Eof | Op::Reset => {}
        }
    }

    /// Puts the number of the round where "@@@@" stands.
    fn number(&self, b: &mut [u8]) {
        let n = format!("{:04}", self.round);
        let mut i = 0;
        while i + 4 <= b.len() {
            if &b[i..i + 4] == b"@@@@" {
                b[i..i + 4].copy_from_slice(n.as_bytes());
                i += 3;
            }
            i += 1;
        }
    }

    fn streams(&mut self, acts: &[Act]) -> Vec<Stream> {
        let mut out: Vec<Stream> = vec![];
        for a in acts {
            if a.slot >= self.slots.len() {
                continue;
            }
            for op in &a.ops {
                let usable = |w: &World, c: usize| {
                    let m = &w.conns[c];
                    m.phase != Phase::Gone && !m.sent_eof
                };
                match op {
                    Op::Open => {
                        self.open_slot(a.slot);
                    }
                    Op::Connect(_) | Op::ConnectOdd { .. } => {
                        let need = match self.slots[a.slot] {
                            None => true,
                            Some(c) => self.conns[c].phase == Phase::Gone || self.conns[c].sent_eof,
                        };
                        if need {
                            self.open_slot(a.slot);
                        }
                    }
                    _ => {}
                }
                let Some(c) = self.slots[a.slot] else { continue };
                if !usable(self, c) {
                    continue;
                }
                let k = match out.iter().position(|s| s.conn == c) {
                    Some(k) => k,
                    None => {
                        out.push(Stream {
                            conn: c,
                            bytes: vec![],
                            packet_ends: vec![],
                            eof: false,
                            reset: false,
                            segs: a.segs.clone(),
                            gaps: a.gaps.clone(),
                        });
                        out.len() - 1
                    }
                };
                if out[k].eof || out[k].reset {
                    continue;
                }
                match op {
                    Op::Eof => out[k].eof = true,
                    Op::Reset => out[k].reset = true,
                    op => {
                        let mut b = std::mem::take(&mut out[k].bytes);
                        let at = b.len();
                        self.encode(c, op, &mut b);
                        if self.case.rounds > 0 {
                            self.number(&mut b[at..]);
                        }
                        out[k].packet_ends.push(b.len());
                        out[k].bytes = b;
                    }
                }
            }
        }
        out
    }

    /// Queues a stream's bytes on its socket; returns the arrival time of each byte range.
    fn transmit(&mut self, s: &Stream) -> Vec<(usize, Instant)> {
        self.sent += s.bytes.len() as u64;
        let now = Instant::now();
        let mut at = now;
        let mut ends = vec![];
        let mut c = self.conns[s.conn].sock.lock().unwrap();
        let mut off = 0;
        let mut i = 0;
        while off < s.bytes.len() {
            let n = if s.segs.is_empty() { s.bytes.len() } else { (s.segs[i % s.segs.len()] as usize).max(1) };
            let n = n.min(s.bytes.len() - off);
            // Long streams in tiny pieces only cost time.
            let n = if i > 4000 { s.bytes.len() - off } else { n };
            if !s.gaps.is_empty() {
                at += Duration::from_millis(s.gaps[i % s.gaps.len()] as u64);
            }
            c.push(at, s.bytes[off..off + n].to_vec());
            off += n;
            ends.push((off, at));
            i += 1;
        }
        self.stats.segments += i as u64;
        if s.eof {
            c.set_eof();
        }
        if s.reset {
            c.set_reset(self.case.rng.wrapping_add(s.conn as u32));
        }
        ends
    }

    /// Sends the streams concurrently, waits until nothing moves, and judges what came back.
    async fn batch(&mut self, mut streams: Vec<Stream>) -> Res {
        // The broker may stop reading from a client that takes nothing once much waits for it.
        let coming: usize = streams.iter().map(|s| s.bytes.len() * 2).sum();
        // And one that has been silent for too long may be ending already.
        let lively = |m: &MConn| m.keepalive == 0 || Instant::now().duration_since(m.last) <= Duration::from_secs(m.keepalive as u64);
        let alive = |m: &MConn| m.phase != Phase::Up || lively(m);
        streams.retain(|s| {
            let m = &self.conns[s.conn];
            !m.stalled || (m.backlog + coming < STALL_LIMIT && alive(m))
        });
        for s in &mut streams {
            let m = &mut self.conns[s.conn];
            if m.stalled {
                if m.keepalive > 0 {
                    s.gaps.clear();
                }
                m.backlog += s.bytes.len();
                self.stats.stalled_sends += 1;
            }
        }
        let stalled: Vec<usize> = streams.iter().map(|s| s.conn).filter(|c| self.conns[*c].stalled).collect();
        if streams.iter().filter(|s| !s.bytes.is_empty()).count() > 1 {
            self.stats.concurrent_batches += 1;
        }
        let now = Instant::now();
        let mut latest = now;
        let mut evs: Vec<(usize, Vec<(Ev, Instant)>)> = vec![];
        for s in &streams {
            let ends = self.transmit(s);
            if let Some((_, t)) = ends.last() {
                latest = latest.max(*t);
            }
            evs.push((s.conn, self.decode(s, &ends)?));
        }
        self.predict(evs, latest)?;
        sleep_until(latest).await;
        self.settle().await?;
        // (One replaced while it was ending for its silence already, likewise.)
        let ending = self.conns.iter().any(|m| m.stalled && m.phase == Phase::Gone && m.keepalive > 0 && !lively(m) && !m.sock.lock().unwrap().closed());
        if ending || stalled.iter().any(|c| self.conns[*c].phase == Phase::Gone) {
            // One that ends is given a moment to take what is left.
            sleep(Duration::from_secs(2)).await;
            self.settle().await?;
        }
        self.judge().await
    }

    fn decode(&mut self, s: &Stream, ends: &[(usize, Instant)]) -> Res<Vec<(Ev, Instant)>> {
        let mut evs = vec![];
        let before = self.conns[s.conn].inbuf.len();
        let mut buf = std::mem::take(&mut self.conns[s.conn].inbuf);
        buf.extend_from_slice(&s.bytes);
        let mut off = 0;
        let mut seg = 0;
        let mut prev_seg = usize::MAX;
        let now = Instant::now();
        let mut over = false;
        loop {
            match decode_client(&buf[off..]) {
                Decoded::NeedMore { doomed } => {
                    if doomed {
                        self.conns[s.conn].unsure = true;
                    }
                    if off < buf.len() && !s.bytes.is_empty() {
                        self.stats.partial_at_end += 1;
                    }
                    break;
                }
                d => {
                    let n = match &d {
                        Decoded::Pkt(_, n) => *n,
                        _ => frame(&buf[off..]).ok().flatten().map_or(1, |(h, b)| h + b),
                    };
                    let start = off;
                    off += n;
                    let end_in_stream = off.saturating_sub(before);
                    while seg + 1 < ends.len() && ends[seg].0 < end_in_stream {
                        seg += 1;
                    }
                    let start_in_stream = start.saturating_sub(before);
                    if seg > 0 && ends.len() > 1 && ends[seg - 1].0 > start_in_stream {
                        self.stats.split_packets += 1;
                    }
                    if prev_seg == seg {
                        self.stats.coalesced_packets += 1;
                    }
                    prev_seg = seg;
                    let at = ends.get(seg).map_or(now, |e| e.1);
                    self.stats.max_packet = self.stats.max_packet.max(n as u64);
                    if n > 8192 {
                        self.stats.big_packets += 1;
                    }
                    match d {
                        Decoded::Pkt(p, _) => {
                            if matches!(p, CPkt::Disconnect) {
                                over = true;
                            }
                            evs.push((Ev::Pkt(p), at));
                        }
                        Decoded::Bad(_) => {
                            evs.push((Ev::Bad, at));
                            over = true;
                        }
                        Decoded::Refuse(c) => {
                            evs.push((Ev::Refuse(c), at));
                            over = true;
                        }
                        Decoded::NeedMore { .. } => unreachable!(),
                    }
                    if over {
                        if off < buf.len() {
                            self.stats.packets_after_malformed += 1;
                        }
                        break;
                    }
                }
            }
        }
        if !over {
            buf.drain(..off);
            self.conns[s.conn].inbuf = buf;
        }
        let at = ends.last().map_or(now, |e| e.1);
        if s.eof {
            evs.push((Ev::Eof, at));
        }
        if s.reset {
            evs.push((Ev::Reset, at));
        }
        Ok(evs)
    }

    fn gone(&mut self, c: usize) {
        let m = &mut self.conns[c];
        m.phase = Phase::Gone;
        m.closing = true;
        m.subs = Subs::new();
        m.tl.push(Rc::new(Subs::new()));
        if let Some(id) = m.cid.clone() {
            if self.sessions.get(&id) == Some(&c) {
                self.sessions.remove(&id);
            }
        }
    }

    fn predict(&mut self, evs: Vec<(usize, Vec<(Ev, Instant)>)>, latest: Instant) -> Res {
        for m in &mut self.conns {
            m.tl = vec![Rc::new(m.subs.clone())];
            m.closing = m.phase == Phase::Gone;
            m.late = false;
            m.ended = latest;
        }
        self.groups.clear();
        // Who may be dropped for inactivity before this batch is over?
        for m in &mut self.conns {
            if m.phase == Phase::Up && m.keepalive > 0 {
                if latest.duration_since(m.last) > Duration::from_secs(m.keepalive as u64) {
                    m.unsure = true;
                }
            }
            if m.phase == Phase::New && latest.duration_since(m.opened) > Duration::from_secs(5) {
                m.unsure = true;
            }
        }
        // Client identifiers claimed in this batch.
        let mut claims: HashMap<String, Vec<usize>> = HashMap::new();
        for (c, list) in &evs {
            if self.conns[*c].phase == Phase::New {
                if let Some((Ev::Pkt(CPkt::Connect { cid, .. }), _)) = list.first() {
                    if !cid.is_empty() {
                        claims.entry(cid.clone()).or_default().push(*c);
                    }
                }
            }
        }
        let mut ambiguous: HashSet<usize> = HashSet::new();
        let mut replaced: Vec<usize> = vec![];
        for (cid, who) in &claims {
            if let Some(&old) = self.sessions.get(cid) {
                self.stats.takeovers += 1;
                replaced.push(old);
                if evs.iter().any(|(c, l)| *c == old && !l.is_empty()) {
                    self.stats.races += 1;
                    ambiguous.insert(old);
                }
            }
            if who.len() > 1 {
                self.stats.races += 1;
                ambiguous.extend(who.iter().copied());
                self.groups.push(who.clone());
            }
        }
        let mut pubs: Vec<BPub> = vec![];
        let had_pubs = evs.iter().any(|(_, l)| l.iter().any(|(e, _)| matches!(e, Ev::Pkt(CPkt::Publish { .. }))));
        for (c, list) in evs {
            let amb = ambiguous.contains(&c);
            let reset = list.iter().any(|(e, _)| matches!(e, Ev::Reset));
            if reset {
                self.conns[c].lax_resp = true;
            }
            for (ev, at) in list {
                if self.conns[c].phase == Phase::Gone {
                    break;
                }
                self.apply(c, ev, at, amb, had_pubs, &mut pubs)?;
            }
        }
        for old in replaced {
            let m = &mut self.conns[old];
            if m.phase != Phase::Gone {
                m.lax_resp = true;
            }
            if ambiguous.contains(&old) {
                m.lax_resp = true;
            }
            self.gone(old);
        }
        // The newest claimant owns the session.
        for (cid, who) in claims {
            if who.len() == 1 && self.conns[who[0]].phase == Phase::Up {
                self.sessions.insert(cid, who[0]);
            }
        }
        self.route(pubs);
        Ok(())
    }

    fn expect(&mut self, c: usize, r: Resp) {
        self.conns[c].exp.entry(r.kind()).or_default().push_back(r);
    }

    fn violation(&mut self, c: usize) {
        self.stats.malformed += 1;
        if self.conns[c].phase == Phase::New {
            // Refusing a CONNECT may or may not be announced.
            self.stats.before_connect += 1;
            self.expect(c, Resp::MaybeRefusal);
        }
        self.gone(c);
    }

    fn apply(&mut self, c: usize, ev: Ev, at: Instant, may: bool, snapshot: bool, pubs: &mut Vec<BPub>) -> Res {
        let p = match ev {
            Ev::Bad => {
                self.violation(c);
                return Ok(());
            }
            Ev::Refuse(code) => {
                if self.conns[c].phase == Phase::New {
                    self.stats.refused += 1;
                    self.expect(c, Resp::ConnAck(code));
                    self.gone(c);
                } else {
                    self.stats.second_connects += 1;
                    self.expect(c, Resp::MaybeRefusal);
                    self.gone(c);
                }
                return Ok(());
            }
            Ev::Eof => {
                self.stats.eofs += 1;
                self.conns[c].sent_eof = true;
                self.gone(c);
                return Ok(());
            }
            Ev::Reset => {
                self.stats.resets += 1;
                self.conns[c].sent_eof = true;
                self.gone(c);
                return Ok(());
            }
            Ev::Pkt(p) => p,
        };
        if self.conns[c].phase == Phase::New && !matches!(p, CPkt::Connect { .. }) {
            self.violation(c);
            return Ok(());
        }
        {
            let m = &mut self.conns[c];
            m.late |= m.phase == Phase::Up && m.keepalive > 0 && at.duration_since(m.last) > Duration::from_secs(m.keepalive as u64);
            m.last = at;
        }
        let may = may || self.conns[c].late;
        match p {
            CPkt::Connect { cid, keepalive, .. } => {
                if self.conns[c].phase == Phase::Up {
                    self.stats.second_connects += 1;
                    self.expect(c, Resp::MaybeRefusal);
                    self.gone(c);
                    return Ok(());
                }
                self.stats.connects_ok += 1;
                let m = &mut self.conns[c];
                m.phase = Phase::Up;
                m.keepalive = keepalive;
                m.cid = if cid.is_empty() { None } else { Some(cid) };
                self.expect(c, Resp::ConnAck(0));
            }
            CPkt::Publish { topic, payload, qos, id } => {
                let may = may || odd_share(&topic, 2);
                self.stats.publishes += 1;
                if topic.starts_with('$') {
                    self.stats.dollar_publishes += 1;
                }
                match qos {
                    1 => self.expect(c, Resp::Id(4, id)),
                    2 => self.expect(c, Resp::Id(5, id)),
                    _ => {}
                }
                let m = &mut self.conns[c];
                if qos == 2 {
                    if !m.rx2.insert(id) {
                        self.stats.qos2_repeats += 1;
                        return Ok(());
                    }
                    if m.rx2_released.contains(&id) {
                        self.stats.id_reuse_after_release += 1;
                    }
                }
                pubs.push(BPub {
                    from: c,
                    pos: m.tl.len() - 1,
                    msg: Rc::new(Msg { topic, payload }),
                    qos,
                    may,
                });
            }
            CPkt::PubAck(id) => self.acknowledged(c, id, 1),
            CPkt::PubComp(id) => self.acknowledged(c, id, 2),
            CPkt::PubRec(id) => self.expect(c, Resp::Id(6, id)),
            CPkt::PubRel(id) => {
                if self.conns[c].rx2.remove(&id) {
                    self.conns[c].rx2_released.insert(id);
                }
                self.expect(c, Resp::Id(7, id));
            }
            CPkt::Subscribe { id, filters } => {
                self.stats.subscribes += 1;
                self.stats.filters_in_one_packet = self.stats.filters_in_one_packet.max(filters.len() as u64);
                let mut codes = Vec::with_capacity(filters.len());
                let few = filters.len() <= 16;
                let changed_midway = snapshot;
                for (f, q) in filters {
                    let odd = odd_share(&f, 3);
                    if !odd && !valid_filter(&f) {
                        self.stats.refused_filters += 1;
                        codes.push((0x80, None));
                        continue;
                    }
                    let levels = f.split('/').count();
                    self.stats.max_levels = self.stats.max_levels.max(levels as u64);
                    let amb = levels > SURE_LEVELS || odd;
                    if odd {
                        self.stats.odd_names += 1;
                    } else if amb {
                        self.stats.deep_filters += 1;
                    }
                    codes.push((q, amb.then(|| f.clone())));
                    let m = &mut self.conns[c];
                    if m.subs.contains_key(&f) {
                        self.stats.resubs += 1;
                    }
                    m.subs.insert(f, Sub { qos: q, amb, odd });
                    if few && changed_midway {
                        m.tl.push(Rc::new(m.subs.clone()));
                    }
                }
                let m = &mut self.conns[c];
                if !(few && changed_midway) {
                    m.tl.push(Rc::new(m.subs.clone()));
                }
                self.stats.max_filters = self.stats.max_filters.max(self.conns[c].subs.len() as u64);
                if snapshot {
                    self.stats.mid_batch_changes += 1;
                }
                self.expect(c, Resp::SubAck(id, codes));
            }
            CPkt::Unsubscribe { id, filters } => {
                self.stats.unsubscribes += 1;
                let few = filters.len() <= 16 && snapshot;
                for f in filters {
                    let m = &mut self.conns[c];
                    if m.subs.remove(&f).is_some() {
                        self.stats.effective_unsubs += 1;
                        if few {
                            m.tl.push(Rc::new(m.subs.clone()));
                        }
                    }
                }
                let m = &mut self.conns[c];
                m.tl.push(Rc::new(m.subs.clone()));
                self.expect(c, Resp::Id(11, id));
            }
            CPkt::PingReq => self.expect(c, Resp::PingResp),
            CPkt::Disconnect => {
                self.stats.disconnects += 1;
                self.gone(c);
            }
        }
        Ok(())
    }

    fn route(&mut self, pubs: Vec<BPub>) {
        struct Hit {
            any: bool,
            sure: bool,
            /// The QoS of those that may or may not count.
            q: [bool; 3],
            qs: u8,
            wild: bool,
            n: usize,
        }
        fn lookup(s: &Subs, topic: &str) -> Hit {
            let mut h = Hit { any: false, sure: false, q: [false; 3], qs: 0, wild: false, n: 0 };
            for (f, sub) in s {
                if matches(f, topic) {
                    h.any = true;
                    h.n += 1;
                    h.wild |= f.contains(['+', '#']);
                    if sub.amb {
                        h.q[sub.qos as usize] = true;
                    } else {
                        h.sure = true;
                        h.qs = h.qs.max(sub.qos);
                    }
                }
            }
            h
        }
        for p in pubs {
            for j in 0..self.conns.len() {
                let m = &self.conns[j];
                if m.tl.iter().all(|s| s.is_empty()) {
                    continue;
                }
                let own = j == p.from;
                let hits: Vec<Hit> = if own {
                    vec![lookup(&m.tl[p.pos], &p.msg.topic)]
                } else {
                    m.tl.iter().map(|s| lookup(s, &p.msg.topic)).collect()
                };
                if !hits.iter().any(|h| h.any) {
                    self.stats.not_delivered += 1;
                    continue;
                }
                let must = hits.iter().all(|h| h.sure) && !m.closing && !m.unsure && !p.may;
                let mut qos = [false; 3];
                for h in &hits {
                    for (q, amb) in h.q.iter().enumerate() {
                        if *amb && (!h.sure || q as u8 > h.qs) {
                            qos[p.qos.min(q as u8) as usize] = true;
                        }
                    }
                    if h.sure {
                        qos[p.qos.min(h.qs) as usize] = true;
                    }
                }
                let e = ExpPub {
                    msg: p.msg.clone(),
                    from: p.from,
                    must,
                    qos,
                    pub_qos: p.qos,
                    own,
                    wild: hits.iter().any(|h| h.wild),
                    multi: hits.iter().any(|h| h.n > 1),
                };
                self.conns[j].exp_pub.push(e);
                let n = self.conns[j].exp_pub.len() as u64;
                if self.conns[j].stalled {
                    self.conns[j].backlog += p.msg.topic.len() + p.msg.payload.len() + 12;
                    self.stats.backlog_max = self.stats.backlog_max.max(n);
                }
            }
        }
    }

    fn fingerprint(&self) -> u64 {
        let mut f = 0u64;
        for m in &self.conns {
            let c = m.sock.lock().unwrap();
            f = f
                .wrapping_mul(1_000_003)
                .wrapping_add(c.outbound.len() as u64)
                .wrapping_mul(31)
                .wrapping_add(c.unread() as u64)
                .wrapping_mul(31)
                .wrapping_add(c.closed() as u64 + 2 * c.accepted as u64);
        }
        f
    }

    /// Virtual time passes only when no task can run: when nothing changes over two
    /// quanta (each longer than any write delay), nothing is going to.
    async fn settle(&mut self) -> Res {
        sleep_until(self.accept_grace).await;
        let mut last = self.fingerprint();
        let mut quiet = 0;
        for _ in 0..200_000 {
            sleep(self.quantum).await;
            let f = self.fingerprint();
            if f == last {
                quiet += 1;
                if quiet == 2 {
                    return Ok(());
                }
            } else {
                quiet = 0;
                last = f;
            }
        }
        fail!("the broker never comes to rest")
    }

    fn name(&self, c: usize) -> String {
        let m = &self.conns[c];
        let slot = if m.slot == usize::MAX { "probe".into() } else { format!("client {}", m.slot) };
        format!("{slot} (connection {c}, id {:?})", m.cid.as_deref().unwrap_or("-"))
    }

    /// Parses and matches what connection `c` received since the last look; returns the packets.
    fn collect(&mut self, c: usize) -> Res<Vec<SPkt>> {
        let mut out = vec![];
        let data: Vec<u8> = {
            let mut s = self.conns[c].sock.lock().unwrap();
            std::mem::take(&mut s.outbound)
        };
        let mut off = 0;
        loop {
            match decode_server(&data[off..]) {
                Err(e) => fail!("{} received a malformed stream: {e}", self.name(c)),
                Ok(None) => break,
                Ok(Some((p, n))) => {
                    off += n;
                    self.receive(c, &p)?;
                    out.push(p);
                }
            }
        }
        let rest = data[off..].to_vec();
        self.conns[c].got = rest.len();
        if !rest.is_empty() {
            // Put the incomplete tail back in front of what may follow.
            let mut s = self.conns[c].sock.lock().unwrap();
            let mut v = rest;
            v.extend_from_slice(&s.outbound);
            s.outbound = v;
        }
        Ok(out)
    }

    fn receive(&mut self, c: usize, p: &SPkt) -> Res {
        let name = self.name(c);
        if !self.conns[c].any_received && !matches!(p, SPkt::ConnAck { .. }) {
            fail!("{name}: the first packet received is {}, not CONNACK", show(p));
        }
        self.conns[c].any_received = true;
        let kind = match p {
            SPkt::Publish { .. } => 3,
            SPkt::ConnAck { .. } => 2,
            SPkt::PubAck(_) => 4,
            SPkt::PubRec(_) => 5,
            SPkt::PubRel(_) => 6,
            SPkt::PubComp(_) => 7,
            SPkt::SubAck { .. } => 9,
            SPkt::UnsubAck(_) => 11,
            SPkt::PingResp => 13,
        };
        if kind == 3 {
            return self.receive_publish(c, p);
        }
        let Some(e) = self.conns[c].exp.get_mut(&kind).and_then(|q| q.pop_front()) else {
            fail!("{name} received an unsolicited {}", show(p));
        };
        self.stats.responses += 1;
        match (&e, p) {
            (Resp::ConnAck(code), SPkt::ConnAck { sp, code: got }) => {
                if *sp || code != got {
                    fail!("{name}: CONNACK code {got}, session present {sp}; due: code {code}, session present false");
                }
            }
            (Resp::MaybeRefusal, SPkt::ConnAck { sp, code }) => {
                if *code == 0 || *sp {
                    fail!("{name}: an invalid CONNECT was accepted");
                }
            }
            (Resp::SubAck(id, codes), SPkt::SubAck { id: gid, codes: got }) => {
                let ok = id == gid
                    && codes.len() == got.len()
                    && codes.iter().zip(got).all(|((q, amb), g)| q == g || (amb.is_some() && *g == 0x80));
                if !ok {
                    fail!(
                        "{name}: SUBACK for {gid} with codes {}; due: for {id} with codes {}",
                        hex(&got[..got.len().min(20)]),
                        hex(&codes.iter().map(|x| x.0).take(20).collect::<Vec<_>>())
                    );
                }
                for ((_, amb), g) in codes.iter().zip(got) {
                    if let Some(f) = amb {
                        let m = &mut self.conns[c];
                        if *g == 0x80 {
                            m.subs.remove(f);
                        } else if let Some(s) = m.subs.get_mut(f) {
                            s.amb = s.odd;
                        }
                    }
                }
            }
            (Resp::Id(_, id), p) => {
                let got = match p {
                    SPkt::PubAck(i) | SPkt::PubRec(i) | SPkt::PubRel(i) | SPkt::PubComp(i) | SPkt::UnsubAck(i) => *i,
                    _ => unreachable!(),
                };
                if got != *id {
                    fail!("{name} received {} where identifier {id} is due", show(p));
                }
            }
            (Resp::PingResp, _) => {}
            _ => unreachable!(),
        }
        Ok(())
    }

    /// Only the acknowledgement that ends its exchange makes an identifier free again.
    fn acknowledged(&mut self, c: usize, id: u16, qos: u8) {
        let m = &mut self.conns[c];
        match m.outstanding.get(&id) {
            Some(q) if *q == qos => {
                m.outstanding.remove(&id);
            }
            Some(_) => {}
            // May be meant for a delivery still on its way.
            None => {
                m.acked_early.insert(id);
            }
        }
    }

    fn receive_publish(&mut self, c: usize, p: &SPkt) -> Res {
        let name = self.name(c);
        let SPkt::Publish { topic, payload, qos, id, dup, retain } = p else { unreachable!() };
        if *dup || *retain {
            fail!("{name} received a delivery with DUP {dup} RETAIN {retain}: {}", show(p));
        }
        let m = &mut self.conns[c];
        let Ok(taken) = m.exp_pub.take(topic, payload, *qos) else {
            return Err(Verdict::Skip("too many equal messages to tell apart"));
        };
        let Some(e) = taken else {
            let near = m.exp_pub.rest().find(|e| e.msg.topic.as_bytes() == &topic[..] && e.msg.payload == *payload);
            let why = match near {
                Some(e) if !e.qos[*qos as usize] => format!("the QoS due is {:?}", (0..3).filter(|q| e.qos[*q]).collect::<Vec<_>>()),
                Some(_) => "earlier messages of its publisher are due first".into(),
                None => "no such message is due (not matching, altered, out of order, or a second copy)".into(),
            };
            let due: Vec<String> =
                m.exp_pub.rest().filter(|e| e.must).take(3).map(|e| format!("{:?} {}", e.msg.topic, brief(&e.msg.payload))).collect();
            fail!("{name} received {}: {why}; next due: {due:?}", show(p));
        };
        m.delivered += 1;
        self.stats.deliveries += 1;
        if !e.must {
            self.stats.maybe_deliveries += 1;
        }
        self.stats.self_deliveries += e.own as u64;
        self.stats.wildcard_deliveries += e.wild as u64;
        self.stats.overlap_deliveries += e.multi as u64;
        self.stats.downgraded += (*qos < e.pub_qos) as u64;
        if *qos > 0 {
            if *qos == 1 {
                self.stats.deliveries_qos1 += 1
            } else {
                self.stats.deliveries_qos2 += 1
            }
            if *id == 0 {
                fail!("{name} received a QoS {qos} delivery with packet identifier 0");
            }
            if m.outstanding.insert(*id, *qos).is_some() && !m.acked_early.contains(id) {
                fail!("{name} received a delivery with packet identifier {id}, which an unacknowledged delivery uses");
            }
            self.stats.unacked_max = self.stats.unacked_max.max(m.outstanding.len() as u64);
        }
        Ok(())
    }

    async fn judge(&mut self) -> Res {
        if self.ended() {
            fail!("the broker's main loop ended by itself");
        }
        let mut reactions: Vec<Stream> = vec![];
        for c in 0..self.conns.len() {
            let got = self.collect(c)?;
            self.check(c)?;
            if got.is_empty() || self.conns[c].stalled || self.conns[c].phase != Phase::Up {
                continue;
            }
            if !self.conns[c].inbuf.is_empty() || self.conns[c].slot == usize::MAX {
                continue;
            }
            let ack = self.case.slots[self.conns[c].slot].ack;
            let bytes = self.react(c, &got, ack);
            if !bytes.is_empty() {
                reactions.push(Stream { conn: c, bytes, packet_ends: vec![], eof: false, reset: false, segs: vec![], gaps: vec![] });
            }
        }
        let live = crate::alloc::live();
        if live > FAIR_BASE + FAIR_PER_CONN * self.stats.connections as i64 + FAIR_PER_BYTE * self.sent as i64 {
            fail!("{live} bytes of memory are in use after {} connections over which clients have sent {} bytes in all", self.stats.connections, self.sent);
        }
        self.check_groups()?;
        for m in &mut self.conns {
            if m.phase == Phase::Gone && !m.lax_close {
                m.exp.clear();
                m.exp_pub.clear();
            }
        }
        if !reactions.is_empty() {
            Box::pin(self.batch(reactions)).await?;
        }
        Ok(())
    }

    fn react(&mut self, c: usize, got: &[SPkt], ack: Ack) -> Vec<u8> {
        let mut b = vec![];
        for p in got {
            match p {
                SPkt::Publish { qos, id, .. } if *qos > 0 => {
                    let right = if *qos == 1 { 0x40 } else { 0x50 };
                    let odd = |n: u16| *id % n.max(1) == 0;
                    let with = match ack {
                        Ack::Never => None,
                        Ack::Only(q) if q != *qos => None,
                        Ack::Some(n) if !odd(n as u16) => None,
                        Ack::AllBut(n) if odd(n) => None,
                        Ack::Half(n) if odd(n) && *qos == 1 => None,
                        Ack::Wrong(n) if odd(n) => Some(if *qos == 1 { 0x70 } else { 0x40 }),
                        _ => Some(right),
                    };
                    if let Some(with) = with {
                        b.extend(enc_ack(with, *id));
                    }
                }
                SPkt::PubRel(id) if matches!(ack, Ack::Half(n) if *id % n.max(1) == 0) => {}
                SPkt::PubRel(id) => b.extend(enc_ack(0x70, *id)),
                SPkt::PubRec(id) if *id >= 20000 && self.conns[c].rx2.contains(id) => b.extend(enc_ack(0x62, *id)),
                _ => {}
            }
        }
        b
    }

    fn check(&mut self, c: usize) -> Res {
        let name = self.name(c);
        let in_group = self.groups.iter().any(|g| g.contains(&c));
        let (closed, eof_reads, error_reads, accepted, closed_at) = {
            let s = self.conns[c].sock.lock().unwrap();
            (s.closed(), s.eof_reads, s.error_reads, s.accepted, s.closed_at)
        };
        if eof_reads > 1000 {
            fail!("{name}: the broker keeps reading a stream that has ended (busy loop)");
        }
        if error_reads > 1000 {
            fail!("{name}: the broker keeps reading a broken connection (busy loop)");
        }
        if !accepted {
            fail!("{name} was never accepted");
        }
        let now = Instant::now();
        let m = &mut self.conns[c];
        // Inactivity.
        let mut idle = false;
        if m.phase == Phase::Up && m.keepalive > 0 {
            let idle_for = now.duration_since(m.last);
            let k = Duration::from_secs(m.keepalive as u64);
            // (One that takes nothing is given a moment to take what is left.)
            let moment = Duration::from_millis(if m.stalled { 2500 } else { 1000 });
            if idle_for >= k * 3 / 2 + moment {
                if !closed {
                    fail!("{name} (keep-alive {} s) is still connected after {idle_for:?} of silence", m.keepalive);
                }
                idle = true;
                self.stats.idle_closed += 1;
            } else if idle_for > k || m.unsure {
                idle = closed;
            } else {
                if closed && !in_group {
                    fail!("{name} (keep-alive {} s) was disconnected {idle_for:?} after its last packet", m.keepalive);
                }
                if idle_for > k * 7 / 10 {
                    self.stats.idle_kept += 1;
                }
            }
        } else if m.phase == Phase::New {
            let t = now.duration_since(m.opened);
            if t >= Duration::from_millis(HANDSHAKE_MS) {
                if !closed {
                    fail!("{name} is still connected {t:?} after opening without CONNECT");
                }
                idle = true;
                self.stats.idle_closed += 1;
            } else if t > Duration::from_secs(5) || m.unsure {
                idle = closed;
            }
        }
        if idle {
            m.lax_resp = true;
            self.gone(c);
        }
        let m = &mut self.conns[c];
        match m.phase {
            Phase::Gone => {
                if !closed && !m.lax_close {
                    fail!("{name} is still connected; the broker should have closed the connection");
                }
            }
            _ => {
                if closed && !in_group {
                    fail!("{name} was disconnected without cause");
                }
            }
        }
        // A client that takes its last bytes this slowly need not be waited for.
        if m.phase == Phase::Gone && closed_at.is_some_and(|t| t >= m.ended + Duration::from_millis(GRACE_MS)) {
            m.lax_resp = true;
        }
        if m.stalled && !closed {
            return Ok(());
        }
        if m.stalled {
            m.lax_resp = true;
        }
        if m.phase != Phase::Gone && m.got > 0 && !(closed && in_group) {
            fail!("{name} received {} bytes of a packet and nothing more", m.got);
        }
        if in_group && closed {
            m.lax_resp = true;
        }
        if m.phase == Phase::Gone && m.lax_close && !closed {
            return Ok(());
        }
        if m.got > 0 && !m.lax_resp {
            fail!("{name}: the connection ended inside a packet");
        }
        if !m.lax_resp {
            for q in m.exp.values() {
                if let Some(r) = q.iter().find(|r| !matches!(r, Resp::MaybeRefusal)) {
                    fail!("{name} never received {r:?}");
                }
            }
        }
        m.exp.clear();
        if m.phase != Phase::Gone && !closed && m.outstanding.len() == 65535 {
            // There is no identifier left for a delivery: what is due is so once there is one.
            m.unsure &= !m.inbuf.is_empty();
            return Ok(());
        }
        if m.phase != Phase::Gone && !(in_group && closed) {
            if let Some(e) = m.exp_pub.missing() {
                fail!(
                    "{name} never received {:?} {} (QoS {}) although it was subscribed",
                    e.msg.topic,
                    brief(&e.msg.payload),
                    e.pub_qos
                );
            }
        }
        m.exp_pub.clear();
        m.unsure &= !m.inbuf.is_empty();
        Ok(())
    }

    /// Connections that claimed one identifier at the same time: exactly one survives.
    fn check_groups(&mut self) -> Res {
        for g in std::mem::take(&mut self.groups) {
            let open: Vec<usize> = g.iter().copied().filter(|c| !self.conns[*c].sock.lock().unwrap().closed()).collect();
            let self_ended = g.iter().any(|c| self.conns[*c].phase == Phase::Gone);
            if open.len() > 1 || (open.is_empty() && !self_ended) {
                fail!("{} of {} connections with one client identifier are open after connecting concurrently", open.len(), g.len());
            }
            for c in g {
                if open.contains(&c) {
                    if let Some(id) = self.conns[c].cid.clone() {
                        self.sessions.insert(id, c);
                    }
                } else if self.conns[c].phase != Phase::Gone {
                    self.gone(c);
                }
            }
        }
        Ok(())
    }

    async fn interrupt(&mut self, acts: &[Act], at: u16, around_accept: bool) -> Res {
        self.stats.interrupts += 1;
        let streams = self.streams(acts);
        for s in &streams {
            self.transmit(s);
        }
        let busy = |w: &World| {
            w.conns.iter().any(|m| {
                let s = m.sock.lock().unwrap();
                s.unread() > 0 || s.write_blocked
            })
        };
        let mut active = false;
        if at > 0 {
            sleep(Duration::from_millis(at as u64)).await;
        } else {
            // In the midst of it.
            active = busy(self);
            for _ in 0..self.case.rng / 2 % 12 {
                tokio::task::yield_now().await;
            }
        }
        let busy = active || busy(self);
        self.stats.busy_at_interrupt += busy as u64;
        let extra = around_accept.then(|| {
            sim::interrupt_around_accept(&self.net);
            sim::connect(&self.net, Default::default())
        });
        if !around_accept {
            sim::interrupt(&self.net);
        }
        sleep(Duration::from_secs(5)).await;
        if !self.ended() {
            fail!("the broker is still running 5 s after the interrupt");
        }
        if extra.is_some_and(|c| { let c = c.lock().unwrap(); c.accepted && !c.closed() }) {
            fail!("the connection made at the interrupt is still open after the broker stopped");
        }
        for c in 0..self.conns.len() {
            let (closed, accepted, data) = {
                let s = self.conns[c].sock.lock().unwrap();
                (s.closed(), s.accepted, s.outbound.clone())
            };
            if accepted && !closed {
                fail!("{} is still connected after the broker stopped", self.name(c));
            }
            let mut off = 0;
            loop {
                match decode_server(&data[off..]) {
                    Err(e) => fail!("{} received a malformed stream at the end: {e}", self.name(c)),
                    Ok(None) => break,
                    Ok(Some((_, n))) => off += n,
                }
            }
        }
        Ok(())
    }
    pub async fn result(self) -> Option<String> {
        if self.ended() {
            self.main?.await.ok()
        } else {
            None
        }
    }
}

fn brief(b: &[u8]) -> String {
    let s: String = b.iter().take(24).flat_map(|c| std::ascii::escape_default(*c).map(char::from)).collect();
    format!("[{} bytes: {s}{}]", b.len(), if b.len() > 24 { ".." } else { "" })
}
fn show(p: &SPkt) -> String {
    match p {
        SPkt::Publish { topic, payload, qos, id, .. } => {
            format!("PUBLISH topic {} payload {} QoS {qos} id {id}", brief(topic), brief(payload))
        }
        p => {
            let mut s = format!("{p:?}");
            s.truncate(200);
            s
        }
    }
}
