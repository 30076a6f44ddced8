//! Generated inputs: client histories (and the codec's byte strings).
use crate::refcodec::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Input {
    Hist(Case),
    Codec(CodecCase),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CodecCase {
    /// A packet and bytes that follow it, or just bytes.
    pub packet: Raw,
    pub trailing: Vec<u8>,
    pub well_formed: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    /// Seed of the runtime's select! choices.
    pub rng: u32,
    pub slots: Vec<Slot>,
    pub steps: Vec<Step>,
    /// Memory check: run the steps this many times in one broker, closing all in between.
    #[serde(default)]
    pub rounds: u32,
    /// With rounds: the first step is run once, and nothing is closed in between.
    #[serde(default)]
    pub keep: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Slot {
    #[serde(default)]
    pub yields: Vec<bool>,
    #[serde(default)]
    pub write_caps: Vec<u32>,
    #[serde(default)]
    pub write_delays: Vec<u16>,
    #[serde(default)]
    pub ack: Ack,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Ack {
    /// Acknowledge deliveries as they arrive.
    #[default]
    Auto,
    /// Never acknowledge.
    Never,
    /// Acknowledge every n-th delivery only.
    Some(u8),
    /// Acknowledge all but those whose identifier is a multiple of this.
    AllBut(u16),
    /// As AllBut, but those get a PUBREC, if one is due, and nothing after it.
    Half(u16),
    /// As AllBut, but those get the acknowledgement of the other QoS.
    Wrong(u16),
    /// Acknowledge deliveries of this QoS only.
    Only(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// Packet lists of several clients, sent concurrently.
    Batch(Vec<Act>),
    /// Nothing is sent for this long (ms of virtual time).
    Idle(u32),
    /// The client takes `bytes` more bytes and then stops reading (None: reads everything again).
    Window { slot: usize, bytes: Option<u32> },
    AcceptError(u8),
    /// As Batch, but the broker is interrupted this many ms after the start; ends the case.
    /// `around_accept`: a new connection arrives as well, the interrupt follows its acceptance at once.
    Interrupt {
        acts: Vec<Act>,
        at: u16,
        #[serde(default)]
        around_accept: bool,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Act {
    pub slot: usize,
    pub ops: Vec<Op>,
    /// Cyclic segment sizes (empty: one piece).
    #[serde(default)]
    pub segs: Vec<u32>,
    /// Cyclic pauses before each segment, ms.
    #[serde(default)]
    pub gaps: Vec<u16>,
}

/// A string, possibly long.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Name {
    S(String),
    Rep { head: String, unit: String, n: u32, tail: String },
    B(Vec<u8>),
}
impl Name {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Name::S(s) => s.as_bytes().to_vec(),
            Name::B(b) => b.clone(),
            Name::Rep { head, unit, n, tail } => {
                let mut v = head.as_bytes().to_vec();
                for _ in 0..*n {
                    v.extend_from_slice(unit.as_bytes());
                }
                v.extend_from_slice(tail.as_bytes());
                v.truncate(65535);
                v
            }
        }
    }
}
impl From<&str> for Name {
    fn from(s: &str) -> Self {
        Name::S(s.to_string())
    }
}

/// A byte string, possibly long.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Raw {
    B(Vec<u8>),
    /// `n` bytes following a simple pattern.
    Fill { n: u32, salt: u8 },
    /// A packet: first byte, then a body built from parts.
    Packet { first: u8, parts: Vec<Raw> },
    /// A length-prefixed string.
    Str(Box<Raw>),
    /// One after the other.
    Seq(Vec<Raw>),
}
impl Raw {
    pub fn build(&self) -> Vec<u8> {
        match self {
            Raw::B(b) => b.clone(),
            Raw::Fill { n, salt } => fill(*n as usize, *salt),
            Raw::Packet { first, parts } => {
                let mut b = vec![];
                for p in parts {
                    b.extend(p.build());
                }
                packet(*first, &b)
            }
            Raw::Seq(parts) => parts.iter().flat_map(|p| p.build()).collect(),
            Raw::Str(r) => {
                let b = r.build();
                let mut v = vec![];
                put_bin(&b[..b.len().min(65535)], &mut v);
                v
            }
        }
    }
}
pub fn fill(n: usize, salt: u8) -> Vec<u8> {
    // Period 251 and a counter: misplaced or repeated blocks do not go unnoticed.
    (0..n).map(|i| ((i % 251) as u8).wrapping_add((i / 251) as u8).wrapping_add(salt)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Payload {
    /// A tag naming the message, then this much filler.
    Tag(u32),
    Is(Raw),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PubId {
    Auto,
    Is(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Conn {
    pub cid: String,
    pub clean: bool,
    pub keepalive: u16,
    #[serde(default)]
    pub will: Option<(Name, Raw, u8, bool)>,
    #[serde(default)]
    pub user: Option<Name>,
    #[serde(default)]
    pub pass: Option<Raw>,
}
impl Conn {
    pub fn plain(cid: impl Into<String>, keepalive: u16) -> Self {
        Conn { cid: cid.into(), clean: true, keepalive, will: None, user: None, pass: None }
    }
    pub fn encode(&self, level: u8, name: &[u8], flag_xor: u8) -> Vec<u8> {
        let mut f = 0u8;
        if self.clean {
            f |= 2;
        }
        if let Some((_, _, q, r)) = &self.will {
            f |= 4 | (q & 3) << 3 | (*r as u8) << 5;
        }
        if self.user.is_some() {
            f |= 0x80;
        }
        if self.pass.is_some() {
            f |= 0x40;
        }
        let mut b = vec![];
        put_bin(name, &mut b);
        b.push(level);
        b.push(f ^ flag_xor);
        b.extend_from_slice(&self.keepalive.to_be_bytes());
        put_bin(self.cid.as_bytes(), &mut b);
        if let Some((t, m, _, _)) = &self.will {
            put_bin(&t.bytes(), &mut b);
            let m = m.build();
            put_bin(&m[..m.len().min(65535)], &mut b);
        }
        if let Some(u) = &self.user {
            put_bin(&u.bytes(), &mut b);
        }
        if let Some(p) = &self.pass {
            let p = p.build();
            put_bin(&p[..p.len().min(65535)], &mut b);
        }
        packet(0x10, &b)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Open a new network connection; the previous one of this slot stays as it is.
    Open,
    /// CONNECT (opens a connection if the slot has none that is open).
    Connect(Conn),
    /// CONNECT with a chosen level, name and flag bits flipped.
    ConnectOdd { conn: Conn, level: u8, name: Vec<u8>, flag_xor: u8 },
    Sub(Vec<(Name, u8)>),
    SubId(u16, Vec<(Name, u8)>),
    Unsub(Vec<Name>),
    UnsubId(u16, Vec<Name>),
    Pub { topic: Name, qos: u8, retain: bool, dup: bool, id: PubId, payload: Payload },
    PubRel(u16),
    PubRec(u16),
    PubAck(u16),
    PubComp(u16),
    Ping,
    Disconnect,
    Eof,
    Reset,
    Bytes(Raw),
    /// The encoding of `op`, damaged.
    Mutated { op: Box<Op>, muts: Vec<Mutation> },
    /// Repeat an operation.
    Times(u32, Box<Op>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mutation {
    Flip { at: u16, bit: u8 },
    Set { at: u16, to: u8 },
    Insert { at: u16, byte: u8 },
    Delete { at: u16 },
    Truncate(u16),
    /// Add to the two bytes at this place read as a big-endian length.
    Add16 { at: u16, by: i16 },
    /// Bytes added to (or taken from) the end of the packet, its length field following.
    Grow(i8),
}
pub fn mutate(mut b: Vec<u8>, muts: &[Mutation]) -> Vec<u8> {
    for m in muts {
        if b.is_empty() {
            break;
        }
        let n = b.len();
        match m {
            Mutation::Flip { at, bit } => b[*at as usize % n] ^= 1 << (bit & 7),
            Mutation::Set { at, to } => b[*at as usize % n] = *to,
            Mutation::Insert { at, byte } => b.insert(*at as usize % (n + 1), *byte),
            Mutation::Delete { at } => {
                b.remove(*at as usize % n);
            }
            Mutation::Truncate(k) => b.truncate(*k as usize % (n + 1)),
            Mutation::Grow(k) => {
                if let Ok(Some((h, _))) = frame(&b) {
                    let mut body = b[h..].to_vec();
                    if *k >= 0 {
                        body.extend((0..*k as usize).map(|i| [0u8, 1, b'g', 0, 0][i % 5]));
                    } else {
                        body.truncate(body.len().saturating_sub(k.unsigned_abs() as usize));
                    }
                    b = packet(b[0], &body);
                }
            }
            Mutation::Add16 { at, by } => {
                let i = *at as usize % n;
                if i + 1 < n {
                    let v = u16::from_be_bytes([b[i], b[i + 1]]).wrapping_add(*by as u16);
                    b[i..i + 2].copy_from_slice(&v.to_be_bytes());
                }
            }
        }
    }
    b
}
