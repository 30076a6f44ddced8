//! MQTT 3.1.1 wire format, written from the specification and sharing nothing
//! with the broker: a strict decoder for what clients send, a strict decoder for what
//! servers send, and encoders.

#[derive(Clone, Debug, PartialEq)]
pub enum CPkt {
    Connect { cid: String, clean: bool, keepalive: u16 },
    Publish { topic: String, payload: Vec<u8>, qos: u8, id: u16 },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    Subscribe { id: u16, filters: Vec<(String, u8)> },
    Unsubscribe { id: u16, filters: Vec<String> },
    PingReq,
    Disconnect,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Decoded {
    /// No complete packet yet; `doomed`: its first byte already violates the protocol.
    NeedMore { doomed: bool },
    /// Malformed or forbidden.
    Bad(&'static str),
    /// A CONNECT that must be refused with this return code.
    Refuse(u8),
    Pkt(CPkt, usize),
}

struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn u8(&mut self) -> Option<u8> {
        let (a, b) = self.0.split_first()?;
        self.0 = b;
        Some(*a)
    }
    fn u16(&mut self) -> Option<u16> {
        Some(((self.u8()? as u16) << 8) | self.u8()? as u16)
    }
    /// A packet identifier: never 0.
    fn id(&mut self) -> Option<u16> {
        self.u16().filter(|n| *n != 0)
    }
    fn bin(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn text(&mut self) -> Option<String> {
        let s = std::str::from_utf8(self.bin()?).ok()?;
        if s.contains('\0') {
            return None;
        }
        Some(s.to_string())
    }
    fn done(&self) -> bool {
        self.0.is_empty()
    }
}

/// (header length, body length) of the frame at the start of `b`.
pub fn frame(b: &[u8]) -> Result<Option<(usize, usize)>, ()> {
    let mut v = 0usize;
    for i in 0..4 {
        let Some(&x) = b.get(1 + i) else { return Ok(None) };
        v |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            return Ok(Some((2 + i, v)));
        }
    }
    Err(())
}

fn flags_ok(first: u8) -> bool {
    match first >> 4 {
        // QoS 3, and DUP on QoS 0, do not exist.
        3 => (first >> 1) & 3 != 3 && (first & 6 != 0 || first & 8 == 0),
        6 | 8 | 10 => first & 0xf == 2,
        1 | 4 | 5 | 7 | 12 | 14 => first & 0xf == 0,
        _ => false,
    }
}

pub fn decode_client(b: &[u8]) -> Decoded {
    use Decoded::*;
    if b.is_empty() {
        return NeedMore { doomed: false };
    }
    let doomed = !flags_ok(b[0]);
    let (h, n) = match frame(b) {
        Err(()) => return Bad("remaining length over four bytes"),
        Ok(None) => return NeedMore { doomed },
        Ok(Some(x)) => x,
    };
    if b.len() < h + n {
        return NeedMore { doomed };
    }
    if doomed {
        return Bad("packet type or flags");
    }
    let mut r = R(&b[h..h + n]);
    match body(b[0], &mut r) {
        None => Bad("contents"),
        Some(Err(code)) => Refuse(code),
        Some(Ok(p)) => {
            if !r.done() {
                return Bad("longer than its contents");
            }
            // A missing identifier is refused only in an otherwise valid CONNECT.
            if let CPkt::Connect { cid, clean: false, .. } = &p {
                if cid.is_empty() {
                    return Refuse(2);
                }
            }
            Pkt(p, h + n)
        }
    }
}

fn body(first: u8, r: &mut R) -> Option<Result<CPkt, u8>> {
    Some(Ok(match first >> 4 {
        1 => {
            if r.bin()? != b"MQTT" {
                return None;
            }
            if r.u8()? != 4 {
                return Some(Err(1));
            }
            let f = r.u8()?;
            let keepalive = r.u16()?;
            if f & 1 != 0 {
                return None;
            }
            let will = f & 4 != 0;
            let wq = (f >> 3) & 3;
            if wq == 3 || (!will && (wq != 0 || f & 0x20 != 0)) {
                return None;
            }
            if f & 0x40 != 0 && f & 0x80 == 0 {
                return None;
            }
            let cid = r.text()?;
            if will {
                r.text()?;
                r.bin()?;
            }
            if f & 0x80 != 0 {
                r.text()?;
            }
            if f & 0x40 != 0 {
                r.bin()?;
            }
            CPkt::Connect { cid, clean: f & 2 != 0, keepalive }
        }
        3 => {
            let qos = (first >> 1) & 3;
            let topic = r.text()?;
            if topic.is_empty() || topic.contains(['+', '#']) {
                return None;
            }
            let id = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && id == 0 {
                return None;
            }
            let payload = r.0.to_vec();
            r.0 = &[];
            CPkt::Publish { topic, payload, qos, id }
        }
        4 => CPkt::PubAck(r.id()?),
        5 => CPkt::PubRec(r.id()?),
        6 => CPkt::PubRel(r.id()?),
        7 => CPkt::PubComp(r.id()?),
        8 => {
            let id = r.u16()?;
            let mut filters = vec![];
            while !r.done() {
                let f = r.text()?;
                let q = r.u8()?;
                if q > 2 {
                    return None;
                }
                filters.push((f, q));
            }
            if id == 0 || filters.is_empty() {
                return None;
            }
            CPkt::Subscribe { id, filters }
        }
        10 => {
            let id = r.u16()?;
            let mut filters = vec![];
            while !r.done() {
                filters.push(r.text()?);
            }
            if id == 0 || filters.is_empty() {
                return None;
            }
            CPkt::Unsubscribe { id, filters }
        }
        12 => CPkt::PingReq,
        14 => CPkt::Disconnect,
        _ => return None,
    }))
}

#[derive(Clone, Debug, PartialEq)]
pub enum SPkt {
    ConnAck { sp: bool, code: u8 },
    Publish { topic: Vec<u8>, payload: Vec<u8>, qos: u8, id: u16, dup: bool, retain: bool },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    SubAck { id: u16, codes: Vec<u8> },
    UnsubAck(u16),
    PingResp,
}

/// Strict decoder for the broker's output.
pub fn decode_server(b: &[u8]) -> Result<Option<(SPkt, usize)>, String> {
    if b.is_empty() {
        return Ok(None);
    }
    let (h, n) = match frame(b) {
        Err(()) => return Err("remaining length longer than four bytes".into()),
        Ok(None) => return Ok(None),
        Ok(Some(x)) => x,
    };
    let want = match b[0] >> 4 {
        3 => b[0] & 0xf,
        6 => 2,
        2 | 4 | 5 | 7 | 9 | 11 | 13 => 0,
        t => return Err(format!("packet type {t} is not one a server sends")),
    };
    if b[0] & 0xf != want {
        return Err(format!("fixed header {:#04x} has wrong flags", b[0]));
    }
    if b.len() < h + n {
        return Ok(None);
    }
    let mut r = R(&b[h..h + n]);
    let p = (|r: &mut R| {
        Some(match b[0] >> 4 {
            2 => {
                let f = r.u8()?;
                if f > 1 {
                    return None;
                }
                SPkt::ConnAck { sp: f == 1, code: r.u8()? }
            }
            3 => {
                let qos = (b[0] >> 1) & 3;
                if qos == 3 {
                    return None;
                }
                let topic = r.bin()?.to_vec();
                let id = if qos > 0 { r.u16()? } else { 0 };
                let payload = r.0.to_vec();
                r.0 = &[];
                SPkt::Publish { topic, payload, qos, id, dup: b[0] & 8 != 0, retain: b[0] & 1 != 0 }
            }
            4 => SPkt::PubAck(r.u16()?),
            5 => SPkt::PubRec(r.u16()?),
            6 => SPkt::PubRel(r.u16()?),
            7 => SPkt::PubComp(r.u16()?),
            9 => {
                let id = r.u16()?;
                let codes = r.0.to_vec();
                r.0 = &[];
                SPkt::SubAck { id, codes }
            }
            11 => SPkt::UnsubAck(r.u16()?),
            _ => SPkt::PingResp,
        })
    })(&mut r);
    match p {
        None => Err(format!("malformed contents: {}", hex(&b[..(h + n).min(64)]))),
        Some(_) if !r.done() => Err(format!("packet longer than its contents: {}", hex(&b[..(h + n).min(64)]))),
        Some(p) => Ok(Some((p, h + n))),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

// ---------------------------------------------------------------- encoders

pub fn rl(mut n: usize, out: &mut Vec<u8>) {
    loop {
        let mut d = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            d |= 128;
        }
        out.push(d);
        if n == 0 {
            break;
        }
    }
}
pub fn packet(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 5);
    v.push(first);
    rl(body.len(), &mut v);
    v.extend_from_slice(body);
    v
}
pub fn put_bin(b: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(&(b.len() as u16).to_be_bytes());
    out.extend_from_slice(b);
}
pub fn enc_publish(topic: &[u8], payload: &[u8], qos: u8, id: u16, dup: bool, retain: bool) -> Vec<u8> {
    let mut b = Vec::with_capacity(topic.len() + payload.len() + 4);
    put_bin(topic, &mut b);
    if qos > 0 {
        b.extend_from_slice(&id.to_be_bytes());
    }
    b.extend_from_slice(payload);
    packet(0x30 | (dup as u8) << 3 | qos << 1 | retain as u8, &b)
}
pub fn enc_subscribe(id: u16, filters: &[(Vec<u8>, u8)]) -> Vec<u8> {
    let mut b = id.to_be_bytes().to_vec();
    for (f, q) in filters {
        put_bin(f, &mut b);
        b.push(*q);
    }
    packet(0x82, &b)
}
pub fn enc_unsubscribe(id: u16, filters: &[Vec<u8>]) -> Vec<u8> {
    let mut b = id.to_be_bytes().to_vec();
    for f in filters {
        put_bin(f, &mut b);
    }
    packet(0xa2, &b)
}
pub fn enc_ack(first: u8, id: u16) -> Vec<u8> {
    packet(first, &id.to_be_bytes())
}
