//! C19: the packet codec, reached through the broker's cfg(verif) hook.
use crate::case::CodecCase;
use crate::world::Stats;

fn recode(b: &[u8]) -> Result<(Vec<u8>, usize), String> {
    (crate::broker().recode.expect("built without the hook feature"))(b)
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if b.len() < n {
        return None;
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Some(x)
}
fn bin<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
    let n = take(b, 2)?;
    take(b, u16::from_be_bytes([n[0], n[1]]) as usize)
}
fn text<'a>(b: &mut &'a [u8]) -> Option<&'a str> {
    std::str::from_utf8(bin(b)?).ok()
}

/// Length of the packet at the start of `b` if its layout is right, whatever its values mean.
pub fn layout(b: &[u8]) -> Option<usize> {
    let first = *b.first()?;
    let (h, n) = crate::refcodec::frame(b).ok()??;
    if b.len() < h + n {
        return None;
    }
    let mut r = &b[h..h + n];
    let r = &mut r;
    match first >> 4 {
        1 => {
            if text(r)? != "MQTT" {
                return None;
            }
            let f = take(r, 4)?[1];
            text(r)?;
            if f & 4 != 0 {
                text(r)?;
                bin(r)?;
            }
            if f & 0x80 != 0 {
                text(r)?;
            }
            if f & 0x40 != 0 {
                bin(r)?;
            }
        }
        2 => {
            take(r, 2)?;
        }
        3 => {
            text(r)?;
            if first & 6 != 0 {
                take(r, 2)?;
            }
            *r = &[];
        }
        4..=7 | 11 => {
            take(r, 2)?;
        }
        8 => {
            take(r, 2)?;
            while !r.is_empty() {
                text(r)?;
                take(r, 1)?;
            }
        }
        9 => {
            take(r, 2)?;
            *r = &[];
        }
        10 => {
            take(r, 2)?;
            while !r.is_empty() {
                text(r)?;
            }
        }
        12..=14 => {}
        _ => return None,
    }
    r.is_empty().then_some(h + n)
}

pub fn check(c: &CodecCase, s: &mut Stats) -> Result<(), String> {
    let packet = c.packet.build();
    let mut all = packet.clone();
    all.extend_from_slice(&c.trailing);
    s.max_packet = all.len() as u64;
    let show = |b: &[u8]| format!("{} bytes [{}{}]", b.len(), crate::refcodec::hex(&b[..b.len().min(48)]), if b.len() > 48 { " .." } else { "" });
    let got = recode(&all);
    if c.well_formed {
        s.responses += 1;
        match got {
            Err(e) => return Err(format!("decoding a well-formed packet failed ({e}): {}", show(&packet))),
            Ok((out, n)) => {
                if n != packet.len() {
                    return Err(format!("decoding used {n} bytes of a packet of {}", show(&packet)));
                }
                if out != packet {
                    let at = out.iter().zip(&packet).position(|(a, b)| a != b).unwrap_or(out.len().min(packet.len()));
                    return Err(format!("decoding and encoding {} gave {} (first difference at {at})", show(&packet), show(&out)));
                }
            }
        }
        return Ok(());
    }
    match (layout(&all), got) {
        (None, Ok(_)) => {
            s.malformed += 1;
            Err(format!("decoding accepted malformed or incomplete bytes: {}", show(&all)))
        }
        (None, Err(_)) => {
            s.malformed += 1;
            Ok(())
        }
        (Some(n), Ok((_, m))) if n != m => Err(format!("decoding used {m} bytes where the packet has {n}: {}", show(&all))),
        _ => Ok(()),
    }
}
