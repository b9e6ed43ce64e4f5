//! C01..C07: decoding of the two wire formats.
use crate::engine::*;
use crate::schema::*;
use crate::{Property, ensure, ensure_eq};
use s2protocol::S2ProtocolError;
use s2protocol::versions::{protocol75689 as old, protocol87702 as new};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "random buffers read by random sequences of bit reads (widths 0..=64, biases, booleans, bit arrays, four byte codes, alignment) from a random start bit; non-trivial: at least one read of a width above 8 or at a bit position that is not a multiple of 8, with the buffer long enough for it",
            assumptions: &["an independent bit reader written from the format description is the oracle"],
            checks: vec![check("reads", c01_reads, 2_000_000, 10), check("write_read", c01_write_read, 2_000_000, 10)],
        },
        Property {
            id: "C02",
            rule: "random 64-bit signed numbers biased to boundaries encoded as variable length numbers, and arbitrary byte strings; tagged values with right and wrong tags; non-trivial: more than one byte long, or a malformed value",
            assumptions: &["an independent encoder/decoder of variable length numbers is the oracle"],
            checks: vec![check("vlq", c02_vlq, 2_000_000, 10), check("vlq_bytes", c02_vlq_bytes, 2_000_000, 10), check("tagged", c02_tagged, 2_000_000, 10)],
        },
        Property {
            id: "C03",
            rule: "a game event (time step, user, one of all event kinds with every field random) generated from the frozen schema, encoded at a random start bit, decoded and compared field by field; non-trivial: every case (distinct by wire bytes)",
            assumptions: &["the frozen schema (harness/schema) is the specification of the field order, widths and biases"],
            checks: vec![check("game_event", c03_game_event, 1_200_000, 10), check("sequence", c03_sequence, 120_000, 10)],
        },
        Property {
            id: "C04",
            rule: "as C03 with the protocol of replays up to base build 75689",
            assumptions: &["the frozen schema (harness/schema) is the specification of the field order, widths and biases"],
            checks: vec![check("game_event", c04_game_event, 1_200_000, 10), check("sequence", c04_sequence, 120_000, 10)],
        },
        Property {
            id: "C05",
            rule: "a tracker event (time step and one of all event kinds with random fields) encoded as tagged structs with fields in random order and absent optionals left out or written as absent, for both protocols; and the same with one field duplicated, unknown, missing or out of range; non-trivial: a case with fields out of order, an absent optional or a defect",
            assumptions: &["the frozen schema (harness/schema) is the specification of the tags and types"],
            checks: vec![check("tracker_event", c05_event, 1_200_000, 10), check("defects", c05_defects, 1_200_000, 10)],
        },
    ]
}

// ---------------------------------------------------------------- C01

/// Bits a read needs, and what it yields by the reference reader.
fn ref_chunks(r: &mut BitR, n: usize) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut left = n;
    while left > 0 {
        let k = left.min(8);
        out.push(r.bits(k)? as u8);
        left -= k;
    }
    Some(out)
}

fn c01_reads(g: &mut Gen) -> Res {
    let n = g.len(24);
    let buf = g.bytes_n(n);
    let start_byte = g.idx(n.min(3) + 1);
    let start_bit = if start_byte < n { g.idx(8) } else { 0 };
    let mut input: (&[u8], usize) = (&buf[start_byte..], start_bit);
    let mut pos = start_byte * 8 + start_bit;
    let total = n * 8;
    let mut wide = false;
    let mut desc = format!("buffer {buf:?} from bit {pos}:");
    let steps = 1 + g.idx(6);
    for _ in 0..steps {
        let mut r = BitR { b: &buf, pos };
        let kind = g.below(7);
        // (name, expected rendering or None when the data runs out, actual)
        let (what, want, got): (String, Option<String>, Result<((&[u8], usize), String), S2ProtocolError>) = match kind {
            0 | 1 => {
                let w = g.below(65) as usize;
                wide |= w > 8 || pos % 8 != 0;
                (
                    format!("number of {w} bits"),
                    r.bits(w).map(|v| (v as i64).to_string()),
                    s2protocol::take_n_bits_into_i64(input, w).map(|(t, v)| (t, v.to_string())),
                )
            }
            2 => {
                let w = g.below(65) as usize;
                let off = match g.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => i64::MIN >> g.below(64),
                    _ => g.u64() as i64,
                };
                (
                    format!("number of {w} bits biased by {off}"),
                    r.bits(w).map(|v| off.wrapping_add(v as i64).to_string()),
                    s2protocol::parse_packed_int(input, off, w).map(|(t, v)| (t, v.to_string())),
                )
            }
            3 => (
                "boolean".into(),
                r.bits(1).map(|v| (v == 1).to_string()),
                s2protocol::parse_bool(input).map(|(t, v)| (t, v.to_string())),
            ),
            4 => {
                // empty bit arrays are a known finding of the type decoders
                let w = 1 + g.below(70) as usize;
                wide |= w > 8 || pos % 8 != 0;
                (
                    format!("bit array of {w} bits"),
                    ref_chunks(&mut r, w).map(|v| format!("{v:?}")),
                    s2protocol::take_bit_array(input, w).map(|(t, v)| (t, format!("{v:?}"))),
                )
            }
            5 => {
                let b = g.bool();
                (
                    if b { "four bytes".into() } else { "one byte".into() },
                    ref_chunks(&mut r, if b { 32 } else { 8 }).map(|v| format!("{v:?}")),
                    if b {
                        s2protocol::take_fourcc(input).map(|(t, v)| (t, format!("{v:?}")))
                    } else {
                        s2protocol::take_unaligned_byte(input).map(|(t, v)| (t, format!("[{v}]")))
                    },
                )
            }
            _ => {
                let pad = (8 - pos % 8) % 8;
                r.pos += pad;
                ("alignment".into(), Some("()".into()), s2protocol::byte_align(input).map(|(t, v)| (t, format!("{v:?}"))))
            }
        };
        desc.push_str(&format!(" {what},"));
        match (want, got) {
            (Some(w), Ok((tail, v))) => {
                ensure_eq!(v, w, "{desc}");
                pos = r.pos;
                let at = total - tail.0.len() * 8 + tail.1;
                ensure_eq!(at, pos, "{desc} position afterwards");
                ensure!(tail.1 < 8, "{desc} bit offset {}", tail.1);
                input = tail;
            }
            (None, Err(_)) => {
                g.label("out_of_data");
                break;
            }
            (w, v) => return Err(format!("{desc} expected {w:?}, got {v:?}")),
        }
    }
    if !wide {
        g.trivial();
    }
    g.key(&desc);
    g.sample(|| desc);
    Ok(())
}

/// Numbers written by the reference writer are read back.
fn c01_write_read(g: &mut Gen) -> Res {
    let mut w = BitW::default();
    let lead = g.idx(8);
    w.bits(g.bits(lead), lead);
    let start = w.pos();
    let mut vals: Vec<(usize, i64, i64)> = vec![];
    let n = 1 + g.idx(8);
    for _ in 0..n {
        let bits = 1 + g.idx(64);
        let off = if g.bool() { 0 } else { g.u64() as i64 >> g.below(64) };
        let raw = g.bits(bits);
        if g.chance(1, 6) {
            w.align();
            vals.push((usize::MAX, 0, 0));
        }
        w.bits(raw, bits);
        vals.push((bits, off, off.wrapping_add(raw as i64)));
    }
    let end = w.pos();
    let tail_bytes = g.idx(4);
    let mut bytes = w.bytes.clone();
    bytes.extend(g.bytes_n(tail_bytes));
    let mut input: (&[u8], usize) = (&bytes[start / 8..], start % 8);
    for (bits, off, v) in &vals {
        if *bits == usize::MAX {
            input = s2protocol::byte_align(input).map_err(|e| format!("{e:?}"))?.0;
            continue;
        }
        let (t, got) = s2protocol::parse_packed_int(input, *off, *bits).map_err(|e| format!("{vals:?}: {e:?}"))?;
        ensure_eq!(got, *v, "{bits} bits biased by {off} of {vals:?} from bit {start}");
        input = t;
    }
    ensure_eq!(bytes.len() * 8 - input.0.len() * 8 + input.1, end, "position after {vals:?}");
    g.key(&bytes);
    g.sample(|| format!("start bit {start}, (bits, bias, value) {vals:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02_vlq(g: &mut Gen) -> Res {
    let mag = g.bits(64);
    let v = mag as i64;
    let v = if g.chance(1, 40) { [i64::MIN, i64::MIN + 1, i64::MAX][g.idx(3)] } else { v };
    let mut b = vec![];
    vlq(&mut b, v);
    let len = b.len();
    let tail = g.bytes(6);
    b.extend(&tail);
    if len < 2 {
        g.trivial();
    }
    g.label(format!("{len} bytes"));
    let (t, got) = s2protocol::parse_vlq_int(&b).map_err(|e| format!("{v} as {b:?}: {e:?}"))?;
    ensure_eq!(got, v, "{b:?}");
    ensure_eq!(t, &tail[..], "rest after {v}");
    // every proper prefix of the number is an error
    let cut = g.idx(len);
    ensure!(s2protocol::parse_vlq_int(&b[..cut]).is_err(), "the first {cut} bytes of {b:?} are a number");
    g.key(&v);
    g.sample(|| format!("{v} is {:?}", &b[..len]));
    Ok(())
}

/// Arbitrary bytes: the reference decoder on up to 63 bits of magnitude.
fn c02_vlq_bytes(g: &mut Gen) -> Res {
    let n = 1 + g.idx(12);
    let mut b = g.bytes_n(n);
    let cont = g.idx(n + 1);
    for x in b.iter_mut().take(cont) {
        *x |= 0x80;
    }
    let mut v: u128 = 0;
    let mut end = None;
    for (i, x) in b.iter().enumerate() {
        let (p, sh) = if i == 0 { ((x >> 1) & 0x3f, 0) } else { (x & 0x7f, 6 + 7 * (i - 1)) };
        v |= (p as u128) << sh;
        if x & 0x80 == 0 {
            end = Some(i + 1);
            break;
        }
    }
    let got = s2protocol::parse_vlq_int(&b);
    match end {
        None => ensure!(got.is_err(), "{b:?} has no end but is read as {got:?}"),
        Some(e) => {
            // the magnitude fits in 63 bits
            if v <= i64::MAX as u128 && e <= 10 {
                let want = if b[0] & 1 == 1 { -(v as i64) } else { v as i64 };
                let (t, got) = got.map_err(|x| format!("{b:?}: {x:?}"))?;
                ensure_eq!(got, want, "{b:?}");
                ensure_eq!(t, &b[e..], "rest of {b:?}");
            } else {
                g.label("does not fit");
            }
        }
    }
    if n == 1 {
        g.trivial();
    }
    g.key(&b);
    g.sample(|| format!("{b:?}"));
    Ok(())
}

/// Many bytes that are cheap to draw.
fn pattern(g: &mut Gen, from: usize, to: usize) -> Vec<u8> {
    let n = from + g.idx(to - from);
    let (a, k) = (g.below(256) as usize, g.below(256) as usize);
    (0..n).map(|i| (a + i * k + i / 256) as u8).collect()
}

fn c02_tagged(g: &mut Gen) -> Res {
    let kind = g.idx(5);
    let tags = [9u8, 2, 6, 7, 1];
    let mut b = vec![tags[kind]];
    let want = match kind {
        0 => {
            let v = g.bits(62) as i64 * if g.bool() { -1 } else { 1 };
            vlq(&mut b, v);
            format!("{v}")
        }
        1 => {
            let x = match g.below(200) {
                0 => pattern(g, 65_500, 66_600),
                1..=9 => pattern(g, 200, 9_000),
                _ => g.bytes(80),
            };
            vlq(&mut b, x.len() as i64);
            b.extend(&x);
            format!("{x:?}")
        }
        2 => {
            let x = g.below(256) as u8;
            b.push(x);
            format!("{}", x != 0)
        }
        3 => {
            let x = g.bytes_n(4);
            b.extend(&x);
            format!("{}", u32::from_be_bytes([x[0], x[1], x[2], x[3]]))
        }
        _ => {
            let (n, x) = match g.below(100) {
                0 => {
                    let x = pattern(g, 8_190, 9_000);
                    (x.len() * 8 - g.idx(8), x)
                }
                1..=5 => {
                    let x = pattern(g, 30, 300);
                    (x.len() * 8 - g.idx(8), x)
                }
                _ => {
                    let n = g.idx(70);
                    (n, g.bytes_n(n.div_ceil(8)))
                }
            };
            vlq(&mut b, n as i64);
            b.extend(&x);
            format!("{x:?}")
        }
    };
    let len = b.len();
    let tail = g.bytes(4);
    b.extend(&tail);
    let dec = |k: usize, b: &[u8]| -> Result<(Vec<u8>, String), String> {
        let e = |e| format!("{e:?}");
        use s2protocol::versioned_decoder as d;
        Ok(match k {
            0 => d::tagged_vlq_int(b).map(|(t, v)| (t.to_vec(), format!("{v}"))).map_err(e)?,
            1 => d::tagged_blob(b).map(|(t, v)| (t.to_vec(), format!("{v:?}"))).map_err(e)?,
            2 => d::tagged_bool(b).map(|(t, v)| (t.to_vec(), format!("{v}"))).map_err(e)?,
            3 => d::tagged_fourcc(b).map(|(t, v)| (t.to_vec(), format!("{v}"))).map_err(e)?,
            _ => d::tagged_bitarray(b).map(|(t, v)| (t.to_vec(), format!("{v:?}"))).map_err(e)?,
        })
    };
    let (t, v) = dec(kind, &b).map_err(|e| format!("{b:?}: {e}"))?;
    ensure_eq!(v, want, "{b:?}");
    ensure_eq!(t, tail, "rest of {b:?}");
    // another tag is an error
    let mut c = b.clone();
    c[0] = c[0].wrapping_add(1 + g.below(255) as u8);
    ensure!(dec(kind, &c).is_err(), "tag {} is accepted in place of {}", c[0], b[0]);
    // so is every proper prefix
    let cut = g.idx(len);
    ensure!(dec(kind, &b[..cut]).is_err(), "the first {cut} bytes of {b:?} are accepted");
    g.key(&b);
    if b.len() < 400 {
        g.sample(|| format!("{b:?} is {want}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C03 / C04

/// Time step, user and event of one game event.
pub struct GameWire {
    pub delta: V,
    pub user: i64,
    pub event: V,
}
pub fn gen_delta(g: &mut Gen, s: &Schema) -> V {
    s.gen_type(g, "SVarUint32", &CFG)
}
/// The number of loops a `SVarUint32` value stands for.
pub fn delta_of(v: &V) -> i64 {
    match v {
        V::Enum(_, p) => p.int(),
        _ => unreachable!(),
    }
}
pub fn enc_game(s: &Schema, w: &mut BitW, e: &GameWire) {
    s.enc_type(w, "SVarUint32", &e.delta);
    s.enc_type(w, "ReplaySGameUserId", &V::Struct(vec![V::Int(e.user)]));
    s.enc_type(w, "GameEEventId", &e.event);
    w.align();
}
fn user_type(s: &Schema) -> &'static str {
    for n in ["ReplaySGameUserId", "ReplayGameUserId"] {
        if s.types.contains_key(n) {
            return n;
        }
    }
    panic!("no user type")
}
fn gen_game(g: &mut Gen, s: &Schema) -> GameWire {
    GameWire { delta: gen_delta(g, s), user: g.below(32) as i64, event: s.gen_type(g, "GameEEventId", &CFG) }
}

fn game_event(g: &mut Gen, s: &Schema, parse: for<'a> fn((&'a [u8], usize)) -> Result<((&'a [u8], usize), (i64, i64, String)), S2ProtocolError>) -> Res {
    let e = gen_game(g, s);
    let mut w = BitW::default();
    let lead = g.idx(8);
    w.bits(g.bits(lead), lead);
    let start = w.pos();
    s.enc_type(&mut w, "SVarUint32", &e.delta);
    w.bits(e.user as u64, 5);
    s.enc_type(&mut w, "GameEEventId", &e.event);
    // the padding bits are arbitrary
    if w.used != 0 && g.bool() {
        let pad = 8 - w.used;
        w.bits(g.bits(pad), pad);
    }
    w.align();
    let end = w.pos();
    let mut b = w.bytes.clone();
    b.extend(g.bytes(5));
    let (t, (delta, user, got)) = parse((&b[start / 8..], start % 8)).map_err(|x| format!("{:?} is not decoded: {x:?}", e.event))?;
    ensure_eq!(delta, delta_of(&e.delta), "time step");
    ensure_eq!(user, e.user, "user");
    let want = s.debug("GameEEventId", &e.event);
    if matches_debug(&want, &got)? {
        g.known(KNOWN_NUL);
    }
    ensure_eq!(b.len() * 8 - t.0.len() * 8 + t.1, end, "position after {want}");
    if let V::Enum(i, _) = &e.event {
        g.label(s.variants("GameEEventId")[*i].1.clone());
    }
    g.key(&b);
    g.sample(|| format!("start bit {}, step {delta}, user {user}, {got}", start % 8));
    Ok(())
}
fn sequence(g: &mut Gen, s: &Schema, parse: for<'a> fn((&'a [u8], usize)) -> Result<((&'a [u8], usize), (i64, i64, String)), S2ProtocolError>) -> Res {
    let n = 2 + g.idx(12);
    let mut w = BitW::default();
    let mut want = vec![];
    for _ in 0..n {
        let e = gen_game(g, s);
        s.enc_type(&mut w, "SVarUint32", &e.delta);
        w.bits(e.user as u64, 5);
        s.enc_type(&mut w, "GameEEventId", &e.event);
        w.align();
        want.push((delta_of(&e.delta), e.user, s.debug("GameEEventId", &e.event)));
    }
    let mut input: (&[u8], usize) = (&w.bytes, 0);
    for (i, (d, u, x)) in want.iter().enumerate() {
        let (t, (delta, user, got)) = parse(input).map_err(|e| format!("event {i} {x}: {e:?}"))?;
        ensure_eq!((delta, user), (*d, *u), "event {i}");
        if matches_debug(x, &got).map_err(|e| format!("event {i}: {e}"))? {
            g.known(KNOWN_NUL);
        }
        input = t;
    }
    ensure!(input.0.is_empty() && input.1 == 0, "{} bytes are left", input.0.len());
    g.key(&w.bytes);
    g.sample(|| format!("{n} events, {} bytes, first {:?}", w.bytes.len(), want[0]));
    Ok(())
}
type Triplet<'a> = Result<((&'a [u8], usize), (i64, i64, String)), S2ProtocolError>;
fn parse_new(i: (&[u8], usize)) -> Triplet<'_> {
    new::bit_packed::GameEEventId::parse_event_triplet(i).map(|(t, (d, u, e))| (t, (d, u, format!("{e:?}"))))
}
fn parse_old(i: (&[u8], usize)) -> Triplet<'_> {
    old::bit_packed::GameEEventId::parse_event_triplet(i).map(|(t, (d, u, e))| (t, (d, u, format!("{e:?}"))))
}
fn c03_game_event(g: &mut Gen) -> Res {
    game_event(g, modern(), parse_new)
}
fn c03_sequence(g: &mut Gen) -> Res {
    sequence(g, modern(), parse_new)
}
fn c04_game_event(g: &mut Gen) -> Res {
    game_event(g, legacy(), parse_old)
}
fn c04_sequence(g: &mut Gen) -> Res {
    sequence(g, legacy(), parse_old)
}

// ---------------------------------------------------------------- C05

type Pair<'a> = Result<(&'a [u8], (u32, String)), String>;
fn pair_new(b: &[u8]) -> Pair<'_> {
    new::byte_aligned::ReplayTrackerEEventId::parse_event_pair(b).map(|(t, (d, e))| (t, (d, format!("{e:?}")))).map_err(|e| format!("{e:?}"))
}
fn pair_old(b: &[u8]) -> Pair<'_> {
    old::byte_aligned::ReplayTrackerEEventId::parse_event_pair(b).map(|(t, (d, e))| (t, (d, format!("{e:?}")))).map_err(|e| format!("{e:?}"))
}
pub const TRACKER: &str = "ReplayTrackerEEventId";

fn c05_event(g: &mut Gen) -> Res {
    let s = versioned();
    let old = g.bool();
    let n = 1 + g.idx(3);
    let mut b = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let d = s.gen_type(g, "SVarUint32", &CFG);
        let e = s.gen_type(g, TRACKER, &CFG);
        s.venc_type(g, &mut b, "SVarUint32", &d);
        s.venc_type(g, &mut b, TRACKER, &e);
        if let V::Enum(i, _) = &e {
            g.label(s.variants(TRACKER)[*i].1.clone());
        }
        want.push((delta_of(&d) as u32, s.debug(TRACKER, &e)));
    }
    let tail = g.bytes(5);
    b.extend(&tail);
    let mut rest = &b[..];
    for (d, e) in &want {
        let (t, (gd, ge)) = if old { pair_old(rest) } else { pair_new(rest) }.map_err(|x| format!("{e} is not decoded: {x}"))?;
        ensure_eq!(gd, *d, "time step of {e}");
        matches_debug(e, &ge)?;
        rest = t;
    }
    ensure_eq!(rest, &tail[..], "rest after {want:?}");
    g.key(&(old, &b));
    g.sample(|| format!("{want:?}"));
    Ok(())
}

/// One defect in the encoding of an event's struct.
fn c05_defects(g: &mut Gen) -> Res {
    let s = versioned();
    let old = g.bool();
    let vi = g.idx(s.variants(TRACKER).len());
    let (tag, name, f) = s.variants(TRACKER)[vi].clone();
    let FT::T(t) = f else { return Err("schema".into()) };
    let fields = s.fields(&t);
    let V::Struct(vals) = s.gen_type(g, &t, &CFG) else { unreachable!() };
    // encode each field
    let mut enc: Vec<(i64, Vec<u8>, bool)> = vec![];
    for ((_, tag, ft), v) in fields.iter().zip(&vals) {
        let mut o = vec![];
        s.venc_ft(g, &mut o, ft, v);
        enc.push((*tag, o, matches!(v, V::Opt(None))));
    }
    let kind = g.idx(5);
    let what = match kind {
        0 => {
            // a field that is there twice
            let cand: Vec<usize> = (0..enc.len()).filter(|i| !enc[*i].2).collect();
            if cand.is_empty() {
                g.trivial();
                return Ok(());
            }
            let i = *g.pick(&cand);
            let at = g.idx(enc.len() + 1);
            let e = enc[i].clone();
            enc.insert(at, e);
            format!("field {i} twice")
        }
        1 => {
            // a tag that no field has
            let mut tg = 0;
            while fields.iter().any(|f| f.1 == tg) {
                tg += 1;
            }
            tg += g.below(60) as i64;
            while fields.iter().any(|f| f.1 == tg) {
                tg += 1;
            }
            if g.chance(1, 4) {
                tg = -1 - g.below(60) as i64;
            }
            let at = g.idx(enc.len() + 1);
            let mut o = vec![9];
            vlq(&mut o, 0);
            enc.insert(at, (tg, o, false));
            format!("unknown tag {tg}")
        }
        2 => {
            // a required field that is not there
            let cand: Vec<usize> = (0..enc.len()).filter(|i| !matches!(fields[*i].2, FT::Opt(_))).collect();
            if cand.is_empty() {
                g.trivial();
                return Ok(());
            }
            let i = *g.pick(&cand);
            enc.remove(i);
            format!("field {} missing", fields[i].0)
        }
        3 => {
            // a number that does not fit
            let cand: Vec<usize> = (0..enc.len())
                .filter(|i| match &fields[*i].2 {
                    FT::Vlq(k) => *k != "i64",
                    FT::Opt(o) => matches!(**o, FT::Vlq(k) if k != "i64"),
                    _ => false,
                })
                .collect();
            if cand.is_empty() {
                g.trivial();
                return Ok(());
            }
            let i = *g.pick(&cand);
            let (k, opt) = match &fields[i].2 {
                FT::Vlq(k) => (*k, false),
                FT::Opt(o) => match **o {
                    FT::Vlq(k) => (k, true),
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            };
            let (lo, hi) = match k {
                "u8" => (0, 255),
                "u32" => (0, u32::MAX as i64),
                "i32" => (i32::MIN as i64, i32::MAX as i64),
                _ => (0, i64::MAX),
            };
            let v = if hi == i64::MAX || g.bool() { lo - 1 - g.bits(20) as i64 } else { hi + 1 + g.bits(20) as i64 };
            let mut o = if opt { vec![4, 1] } else { vec![] };
            o.push(9);
            vlq(&mut o, v);
            enc[i].1 = o;
            format!("field {} is {v}", fields[i].0)
        }
        _ => {
            // a struct that announces another event
            let mut b = vec![3, 0, 9, 0, 9];
            let mut tg = 0;
            while s.variants(TRACKER).iter().any(|v| v.0 == tg) {
                tg += 1;
            }
            tg += g.below(1000) as i64;
            vlq(&mut b, tg);
            b.extend([5, 0]);
            let r = if old { pair_old(&b) } else { pair_new(&b) };
            ensure!(r.is_err(), "event kind {tg} is accepted: {r:?}");
            g.label("unknown event kind");
            g.key(&(old, &b));
            return Ok(());
        }
    };
    g.label(what.split(' ').next().unwrap().to_string() + ["/duplicate", "/unknown", "/missing", "/range", ""][kind]);
    let mut b = vec![3, 0, 9, 0, 9];
    vlq(&mut b, tag);
    b.push(5);
    vlq(&mut b, enc.len() as i64);
    for (t, o, _) in &enc {
        vlq(&mut b, *t);
        b.extend(o);
    }
    let r = if old { pair_old(&b) } else { pair_new(&b) };
    ensure!(r.is_err(), "{name} with {what} is accepted: {r:?}");
    g.key(&(old, &b));
    g.sample(|| format!("{name} with {what}: {}", r.unwrap_err()));
    Ok(())
}
#[allow(dead_code)]
pub fn user_ty(s: &Schema) -> &'static str {
    user_type(s)
}
