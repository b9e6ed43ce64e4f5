//! Synthesized replays and the JSON form that the decoded public values must have.
use crate::engine::Gen;
use crate::mpq;
use crate::schema::*;
use serde_json::{Map, Value as J, json};

pub const SIGNATURE: &[u8] = b"StarCraft II replay\x1b11";

/// The content of the user data section for a base build.
pub fn header_value(g: &mut Gen, base_build: u32) -> V {
    let s = versioned();
    let mut h = s.gen_type(g, "ReplaySHeader", &TEXT);
    s.set("ReplaySHeader", &mut h, "m_signature", V::Bytes(SIGNATURE.to_vec()));
    let mut ver = s.get("ReplaySHeader", &h, "m_version").clone();
    s.set("SVersion", &mut ver, "m_base_build", V::Int(base_build as i64));
    s.set("ReplaySHeader", &mut h, "m_version", ver);
    h
}
pub fn enc_header(g: &mut Gen, h: &V) -> Vec<u8> {
    let mut b = vec![];
    versioned().venc_type(g, &mut b, "ReplaySHeader", h);
    b
}
/// A header chosen without drawing anything.
pub fn plain_header(base_build: u32) -> Vec<u8> {
    let s = versioned();
    let md5 = V::Struct(vec![V::Opt(None), V::Bytes(vec![7; 16])]);
    let h = V::Struct(vec![
        V::Bytes(SIGNATURE.to_vec()),
        V::Struct(vec![V::Int(1), V::Int(5), V::Int(0), V::Int(1), V::Int(base_build as i64), V::Int(base_build as i64)]),
        V::Int(2),
        V::Int(1000),
        V::Bool(true),
        md5.clone(),
        V::Int(base_build as i64),
        md5,
        V::Bool(false),
    ]);
    let mut g = Gen::from_tape(vec![], "/nonexistent".into());
    let mut b = vec![];
    s.venc_type(&mut g, &mut b, "ReplaySHeader", &h);
    b
}
/// A base build with its protocol: modern ones, the boundary, legacy ones.
pub fn gen_build(g: &mut Gen) -> u32 {
    match g.below(6) {
        0 => 91115,
        1 => 87702,
        2 => 75689,
        3 => 75690,
        4 => 75690 + g.bits(17) as u32,
        _ => g.below(75690) as u32,
    }
}
pub fn legacy_build(b: u32) -> bool {
    b <= 75689
}
pub fn bit_schema(b: u32) -> &'static Schema {
    if legacy_build(b) { legacy() } else { modern() }
}

#[derive(Default, Clone)]
pub struct Files {
    pub header: Vec<u8>,
    pub tracker: Option<Vec<u8>>,
    pub game: Option<Vec<u8>>,
    pub message: Option<Vec<u8>>,
    pub details: Option<Vec<u8>>,
    pub init: Option<Vec<u8>>,
}
impl Files {
    pub fn archive(&self) -> Vec<u8> {
        let mut f: Vec<(&str, Vec<u8>)> = vec![];
        for (n, x) in [
            ("replay.tracker.events", &self.tracker),
            ("replay.game.events", &self.game),
            ("replay.message.events", &self.message),
            ("replay.details", &self.details),
            ("replay.initData", &self.init),
        ] {
            if let Some(x) = x {
                f.push((n, x.clone()));
            }
        }
        mpq::archive(Some(&self.header), &f)
    }
}
pub fn with_mpq<T>(bytes: &[u8], f: impl FnOnce(&s2protocol::MPQ) -> T) -> Result<T, String> {
    let (_, m) = s2protocol::parser::parse(bytes).map_err(|e| format!("the archive is not read: {e:?}"))?;
    Ok(f(&m))
}

// ---- expected JSON ----
#[derive(Clone, Copy, PartialEq)]
pub struct Style {
    /// field names without the leading `m_`
    pub strip: bool,
}
pub fn text(b: &[u8]) -> Option<String> {
    std::str::from_utf8(b).ok().map(|s| s.to_string())
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
impl Schema {
    pub fn json_type(&self, t: &str, v: &V, st: Style) -> J {
        match (self.td(t), v) {
            (TD::Int(..), V::Int(i)) => json!(i),
            (TD::User(u), v) => self.json_type(u, v, st),
            (TD::Str(_), V::Bytes(b)) => match text(b) {
                Some(s) => json!(s),
                None => json!(b),
            },
            (TD::Fixed(_), V::Bytes(b)) => json!(b),
            (TD::BitArr(_, true), V::Bits(n, b)) => json!(bits_as_int(*n, b)),
            (TD::BitArr(_, false), V::Bits(_, b)) => json!(b),
            (TD::Array(_, u), V::Arr(a)) => J::Array(a.iter().map(|x| self.json_type(u, x, st)).collect()),
            (TD::Enum(_, _, vs), V::Enum(i, p)) => {
                let (_, name, f) = &vs[*i];
                match f {
                    FT::Null => json!(name),
                    f => json!({name: self.json_ft(f, p, st)}),
                }
            }
            (TD::Struct(f), V::Struct(s)) => {
                let mut m = Map::new();
                for ((n, _, ft), x) in f.iter().zip(s) {
                    let n = if st.strip { n.strip_prefix("m_").unwrap_or(n) } else { n };
                    m.insert(n.to_string(), self.json_ft(ft, x, st));
                }
                J::Object(m)
            }
            (d, v) => panic!("no json of {v:?} as {d:?}"),
        }
    }
    pub fn json_ft(&self, f: &FT, v: &V, st: Style) -> J {
        match (f, v) {
            (FT::Bool, V::Bool(b)) => json!(b),
            (FT::FourCC, V::Bytes(b)) if self.versioned => json!(u32::from_be_bytes([b[0], b[1], b[2], b[3]])),
            (FT::FourCC, V::Bytes(b)) => json!(b),
            (FT::VBlob | FT::Blob(_), V::Bytes(b)) => match text(b) {
                Some(s) => json!(s),
                None => json!(b),
            },
            (FT::Int(..) | FT::Vlq(_), V::Int(i)) => json!(i),
            (FT::T(t), v) => self.json_type(t, v, st),
            (FT::Opt(t), V::Opt(x)) => match x {
                None => J::Null,
                Some(x) => self.json_ft(t, x, st),
            },
            (FT::Arr(_, t) | FT::VArr(t), V::Arr(a)) => J::Array(a.iter().map(|x| self.json_ft(t, x, st)).collect()),
            (FT::Null, _) => J::Null,
            (f, v) => panic!("no json of {v:?} as {f:?}"),
        }
    }
}

/// Compares an expected JSON form to the actual one. A one-field struct may stand for its field.
/// Returns whether the known finding (an empty bit-packed string reported as one NUL) was seen.
pub fn same_json(want: &J, got: &J, path: &str) -> Result<bool, String> {
    let fail = || Err(format!("{path}: got {got}, expected {want}"));
    match (want, got) {
        (J::Number(a), J::Number(b)) => {
            if a == b || (a.as_i64().is_some() && a.as_i64() == b.as_i64()) || (a.is_f64() && a.as_f64() == b.as_f64()) {
                Ok(false)
            } else {
                fail()
            }
        }
        (J::String(a), J::String(b)) if a == b => Ok(false),
        (J::String(a), J::String(b)) if a.is_empty() && b == "\0" => Ok(true),
        (J::Array(a), J::Array(b)) if a.is_empty() && b == &vec![json!(0)] && path.contains("allowed_") => Ok(true),
        (J::Array(a), J::Array(b)) if a.is_empty() && b == &vec![json!(0)] && path.ends_with("Mask.value") => Ok(true),
        (J::Array(a), J::Array(b)) => {
            if a.len() != b.len() {
                return Err(format!("{path}: got {} items, expected {}: got {got}, expected {want}", b.len(), a.len()));
            }
            let mut k = false;
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                k |= same_json(x, y, &format!("{path}[{i}]"))?;
            }
            Ok(k)
        }
        (J::Object(a), J::Object(b)) => {
            let ka: Vec<&String> = a.keys().collect();
            let kb: Vec<&String> = b.keys().collect();
            if a.len() == b.len() && ka.iter().all(|k| b.contains_key(*k)) {
                let mut k = false;
                for (n, x) in a {
                    k |= same_json(x, &b[n], &format!("{path}.{n}"))?;
                }
                return Ok(k);
            }
            Err(format!("{path}: fields {kb:?}, expected {ka:?}"))
        }
        (a, b) if a == b => Ok(false),
        _ => fail(),
    }
}
