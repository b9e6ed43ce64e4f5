//! The bit-packed ("unversioned") and the tagged ("versioned") wire schemas, as data.
//!
//! The schemas are frozen copies of what the Blizzard protocol descriptions say for the types the
//! library decodes. From a schema this module generates values, encodes them to the wire (an encoder
//! written independently of the library's decoder) and renders what a decoder must report.

use crate::engine::Gen;
use serde_json::Value as J;
use std::collections::HashMap;
use std::fmt::Write;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Int(i64),
    Bool(bool),
    Bytes(Vec<u8>),
    Null,
    Opt(Option<Box<V>>),
    Arr(Vec<V>),
    /// bit array: (number of bits, 8 bit chunks, the last one partial)
    Bits(usize, Vec<u8>),
    /// variant index in the schema, payload
    Enum(usize, Box<V>),
    Struct(Vec<V>),
}
impl V {
    pub fn int(&self) -> i64 {
        match self {
            V::Int(i) => *i,
            _ => panic!("not an int {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, V::Bool(true))
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            V::Bytes(b) => b,
            _ => panic!("not bytes {self:?}"),
        }
    }
    pub fn opt(&self) -> Option<&V> {
        match self {
            V::Opt(o) => o.as_deref(),
            _ => panic!("not opt {self:?}"),
        }
    }
    pub fn arr(&self) -> &[V] {
        match self {
            V::Arr(a) => a,
            _ => panic!("not arr {self:?}"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum FT {
    Bool,
    FourCC,
    Int(i64, usize),
    Blob(usize),
    Null,
    /// nothing on the wire, `()` in a report
    Unit,
    T(String),
    Opt(Box<FT>),
    Arr(usize, Box<FT>),
    // versioned only
    Vlq(&'static str),
    VBlob,
    VArr(Box<FT>),
}
#[derive(Clone, Debug)]
pub enum TD {
    Int(i64, usize),
    User(String),
    Str(usize),
    Fixed(usize),
    BitArr(usize, bool),
    Array(usize, String),
    Enum(Option<usize>, bool, Vec<(i64, String, FT)>),
    /// (name, tag, type)
    Struct(Vec<(String, i64, FT)>),
}
pub struct Schema {
    pub types: HashMap<String, TD>,
    /// whether blobs etc. are the tagged ones
    pub versioned: bool,
}

fn vlq_name(s: &str) -> &'static str {
    match s {
        "u8" => "u8",
        "u32" => "u32",
        "i32" => "i32",
        "i64" => "i64",
        "u64" => "u64",
        _ => panic!("vlq {s}"),
    }
}
fn ft(j: &J) -> FT {
    match j {
        J::Null => FT::Null,
        J::String(s) => match s.as_str() {
            "bool" | "parse_bool" => FT::Bool,
            "fourcc" => FT::FourCC,
            "take_null" => FT::Null,
            "blob" | "tagged_blob" => FT::VBlob,
            t => match t.strip_prefix("vlq:") {
                Some(v) => FT::Vlq(vlq_name(v)),
                None => FT::T(t.to_string()),
            },
        },
        J::Object(o) => {
            let (k, v) = o.iter().next().unwrap();
            match k.as_str() {
                "int" => FT::Int(v[0].as_i64().unwrap(), v[1].as_u64().unwrap() as usize),
                "t" => FT::T(v.as_str().unwrap().to_string()),
                "opt" => FT::Opt(Box::new(ft(v))),
                "blob" => FT::Blob(v.as_u64().unwrap() as usize),
                "vlq" => FT::Vlq(vlq_name(v.as_str().unwrap())),
                "arr" if v.is_array() => FT::Arr(v[0].as_u64().unwrap() as usize, Box::new(ft(&v[1]))),
                "arr" => FT::VArr(Box::new(ft(v))),
                k => panic!("field type {k}"),
            }
        }
        _ => panic!("field type {j}"),
    }
}
fn td(j: &J) -> TD {
    let bits = || j["bits"].as_u64().unwrap() as usize;
    match j["k"].as_str().unwrap() {
        "int" => TD::Int(j["off"].as_i64().unwrap(), bits()),
        "user" => TD::User(j["t"].as_str().unwrap().into()),
        "str" => TD::Str(bits()),
        "fixed" => TD::Fixed(j["n"].as_u64().unwrap() as usize),
        "bitarr" => TD::BitArr(bits(), j["repr"] == "i64"),
        "array" => TD::Array(j["bits"].as_u64().unwrap_or(30) as usize, j["t"].as_str().unwrap().into()),
        "enum" => TD::Enum(
            j["bits"].as_u64().map(|b| b as usize),
            j["tag"] == "choice",
            j["v"]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| (v[0].as_i64().unwrap(), v[1].as_str().unwrap().to_string(), if v[2].is_null() { FT::Null } else { ft(&v[2]) }))
                .collect(),
        ),
        "struct" => TD::Struct(
            j["f"]
                .as_array()
                .unwrap()
                .iter()
                .map(|f| {
                    let a = f.as_array().unwrap();
                    if a.len() == 3 {
                        (a[0].as_str().unwrap().into(), a[1].as_i64().unwrap(), ft(&a[2]))
                    } else {
                        (a[0].as_str().unwrap().into(), 0, ft(&a[1]))
                    }
                })
                .collect(),
        ),
        k => panic!("kind {k}"),
    }
}
/// Which variants carry an explicit null payload (`None(())`) rather than being a unit variant.
fn explicit_null(j: &J) -> bool {
    j == "take_null"
}

fn load(src: &[&str], versioned: bool) -> (Schema, HashMap<(String, String), bool>) {
    let mut types = HashMap::new();
    let mut nulls = HashMap::new();
    for s in src {
        let j: J = serde_json::from_str(s).unwrap();
        for (k, v) in j.as_object().unwrap() {
            types.insert(k.clone(), td(v));
            if v["k"] == "enum" {
                for x in v["v"].as_array().unwrap() {
                    nulls.insert((k.clone(), x[1].as_str().unwrap().to_string()), explicit_null(&x[2]));
                }
            }
        }
    }
    (Schema { types, versioned }, nulls)
}

pub struct Schemas {
    pub modern: Schema,
    pub legacy: Schema,
    pub versioned: Schema,
    nulls: HashMap<(String, String), bool>,
}
pub fn schemas() -> &'static Schemas {
    static S: OnceLock<Schemas> = OnceLock::new();
    S.get_or_init(|| {
        let m = include_str!("../schema/bit_modern.json");
        let o = include_str!("../schema/bit_legacy_overrides.json");
        let v = include_str!("../schema/versioned.json");
        let (modern, mut nulls) = load(&[m], false);
        let (legacy, n2) = load(&[m, o], false);
        let (versioned, n3) = load(&[v], true);
        nulls.extend(n2);
        nulls.extend(n3);
        Schemas { modern, legacy, versioned, nulls }
    })
}
pub fn modern() -> &'static Schema {
    &schemas().modern
}
pub fn legacy() -> &'static Schema {
    &schemas().legacy
}
pub fn versioned() -> &'static Schema {
    &schemas().versioned
}

/// Writes bit-packed data. Bits are used from the low end of every byte; the pieces of a number that
/// span bytes come most significant first.
#[derive(Default, Clone)]
pub struct BitW {
    pub bytes: Vec<u8>,
    /// bits used of the last byte, 0 when aligned
    pub used: usize,
}
impl BitW {
    fn piece(&mut self, v: u8, n: usize) {
        if n == 0 {
            return;
        }
        if self.used == 0 {
            self.bytes.push(0);
        }
        let last = self.bytes.last_mut().unwrap();
        *last |= v << self.used;
        self.used = (self.used + n) % 8;
    }
    pub fn bits(&mut self, v: u64, n: usize) {
        let mut left = n;
        while left > 0 {
            let room = 8 - self.used;
            let k = room.min(left);
            left -= k;
            let p = ((v >> left) & ((1u64 << k) - 1)) as u8;
            self.piece(p, k);
        }
    }
    pub fn align(&mut self) {
        self.used = 0;
    }
    pub fn raw(&mut self, b: &[u8]) {
        for x in b {
            self.bits(*x as u64, 8);
        }
    }
    pub fn pos(&self) -> usize {
        if self.used == 0 { self.bytes.len() * 8 } else { (self.bytes.len() - 1) * 8 + self.used }
    }
}

/// Reads bit-packed data, the reference counterpart of `BitW`.
pub struct BitR<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
impl BitR<'_> {
    pub fn bits(&mut self, n: usize) -> Option<u64> {
        let mut v = 0u64;
        let mut left = n;
        while left > 0 {
            let byte = *self.b.get(self.pos / 8)?;
            let used = self.pos % 8;
            let k = (8 - used).min(left);
            let p = ((byte >> used) as u64) & ((1u64 << k) - 1);
            v = if k == 64 { p } else { (v << k) | p };
            left -= k;
            self.pos += k;
        }
        Some(v)
    }
}

pub fn vlq(out: &mut Vec<u8>, v: i64) {
    let neg = v < 0;
    let mut m = (v as i128).unsigned_abs();
    let mut first = ((m & 0x3f) << 1) as u8 | neg as u8;
    m >>= 6;
    if m > 0 {
        first |= 0x80;
    }
    out.push(first);
    while m > 0 {
        let mut b = (m & 0x7f) as u8;
        m >>= 7;
        if m > 0 {
            b |= 0x80;
        }
        out.push(b);
    }
}

/// How values are generated.
#[derive(Clone, Copy)]
pub struct Cfg {
    /// the longest array or string that is usual
    pub max_len: usize,
    /// probability (in 1/64) of a longer one
    pub long: u64,
    /// whether text is valid UTF-8
    pub utf8: bool,
    /// whether versioned optional array/strings are usually present
    pub depth_cut: usize,
}
pub const CFG: Cfg = Cfg { max_len: 4, long: 1, utf8: false, depth_cut: 5 };
pub const TEXT: Cfg = Cfg { max_len: 4, long: 1, utf8: true, depth_cut: 5 };

fn gen_len(g: &mut Gen, c: &Cfg, max: u64) -> usize {
    let n = if g.chance(c.long, 64) {
        match g.below(8) {
            6 => 300 + g.below(1800),
            7 => max.min(600), // as long as its length field allows
            _ => g.below(300),
        }
    } else {
        g.below(c.max_len as u64 + 1)
    };
    n.min(max) as usize
}
pub fn gen_text(g: &mut Gen, n: usize) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        match g.below(8) {
            6 if left >= 2 => s.push(*g.pick(&['é', 'ß', 'Ж'])),
            7 if left >= 3 => s.push(*g.pick(&['漢', '한', '€'])),
            5 if g.chance(1, 4) => s.push(*g.pick(&[' ', ' ', '\t', 'A', 'Z', '0', '9', '<', '>', '&', ';', '"', '\\', '/', '.', '~', '\n'])),
            _ => s.push((b'a' + g.below(26) as u8) as char),
        }
    }
    s.into_bytes()
}
fn gen_bytes(g: &mut Gen, c: &Cfg, max: u64) -> Vec<u8> {
    let n = gen_len(g, c, max);
    if c.utf8 { gen_text(g, n) } else if g.bool() { gen_text(g, n) } else { g.bytes_n(n) }
}
fn maxlen(bits: usize) -> u64 {
    if bits >= 32 { u32::MAX as u64 } else { (1u64 << bits) - 1 }
}
fn ranged(g: &mut Gen, k: &str) -> i64 {
    match k {
        "u8" => g.bits(8) as i64,
        "u32" => g.bits(32) as i64,
        "i32" => g.bits(32) as u32 as i32 as i64,
        "i64" => {
            let v = g.bits(63) as i64;
            if g.bool() { -v } else { v }
        }
        // the wire number is read as i64 before it is narrowed
        "u64" => g.bits(63) as i64,
        _ => unreachable!(),
    }
}

impl Schema {
    pub fn td(&self, t: &str) -> &TD {
        self.types.get(t).unwrap_or_else(|| panic!("no type {t}"))
    }
    pub fn fields(&self, t: &str) -> &[(String, i64, FT)] {
        match self.td(t) {
            TD::Struct(f) => f,
            _ => panic!("{t} is not a struct"),
        }
    }
    pub fn variants(&self, t: &str) -> &[(i64, String, FT)] {
        match self.td(t) {
            TD::Enum(_, _, v) => v,
            _ => panic!("{t} is not an enum"),
        }
    }
    pub fn variant(&self, t: &str, name: &str) -> usize {
        self.variants(t).iter().position(|v| v.1 == name).unwrap_or_else(|| panic!("{t}::{name}"))
    }
    /// Field of a struct value.
    pub fn get<'a>(&self, t: &str, v: &'a V, f: &str) -> &'a V {
        let i = self.fields(t).iter().position(|x| x.0 == f).unwrap_or_else(|| panic!("{t}.{f}"));
        match v {
            V::Struct(s) => &s[i],
            _ => panic!("not a struct"),
        }
    }
    pub fn set(&self, t: &str, v: &mut V, f: &str, n: V) {
        let i = self.fields(t).iter().position(|x| x.0 == f).unwrap_or_else(|| panic!("{t}.{f}"));
        match v {
            V::Struct(s) => s[i] = n,
            _ => panic!("not a struct"),
        }
    }

    // ---- generation ----
    pub fn gen_type(&self, g: &mut Gen, t: &str, c: &Cfg) -> V {
        match self.td(t) {
            TD::Int(off, bits) => V::Int(off.wrapping_add(g.bits(*bits) as i64)),
            TD::User(t) => self.gen_type(g, t, c),
            TD::Str(bits) => V::Bytes(gen_bytes(g, c, maxlen(*bits))),
            TD::Fixed(n) => V::Bytes(g.bytes_n(*n)),
            TD::BitArr(bits, as_int) => {
                let cap = maxlen(*bits).min(if *as_int { 64 } else { 600 });
                let n = if *as_int {
                    g.below(cap + 1) as usize
                } else if g.chance(1, 8) {
                    g.below(cap + 1) as usize
                } else {
                    g.below(20.min(cap) + 1) as usize
                };
                gen_bits(g, n)
            }
            TD::Array(bits, t) => {
                let n = gen_len(g, &self.narrow(c), maxlen(*bits));
                V::Arr((0..n).map(|_| self.gen_type(g, t, &self.narrow(c))).collect())
            }
            TD::Enum(_, _, v) => {
                let i = g.idx(v.len());
                V::Enum(i, Box::new(self.gen_ft(g, &v[i].2, c)))
            }
            TD::Struct(f) => V::Struct(f.iter().map(|(_, _, t)| self.gen_ft(g, t, c)).collect()),
        }
    }
    fn narrow(&self, c: &Cfg) -> Cfg {
        Cfg { max_len: (c.max_len).max(2) - 1, long: if c.depth_cut > 3 { c.long } else { 0 }, depth_cut: c.depth_cut.saturating_sub(1), ..*c }
    }
    pub fn gen_ft(&self, g: &mut Gen, f: &FT, c: &Cfg) -> V {
        match f {
            FT::Bool => V::Bool(g.bool()),
            FT::FourCC => V::Bytes(g.bytes_n(4)),
            FT::Int(off, bits) => V::Int(off.wrapping_add(g.bits(*bits) as i64)),
            FT::Blob(bits) => V::Bytes(gen_bytes(g, c, maxlen(*bits))),
            FT::Null | FT::Unit => V::Null,
            FT::T(t) => self.gen_type(g, t, c),
            FT::Opt(t) => {
                if g.chance(2, 3) { V::Opt(Some(Box::new(self.gen_ft(g, t, c)))) } else { V::Opt(None) }
            }
            FT::Arr(bits, t) => {
                let n = gen_len(g, &self.narrow(c), maxlen(*bits));
                V::Arr((0..n).map(|_| self.gen_ft(g, t, &self.narrow(c))).collect())
            }
            FT::Vlq(k) => V::Int(ranged(g, k)),
            FT::VBlob => V::Bytes(gen_bytes(g, c, 400)),
            FT::VArr(t) => {
                let n = gen_len(g, &self.narrow(c), 400);
                V::Arr((0..n).map(|_| self.gen_ft(g, t, &self.narrow(c))).collect())
            }
        }
    }

    // ---- bit-packed encoding ----
    pub fn enc_type(&self, w: &mut BitW, t: &str, v: &V) {
        match (self.td(t), v) {
            (TD::Int(off, bits), V::Int(i)) => w.bits(i.wrapping_sub(*off) as u64, *bits),
            (TD::User(t), v) => self.enc_type(w, t, v),
            (TD::Str(bits), V::Bytes(b)) => {
                w.bits(b.len() as u64, *bits);
                w.align();
                w.raw(b);
            }
            (TD::Fixed(_), V::Bytes(b)) => {
                w.align();
                w.raw(b);
            }
            (TD::BitArr(bits, as_int), V::Bits(n, b)) => {
                w.bits(*n as u64, *bits);
                if *as_int { w.bits(bits_as_int(*n, b) as u64, *n) } else { enc_bits(w, *n, b) }
            }
            (TD::Array(bits, t), V::Arr(a)) => {
                w.bits(a.len() as u64, *bits);
                for x in a {
                    self.enc_type(w, t, x);
                }
            }
            (TD::Enum(Some(bits), _, vs), V::Enum(i, p)) => {
                w.bits(vs[*i].0 as u64, *bits);
                self.enc_ft(w, &vs[*i].2, p);
            }
            (TD::Struct(f), V::Struct(s)) => {
                for ((_, _, t), x) in f.iter().zip(s) {
                    self.enc_ft(w, t, x);
                }
            }
            (d, v) => panic!("cannot encode {v:?} as {d:?}"),
        }
    }
    pub fn enc_ft(&self, w: &mut BitW, f: &FT, v: &V) {
        match (f, v) {
            (FT::Bool, V::Bool(b)) => w.bits(*b as u64, 1),
            (FT::FourCC, V::Bytes(b)) => w.raw(b),
            (FT::Int(off, bits), V::Int(i)) => w.bits(i.wrapping_sub(*off) as u64, *bits),
            (FT::Blob(bits), V::Bytes(b)) => {
                w.bits(b.len() as u64, *bits);
                w.align();
                w.raw(b);
            }
            (FT::Null | FT::Unit, _) => {}
            (FT::T(t), v) => self.enc_type(w, t, v),
            (FT::Opt(t), V::Opt(o)) => {
                w.bits(o.is_some() as u64, 1);
                if let Some(x) = o {
                    self.enc_ft(w, t, x);
                }
            }
            (FT::Arr(bits, t), V::Arr(a)) => {
                w.bits(a.len() as u64, *bits);
                for x in a {
                    self.enc_ft(w, t, x);
                }
            }
            (f, v) => panic!("cannot encode {v:?} as {f:?}"),
        }
    }

    // ---- tagged encoding; `g` chooses the field order and which absent optionals are written ----
    pub fn venc_type(&self, g: &mut Gen, w: &mut Vec<u8>, t: &str, v: &V) {
        match (self.td(t), v) {
            (TD::Struct(f), V::Struct(s)) => {
                // (tag, encoded value)
                let mut fields: Vec<(i64, Vec<u8>)> = vec![];
                for ((_, tag, t), x) in f.iter().zip(s) {
                    if let (FT::Opt(_), V::Opt(None)) = (t, x) {
                        // an absent optional may be left out altogether
                        if g.bool() {
                            continue;
                        }
                    }
                    let mut o = vec![];
                    self.venc_ft(g, &mut o, t, x);
                    fields.push((*tag, o));
                }
                // Usually in order; otherwise any permutation.
                if g.chance(1, 3) {
                    for i in (1..fields.len()).rev() {
                        let j = g.idx(i + 1);
                        fields.swap(i, j);
                    }
                }
                w.push(5);
                vlq(w, fields.len() as i64);
                for (tag, o) in fields {
                    vlq(w, tag);
                    w.extend(o);
                }
            }
            (TD::Enum(_, choice, vs), V::Enum(i, p)) => {
                w.push(if *choice { 3 } else { 9 });
                vlq(w, vs[*i].0);
                if !matches!(vs[*i].2, FT::Null) {
                    self.venc_ft(g, w, &vs[*i].2, p);
                }
            }
            (TD::User(t), v) => self.venc_type(g, w, t, v),
            (TD::Array(_, t), V::Arr(a)) => {
                w.push(0);
                vlq(w, a.len() as i64);
                for x in a {
                    self.venc_type(g, w, t, x);
                }
            }
            (d, v) => panic!("cannot encode {v:?} as {d:?}"),
        }
    }
    pub fn venc_ft(&self, g: &mut Gen, w: &mut Vec<u8>, f: &FT, v: &V) {
        match (f, v) {
            (FT::Bool, V::Bool(b)) => {
                w.push(6);
                // any non-zero byte is true
                w.push(if *b { if g.chance(1, 4) { 1 + g.below(255) as u8 } else { 1 } } else { 0 });
            }
            (FT::FourCC, V::Bytes(b)) => {
                w.push(7);
                w.extend(b);
            }
            (FT::Vlq(_), V::Int(i)) => {
                w.push(9);
                vlq(w, *i);
            }
            (FT::VBlob, V::Bytes(b)) => {
                w.push(2);
                vlq(w, b.len() as i64);
                w.extend(b);
            }
            (FT::T(t), v) => self.venc_type(g, w, t, v),
            (FT::Opt(t), V::Opt(o)) => {
                w.push(4);
                w.push(o.is_some() as u8);
                if let Some(x) = o {
                    self.venc_ft(g, w, t, x);
                }
            }
            (FT::VArr(t), V::Arr(a)) => {
                w.push(0);
                vlq(w, a.len() as i64);
                for x in a {
                    self.venc_ft(g, w, t, x);
                }
            }
            (f, v) => panic!("cannot encode {v:?} as {f:?}"),
        }
    }

    // ---- rendering: what the `Debug` form of the decoded value must be ----
    pub fn dbg_type(&self, o: &mut String, t: &str, v: &V) {
        match (self.td(t), v) {
            (TD::Int(..), V::Int(i)) => write!(o, "{t} {{ value: {i} }}").unwrap(),
            (TD::User(u), v) => {
                write!(o, "{t} {{ value: ").unwrap();
                self.dbg_type(o, u, v);
                o.push_str(" }");
            }
            (TD::Str(_) | TD::Fixed(_), V::Bytes(b)) => write!(o, "{t} {{ value: {:?} }}", nul(b)).unwrap(),
            (TD::BitArr(_, true), V::Bits(n, b)) => write!(o, "{t} {{ value: {} }}", bits_as_int(*n, b)).unwrap(),
            (TD::BitArr(_, false), V::Bits(_, b)) => write!(o, "{t} {{ value: {:?} }}", nul(b)).unwrap(),
            (TD::Array(_, u), V::Arr(a)) => {
                write!(o, "{t} {{ value: [").unwrap();
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    self.dbg_type(o, u, x);
                }
                o.push_str("] }");
            }
            (TD::Enum(_, _, vs), V::Enum(i, p)) => {
                let (_, name, f) = &vs[*i];
                o.push_str(name);
                match f {
                    FT::Null => {
                        if schemas().nulls.get(&(t.to_string(), name.clone())) == Some(&true) {
                            o.push_str("(())");
                        }
                    }
                    f => {
                        o.push('(');
                        self.dbg_ft(o, f, p);
                        o.push(')');
                    }
                }
            }
            (TD::Struct(f), V::Struct(s)) => {
                o.push_str(t);
                if f.is_empty() {
                    return;
                }
                o.push_str(" { ");
                for (i, ((n, _, ft), x)) in f.iter().zip(s).enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    write!(o, "{n}: ").unwrap();
                    self.dbg_ft(o, ft, x);
                }
                o.push_str(" }");
            }
            (d, v) => panic!("cannot render {v:?} as {d:?}"),
        }
    }
    pub fn dbg_ft(&self, o: &mut String, f: &FT, v: &V) {
        match (f, v) {
            (FT::Bool, V::Bool(b)) => write!(o, "{b}").unwrap(),
            (FT::FourCC, V::Bytes(b)) if self.versioned => write!(o, "{}", u32::from_be_bytes([b[0], b[1], b[2], b[3]])).unwrap(),
            (FT::FourCC | FT::VBlob, V::Bytes(b)) => write!(o, "{b:?}").unwrap(),
            (FT::Blob(_), V::Bytes(b)) => write!(o, "{:?}", nul(b)).unwrap(),
            (FT::Int(..) | FT::Vlq(_), V::Int(i)) => write!(o, "{i}").unwrap(),
            (FT::T(t), v) => self.dbg_type(o, t, v),
            (FT::Opt(t), V::Opt(x)) => match x {
                None => o.push_str("None"),
                Some(x) => {
                    o.push_str("Some(");
                    self.dbg_ft(o, t, x);
                    o.push(')');
                }
            },
            (FT::Arr(_, t) | FT::VArr(t), V::Arr(a)) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    self.dbg_ft(o, t, x);
                }
                o.push(']');
            }
            (FT::Null | FT::Unit, _) => o.push_str("()"),
            (f, v) => panic!("cannot render {v:?} as {f:?}"),
        }
    }
    pub fn debug(&self, t: &str, v: &V) -> String {
        let mut o = String::new();
        self.dbg_type(&mut o, t, v);
        o
    }
}

pub fn gen_bits(g: &mut Gen, n: usize) -> V {
    let mut left = n;
    let mut b = vec![];
    while left > 0 {
        let k = left.min(8);
        b.push(g.below(1 << k) as u8);
        left -= k;
    }
    V::Bits(n, b)
}
/// The 8 bit chunks of a bit array. A chunk that spans two bytes has its high part first.
pub fn enc_bits(w: &mut BitW, n: usize, b: &[u8]) {
    let mut left = n;
    for x in b {
        let k = left.min(8);
        w.bits(*x as u64, k);
        left -= k;
    }
}
/// The number a bit array is when it is reported as one number.
pub fn bits_as_int(n: usize, b: &[u8]) -> i64 {
    let mut v = 0u64;
    let mut left = n;
    for x in b {
        let k = left.min(8);
        v = if k == 64 { *x as u64 } else { (v << k) | *x as u64 };
        left -= k;
    }
    v as i64
}

pub const NUL_MARK: &str = "\u{1}NUL\u{1}";
/// Known finding: an empty bit-packed string is reported as one NUL byte. An empty value renders as a
/// list that `matches_debug` lets be either `[]` or `[0]`.
pub struct NulOr<'a>(&'a [u8]);
impl std::fmt::Debug for NulOr<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0.is_empty() { f.write_str(NUL_MARK) } else { write!(f, "{:?}", self.0) }
    }
}
fn nul(b: &[u8]) -> NulOr<'_> {
    NulOr(b)
}
/// Compares the rendered expectation to the actual form. Ok(true) when the known finding was seen.
pub fn matches_debug(expected: &str, actual: &str) -> Result<bool, String> {
    if !expected.contains(NUL_MARK) {
        return if expected == actual { Ok(false) } else { Err(diff(expected, actual)) };
    }
    let mut known = false;
    let mut rest = actual;
    let parts: Vec<&str> = expected.split(NUL_MARK).collect();
    for (i, p) in parts.iter().enumerate() {
        match rest.strip_prefix(p) {
            Some(r) => rest = r,
            None => return Err(diff(&expected.replace(NUL_MARK, "[]"), actual)),
        }
        if i + 1 < parts.len() {
            if let Some(r) = rest.strip_prefix("[0]") {
                known = true;
                rest = r;
            } else if let Some(r) = rest.strip_prefix("[]") {
                rest = r;
            } else {
                return Err(diff(&expected.replace(NUL_MARK, "[]"), actual));
            }
        }
    }
    if rest.is_empty() { Ok(known) } else { Err(diff(&expected.replace(NUL_MARK, "[]"), actual)) }
}
pub fn diff(expected: &str, actual: &str) -> String {
    let i = expected.bytes().zip(actual.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let mut a = i.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        let mut e = (i + 120).min(s.len());
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s[a..e].to_string()
    };
    format!("expected …{}… got …{}…", cut(expected), cut(actual))
}
pub const KNOWN_NUL: &str = "an empty bit-packed string or bit array decodes as one NUL byte";
