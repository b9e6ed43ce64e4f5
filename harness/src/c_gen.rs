//! C26: the protocol generator. Random protocol descriptions are given to the generator, what it
//! writes is compiled against the library, and the generated parsers are run on encoded values.
use crate::engine::*;
use crate::schema::*;
use crate::{Property, ensure};
use s2protocol::generator::ProtoMorphist;
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C26",
        rule: "random protocol descriptions (integers, other names, bit arrays, texts, blobs, lists, enumerations with and without tagged events, choices, structs with required, optional and repeated fields, in any order) given to the generator; the module it writes is compiled against the library, and each generated parser reads random values encoded as described, from any start bit, and malformed ones; non-trivial: every value (distinct by type and bytes)",
        assumptions: &[
            "the kinds of declarations the generator supports, with sizes at which its estimate of a text's or a list's length field is the protocol's (the README says that others are miscalculated)",
            "generated code is compiled with a `count` in the manner of nom 7, for which the generator writes (its documentation says that code is adapted by hand)",
        ],
        checks: vec![check("generated", c26_generated, 8, 15)],
    }]
}

// ---------------------------------------------------------------- descriptions
/// A random description, with what it means.
struct Proto {
    json: J,
    byte: Schema,
    bit: Schema,
    /// types that each module must have
    byte_types: Vec<String>,
    bit_types: Vec<String>,
}
/// The name of a type in Rust.
fn rust(n: &str) -> String {
    match n {
        "NNet.SMD5" => "Smd5".into(),
        _ => {
            let s = n.replace("NNet", "").replace('.', "");
            s[..1].to_uppercase() + &s[1..]
        }
    }
}
fn snake(n: &str) -> String {
    let mut o = String::new();
    for c in n.chars() {
        if c.is_uppercase() {
            o.push('_');
        }
        o.extend(c.to_lowercase());
    }
    o
}
/// `e_fooBar`, `m_fooBar` as a variant.
fn pascal(n: &str) -> String {
    let mut o = String::new();
    let mut up = true;
    for c in n.chars() {
        if c == '_' {
            up = true;
        } else if up {
            o.extend(c.to_uppercase());
            up = false;
        } else {
            o.push(c);
        }
    }
    o
}
fn bitlen(n: u64) -> usize {
    64 - n.leading_zeros() as usize
}

const WORDS: &[&str] = &["Alpha", "Unit", "Player", "Target", "Queue", "Camera", "Team", "Slot", "Lobby", "Score", "Value", "Group", "Point", "Delta", "Mask", "Name", "Flags", "Handle", "Index", "Order"];
struct B<'a> {
    g: &'a mut Gen,
    used: std::collections::HashSet<String>,
    /// declarations by full name
    decls: HashMap<String, J>,
    bit: HashMap<String, TD>,
    byte: HashMap<String, TD>,
}
type Tag = (String, String);
impl B<'_> {
    fn word(&mut self) -> String {
        let n = 1 + self.g.idx(3);
        (0..n).map(|_| *self.g.pick(WORDS)).collect()
    }
    fn fresh(&mut self, prefix: &str, suffix: &str) -> String {
        loop {
            let n = format!("{prefix}{}{suffix}", self.word());
            if self.used.insert(rust(&n)) {
                return n;
            }
        }
    }
    fn names(&mut self, prefix: &str, n: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        while v.len() < n {
            let w = self.word();
            let w = format!("{prefix}{}{}", w[..1].to_lowercase(), &w[1..]);
            if !v.contains(&w) {
                v.push(w);
            }
        }
        v
    }
    fn decl(&mut self, full: &str, info: J) {
        self.used.insert(rust(full));
        self.decls.insert(full.into(), json!({"type": "TypeDecl", "name": full.rsplit('.').next().unwrap(), "fullname": full, "type_info": info}));
    }
    /// An upper bound that needs `bits` bits; `safe`: whatever way the inclusive bound is counted.
    fn upper(&mut self, bits: usize, safe: bool) -> (u64, J) {
        let (lo, hi) = if bits == 1 { (1, 1) } else { (1u64 << (bits - 1), (1u64 << bits) - 1) };
        let incl = self.g.bool() && !(safe && bits == 1);
        if incl {
            let hi = if safe { hi - 1 } else { hi };
            let m = lo + self.g.below(hi - lo + 1);
            (m, json!({"type": "IntLiteral", "evalue": m.to_string(), "inclusive": true, "value": {"type": "IntLiteral", "value": m.to_string()}}))
        } else {
            // exclusive; a power of two would be counted differently by some
            let m = if safe { lo + self.g.below(hi - lo + 1).min(hi.saturating_sub(1) - lo.min(hi.saturating_sub(1))) } else { lo + self.g.below(hi - lo + 1) };
            let m = if safe && bits == 1 { 1 } else { m };
            if safe && bits == 1 {
                // only 1 itself, which is not safe when exclusive: say it inclusively in a way both agree on
                return (1, json!({"type": "IntLiteral", "evalue": "1", "value": {"type": "IntLiteral", "value": "1"}}));
            }
            (m, json!({"type": "IntLiteral", "evalue": (m + 1).to_string(), "inclusive": false, "value": {"type": "IntLiteral", "value": (m + 1).to_string()}}))
        }
    }
    /// Bounds of a number, its bias and width.
    fn int(&mut self, field: bool) -> (J, i64, usize) {
        let min = |m: i64| json!({"type": "IntLiteral", "evalue": m.to_string(), "inclusive": true});
        match self.g.below(if field { 2 } else { 6 }) {
            0 | 1 => {
                let wide = if self.g.chance(1, 4) { 44 } else { 20 };
        let bits = 1 + self.g.idx(wide);
                let (m, max) = self.upper(bits, false);
                // a bias that does not change the width
                let off = if self.g.chance(1, 3) { self.g.below(m - (1 << (bits - 1)) + 1).min(7) } else { 0 };
                (json!({"type": "MinMaxConstraint", "min": min(off as i64), "max": max}), off as i64, bits)
            }
            2 => {
                let wide = if self.g.chance(1, 4) { 44 } else { 20 };
        let bits = 1 + self.g.idx(wide);
                let m = (1i64 << bits) - 1;
                (json!({"type": "MinMaxConstraint", "min": min(-m - 1), "max": {"evalue": m.to_string(), "inclusive": true, "value": {"type": "IntLiteral", "value": m.to_string()}}}), -m - 1, bits + 1)
            }
            3 => {
                let bits = *self.g.pick(&[7usize, 15, 31, 63, 3, 40, 62]);
                let m = -(1i128 << bits);
                (json!({"type": "MinMaxConstraint", "min": min(m as i64), "max": {"evalue": (-m).to_string(), "inclusive": false, "value": {"type": "PowExpr", "lhs": {"type": "IntLiteral", "value": "2"}, "rhs": {"type": "IntLiteral", "value": bits.to_string()}}}}), m as i64, bits + 1)
            }
            _ => {
                let bits = *self.g.pick(&[8usize, 16, 32, 64, 6, 14, 22, 1, 5, 63, 33]);
                (json!({"type": "MinMaxConstraint", "min": min(0), "max": {"evalue": (1u128 << bits).to_string(), "inclusive": false, "value": {"type": "PowExpr", "lhs": {"type": "IntLiteral", "value": "2"}, "rhs": {"type": "IntLiteral", "value": bits.to_string()}}}}), 0, bits)
            }
        }
    }
    fn make_int(&mut self, full: &str) {
        let (b, off, bits) = self.int(false);
        let t = if self.g.chance(1, 8) { "InumType" } else { "IntType" };
        self.decl(full, json!({"type": t, "bounds": b}));
        self.bit.insert(rust(full), TD::Int(off, bits));
    }
    fn make_user(&mut self, full: &str, to: &str) {
        self.decl(full, json!({"type": "UserType", "fullname": to}));
        self.bit.insert(rust(full), TD::User(rust(to)));
    }
    fn make_string(&mut self, full: &str) {
        let wide = if self.g.chance(1, 4) { 16 } else { 9 };
        let bits = 2 + self.g.idx(wide);
        let (_, max) = self.upper(bits, true);
        self.decl(full, json!({"type": "StringType", "bounds": {"type": "MinMaxConstraint", "min": {"evalue": "0", "inclusive": true}, "max": max}}));
        self.bit.insert(rust(full), TD::Str(bits + 2));
    }
    fn make_blob(&mut self, full: &str) {
        let n = 1 + self.g.idx(48);
        let b = json!({"evalue": n.to_string(), "inclusive": true});
        self.decl(full, json!({"type": "BlobType", "bounds": {"type": "ExactConstraint", "min": b, "max": b}}));
        self.bit.insert(rust(full), TD::Fixed(n));
    }
    fn make_bits(&mut self, full: &str) {
        let wide = if self.g.chance(1, 4) { 24 } else { 9 };
        let bits = 1 + self.g.idx(wide);
        let (_, max) = self.upper(bits, false);
        self.decl(full, json!({"type": "BitArrayType", "bounds": {"type": "MinMaxConstraint", "min": {"evalue": "0", "inclusive": true}, "max": max}}));
        self.bit.insert(rust(full), TD::BitArr(bits, false));
    }
    fn make_array(&mut self, full: &str, of: &str) {
        let wide = if self.g.chance(1, 4) { 16 } else { 9 };
        let bits = 2 + self.g.idx(wide);
        let (_, max) = self.upper(bits, true);
        let t = *self.g.pick(&["ArrayType", "DynArrayType"]);
        self.decl(full, json!({"type": t, "bounds": {"type": "MinMaxConstraint", "min": {"evalue": "0", "inclusive": true}, "max": max}, "element_type": {"type": "UserType", "fullname": of}}));
        self.bit.insert(rust(full), TD::Array(bits, rust(of)));
        self.byte.insert(rust(full), TD::Array(30, rust(of)));
    }
    /// `tags`: what follows variants with a tagged struct.
    fn make_enum(&mut self, full: &str, names: &[String], tagged: &HashMap<String, String>) {
        let n = names.len();
        let bits = if n <= 1 { 0 } else { bitlen(n as u64 - 1) };
        // distinct values that fit; mostly in order
        let mut vals: Vec<u64> = (0..1u64 << bits).collect();
        if self.g.chance(1, 3) {
            for i in (1..vals.len()).rev() {
                let j = self.g.idx(i + 1);
                vals.swap(i, j);
            }
        }
        let fields: Vec<J> = names.iter().zip(&vals).map(|(n, v)| json!({"name": n, "type": "EnumField", "value": {"type": "IntLiteral", "value": v.to_string()}})).collect();
        self.decl(full, json!({"type": "EnumType", "fields": fields}));
        let vs: Vec<(i64, String, FT)> = names
            .iter()
            .zip(&vals)
            .map(|(n, v)| (*v as i64, pascal(n), tagged.get(n).map_or(FT::Null, |t| FT::T(rust(t)))))
            .collect();
        self.bit.insert(rust(full), TD::Enum(Some(bits), false, vs.clone()));
        self.byte.insert(rust(full), TD::Enum(None, false, vs));
    }
    /// A field type that only bit packed data has.
    fn bit_field(&mut self, pool: &[String]) -> (J, FT) {
        let user = |g: &mut Gen| {
            let t = g.pick(pool).clone();
            (json!({"type": "UserType", "fullname": t}), FT::T(rust(&t)))
        };
        match self.g.below(9) {
            0 => (json!({"type": "BoolType"}), FT::Bool),
            1 => (json!({"type": "FourCCType"}), FT::FourCC),
            2 => {
                let (b, off, bits) = self.int(true);
                (json!({"type": "IntType", "bounds": b}), FT::Int(off, bits))
            }
            3 => {
                let (j, f) = self.list(pool, true);
                (j, f)
            }
            4 | 5 => {
                let (j, f) = match self.g.below(5) {
                    0 => (json!({"type": "BoolType"}), FT::Bool),
                    1 => {
                        let (b, off, bits) = self.int(true);
                        (json!({"type": "IntType", "bounds": b}), FT::Int(off, bits))
                    }
                    2 => self.list(pool, false),
                    3 => (json!({"type": "FourCCType"}), FT::FourCC),
                    _ => user(self.g),
                };
                (json!({"type": "OptionalType", "type_info": j}), FT::Opt(Box::new(f)))
            }
            _ => user(self.g),
        }
    }
    fn list(&mut self, pool: &[String], dynamic: bool) -> (J, FT) {
        let wide = if self.g.chance(1, 4) { 18 } else { 8 };
        let bits = 1 + self.g.idx(wide);
        let (lo, hi) = (1u64 << (bits - 1), (1u64 << bits) - 1);
        let m = lo + self.g.below(hi - lo + 1);
        let t = self.g.pick(pool).clone();
        let k = if dynamic && self.g.bool() { "DynArrayType" } else { "ArrayType" };
        (
            json!({"type": k, "bounds": {"type": "MinMaxConstraint", "min": {"evalue": "0", "inclusive": true}, "max": {"evalue": m.to_string(), "inclusive": true}}, "element_type": {"type": "UserType", "fullname": t}}),
            FT::Arr(bits, Box::new(FT::T(rust(&t)))),
        )
    }
    /// A field type that tagged data has, and what it is in bit packed data if that has it, too.
    fn byte_field(&mut self, pool: &[(String, FT)], dual: bool) -> (J, FT, FT) {
        let (j, f, b) = match self.g.below(8) {
            0 => (json!({"type": "BoolType"}), FT::Bool, FT::Bool),
            1 => (json!({"type": "FourCCType"}), FT::FourCC, FT::FourCC),
            2 if !dual => match self.g.below(4) {
                0 => (json!({"type": "BlobType"}), FT::VBlob, FT::Null),
                1 => (json!({"type": "StringType"}), FT::VBlob, FT::Null),
                2 => (json!({"type": "UserType", "fullname": "NNet.Replay.CSignature"}), FT::VBlob, FT::Null),
                _ => (json!({"type": "UserType", "fullname": "NNet.Replay.Tracker.CatalogName"}), FT::VBlob, FT::Null),
            },
            3 => {
                let bits = 1 + self.g.idx(8);
                let m = 1u64 << (bits - 1);
                let (t, f) = self.g.pick(pool).clone();
                if matches!(f, FT::VArr(_)) {
                    (json!({"type": "UserType", "fullname": t}), f, FT::T(rust(&t)))
                } else {
                    let b = FT::Arr(bits, Box::new(FT::T(rust(&t))));
                    (
                        json!({"type": "ArrayType", "bounds": {"type": "MinMaxConstraint", "min": {"evalue": "0", "inclusive": true}, "max": {"evalue": m.to_string(), "inclusive": true}}, "element_type": {"type": "UserType", "fullname": t}}),
                        FT::VArr(Box::new(f)),
                        b,
                    )
                }
            }
            _ => {
                let (t, f) = self.g.pick(pool).clone();
                (json!({"type": "UserType", "fullname": t}), f, FT::T(rust(&t)))
            }
        };
        if self.g.chance(1, 3) {
            return (json!({"type": "OptionalType", "type_info": j}), FT::Opt(Box::new(f)), FT::Opt(Box::new(b)));
        }
        (j, f, b)
    }
    fn consts(&mut self, tags: &[Tag]) -> Vec<J> {
        tags.iter()
            .map(|(e, v)| json!({"type": "ConstDecl", "name": "EVENT_ID", "type_info": {"type": "UserType", "fullname": e}, "value": {"type": "IdentifierExpr", "fullname": format!("{e}.{v}")}}))
            .collect()
    }
    fn make_bit_struct(&mut self, full: &str, pool: &[String], tags: &[Tag]) {
        let n = if self.g.chance(1, 8) { 0 } else { 1 + self.g.idx(6) };
        let names = self.names("m_", n);
        let mut fields = self.consts(tags);
        let mut fs = vec![];
        for (i, n) in names.iter().enumerate() {
            let (j, f) = self.bit_field(pool);
            fields.push(json!({"type": "MemberStructField", "name": n, "type_info": j, "tag": {"type": "IntLiteral", "value": i.to_string()}}));
            fs.push((snake(n), 0, f));
        }
        self.decl(full, json!({"type": "StructType", "fields": fields}));
        self.bit.insert(rust(full), TD::Struct(fs));
    }
    fn make_byte_struct(&mut self, full: &str, pool: &[(String, FT)], tags: &[Tag], dual: bool) {
        let n = 1 + self.g.idx(6);
        let names = self.names("m_", n);
        let mut fields = self.consts(tags);
        let (mut fs, mut bs) = (vec![], vec![]);
        let mut nums: Vec<i64> = (0..n as i64 + 3).collect();
        if self.g.bool() {
            nums.iter_mut().for_each(|x| *x *= 9);
        }
        for n in &names {
            let tag = nums.remove(if self.g.chance(1, 3) { self.g.idx(nums.len()) } else { 0 });
            let (j, f, b) = self.byte_field(pool, dual);
            fields.push(json!({"type": "MemberStructField", "name": n, "type_info": j, "tag": {"type": "IntLiteral", "value": tag.to_string()}}));
            fs.push((snake(n), tag, f));
            bs.push((snake(n), 0, b));
        }
        self.decl(full, json!({"type": "StructType", "fields": fields}));
        self.byte.insert(rust(full), TD::Struct(fs));
        if dual {
            self.bit.insert(rust(full), TD::Struct(bs));
        }
    }
    fn make_choice(&mut self, full: &str, pool: &[String]) {
        let (info, td) = self.choice(pool);
        self.decl(full, info);
        self.bit.insert(rust(full), td);
    }
    fn choice(&mut self, pool: &[String]) -> (J, TD) {
        let n = 1 + self.g.idx(6);
        let names = self.names("m_", n);
        let (mut fields, mut vs) = (vec![], vec![]);
        for (i, n) in names.iter().enumerate() {
            let t = self.g.pick(pool).clone();
            let user = json!({"type": "UserType", "fullname": t});
            let (j, f) = match self.g.below(6) {
                0 => (json!({"type": "NullType"}), FT::Unit),
                1 => (json!({"type": "BoolType"}), FT::Bool),
                2 => (json!({"type": "OptionalType", "type_info": user}), FT::Opt(Box::new(FT::T(rust(&t))))),
                _ => (user, FT::T(rust(&t))),
            };
            fields.push(json!({"type": "MemberChoiceField", "name": n, "type_info": j, "tag": {"type": "IntLiteral", "value": i.to_string()}}));
            vs.push((i as i64, pascal(n), f));
        }
        let bits = if n <= 1 { 0 } else { bitlen(n as u64 - 1) };
        (json!({"type": "ChoiceType", "fields": fields}), TD::Enum(Some(bits), true, vs))
    }
    /// The struct that has a choice of its own within: that is `MEventData`.
    fn make_dialog_event(&mut self, full: &str, pool: &[String]) {
        self.make_bit_struct(full, pool, &[]);
        let (info, td) = self.choice(pool);
        let TD::Struct(mut fs) = self.bit.remove(&rust(full)).unwrap() else { unreachable!() };
        let at = self.g.idx(fs.len() + 1);
        let d = self.decls.get_mut(full).unwrap();
        let fields = d["type_info"]["fields"].as_array_mut().unwrap();
        fields.insert(at, json!({"type": "MemberStructField", "name": "m_eventData", "type_info": info, "tag": {"type": "IntLiteral", "value": fs.len().to_string()}}));
        fs.insert(at, ("m_event_data".into(), 0, FT::T("MEventData".into())));
        self.bit.insert(rust(full), TD::Struct(fs));
        self.bit.insert("MEventData".into(), td);
    }
}
/// A random description, as it is given to the generator.
pub fn description(g: &mut Gen) -> J {
    proto(g).json
}
fn shuffle<T>(g: &mut Gen, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = g.idx(i + 1);
        v.swap(i, j);
    }
}

fn proto(g: &mut Gen) -> Proto {
    let mut b = B { g, used: Default::default(), decls: Default::default(), bit: Default::default(), byte: Default::default() };
    let none = HashMap::new();
    // numbers, which tagged data has its own way for
    let nums: &[(&str, &str)] = &[
        ("NNet.uint8", "u8"), ("NNet.uint6", "u8"), ("NNet.uint14", "u32"), ("NNet.uint22", "u32"), ("NNet.uint32", "u32"), ("NNet.uint64", "u64"), ("NNet.int32", "i32"), ("NNet.int64", "i64"),
        ("NNet.Game.TPlayerId", "u8"), ("NNet.Game.TControlId", "u8"), ("NNet.Game.TTeamId", "u8"), ("NNet.Game.TDifficulty", "u32"), ("NNet.Game.THandicap", "u32"), ("NNet.Game.TFixedBits", "i32"), ("NNet.Game.TColorId", "i64"),
    ];
    let mut dual: Vec<(String, FT)> = vec![];
    let mut pool: Vec<String> = vec![];
    let mut top: Vec<String> = vec![];
    let (mut game, mut replay, mut tracker): (Vec<String>, Vec<String>, Vec<String>) = Default::default();
    for (n, k) in nums {
        if n.contains("Game") && b.g.bool() {
            let to = b.g.pick(&pool).clone();
            b.make_user(n, &to);
        } else {
            b.make_int(n);
        }
        dual.push((n.to_string(), FT::Vlq(k)));
        pool.push(n.to_string());
        if n.contains("Game") { game.push(n.to_string()) } else { top.push(n.to_string()) }
    }
    for n in ["NNet.int8", "NNet.uint16", "NNet.int16", "NNet.TUserId", "NNet.TUserCount", "NNet.TRaceId", "NNet.TRaceCount"] {
        b.make_int(n);
        pool.push(n.into());
        top.push(n.into());
    }
    for n in ["NNet.CFilePath", "NNet.CUserName"] {
        b.make_string(n);
        dual.push((n.into(), FT::VBlob));
        pool.push(n.into());
        top.push(n.into());
    }
    for n in ["NNet.CClanTag", "NNet.CToonHandle"] {
        b.make_string(n);
        pool.push(n.into());
        top.push(n.into());
    }
    for n in ["NNet.CAllowedRaces", "NNet.CAllowedObserveTypes"] {
        b.make_bits(n);
        pool.push(n.into());
        top.push(n.into());
    }
    b.make_blob("NNet.CCacheHandle");
    pool.push("NNet.CCacheHandle".into());
    top.push("NNet.CCacheHandle".into());
    b.make_blob("NNet.Game.CCacheHandle");
    pool.push("NNet.Game.CCacheHandle".into());
    game.push("NNet.Game.CCacheHandle".into());
    dual.push(("NNet.Game.CCacheHandle".into(), FT::VBlob));
    b.make_array("NNet.Game.CCacheHandles", "NNet.Game.CCacheHandle");
    b.make_array("NNet.Game.CModPaths", "NNet.CFilePath");
    b.byte.remove("GameCCacheHandles");
    b.byte.remove("GameCModPaths");
    for n in ["NNet.Game.CCacheHandles", "NNet.Game.CModPaths"] {
        dual.push((n.into(), FT::VArr(Box::new(FT::VBlob))));
        pool.push(n.into());
        game.push(n.into());
    }
    // what both modules have
    {
        let names = ["m_uint6", "m_uint14", "m_uint22", "m_uint32"];
        let types = ["NNet.uint6", "NNet.uint14", "NNet.uint22", "NNet.uint32"];
        let fields: Vec<J> = names.iter().zip(types).enumerate().map(|(i, (n, t))| json!({"type": "MemberChoiceField", "name": n, "type_info": {"type": "UserType", "fullname": t}, "tag": {"type": "IntLiteral", "value": i.to_string()}})).collect();
        b.decl("NNet.SVarUint32", json!({"type": "ChoiceType", "fields": fields}));
        let v = ["MUint6", "MUint14", "MUint22", "MUint32"];
        b.bit.insert("SVarUint32".into(), TD::Enum(Some(2), true, v.iter().zip(types).enumerate().map(|(i, (n, t))| (i as i64, n.to_string(), FT::T(rust(t)))).collect()));
        b.byte.insert("SVarUint32".into(), TD::Enum(None, true, v.iter().zip(["u8", "u32", "u32", "u32"]).enumerate().map(|(i, (n, t))| (i as i64, n.to_string(), FT::Vlq(t))).collect()));
        top.push("NNet.SVarUint32".into());
        pool.push("NNet.SVarUint32".into());
    }
    for n in ["NNet.EObserve", "NNet.Game.EGameSpeed", "NNet.Game.EResultDetails"] {
        let k = 1 + b.g.idx(6);
        let names = b.names("e_", k);
        b.make_enum(n, &names, &none);
        dual.push((n.into(), FT::T(rust(n))));
        pool.push(n.into());
        if n.contains("Game") { game.push(n.into()) } else { top.push(n.into()) }
    }
    for n in ["NNet.SVersion", "NNet.SMD5", "NNet.Game.SThumbnail", "NNet.Game.SColor", "NNet.Game.SToonNameDetails", "NNet.Game.SPlayerDetails", "NNet.Game.CPlayerDetailsArray", "NNet.Game.SDetails"] {
        let d = dual.clone();
        if n == "NNet.Game.CPlayerDetailsArray" {
            b.make_array(n, "NNet.Game.SPlayerDetails");
            dual.push((n.into(), FT::VArr(Box::new(FT::T("GameSPlayerDetails".into())))));
        } else {
            b.make_byte_struct(n, &d, &[], true);
            if n != "NNet.Game.SPlayerDetails" && n != "NNet.Game.SDetails" {
                dual.push((n.into(), FT::T(rust(n))));
            }
        }
        pool.push(n.into());
        if n.contains("Game") { game.push(n.into()) } else { top.push(n.into()) }
    }
    // tagged data of a replay
    let d = dual.clone();
    b.make_byte_struct("NNet.Replay.SHeader", &d, &[], false);
    replay.push("NNet.Replay.SHeader".into());
    let mut tpool = dual.clone();
    b.make_byte_struct("NNet.Replay.Tracker.SPlayerStats", &d, &[], false);
    tracker.push("NNet.Replay.Tracker.SPlayerStats".into());
    tpool.push(("NNet.Replay.Tracker.SPlayerStats".into(), FT::T("ReplayTrackerSPlayerStats".into())));
    let e = "NNet.Replay.Tracker.EEventId";
    let k = 1 + b.g.idx(7);
    let names = b.names("e_", k);
    // (struct, the variants that it is tagged for)
    let mut tagged: Vec<(String, Vec<Tag>)> = vec![];
    for n in &names {
        if b.g.chance(3, 4) {
            let s = b.fresh("NNet.Replay.Tracker.S", "Event");
            tagged.push((s, vec![(e.to_string(), n.clone())]));
        }
    }
    for (s, t) in tagged.clone() {
        b.make_byte_struct(&s, &tpool, &t, false);
        tracker.push(s);
    }
    let of: HashMap<String, String> = tagged.iter().map(|(s, t)| (t[0].1.clone(), s.clone())).collect();
    b.make_enum(e, &names, &of);
    tracker.push(e.into());
    // bit packed data of any kind
    for _ in 0..8 + b.g.idx(12) {
        let full = match b.g.below(12) {
            0 => {
                let f = b.fresh("NNet.Game.T", "");
                b.make_int(&f);
                f
            }
            1 => {
                let f = b.fresh("NNet.Game.T", "");
                let to = b.g.pick(&pool).clone();
                b.make_user(&f, &to);
                f
            }
            2 => {
                let f = b.fresh("NNet.Game.C", "String");
                b.make_string(&f);
                f
            }
            3 => {
                let f = b.fresh("NNet.Game.C", "Mask");
                b.make_bits(&f);
                f
            }
            4 | 5 => {
                let f = b.fresh("NNet.Game.C", "Array");
                let to = b.g.pick(&pool).clone();
                b.make_array(&f, &to);
                f
            }
            6 => {
                let f = b.fresh("NNet.Game.E", "");
                let k = 1 + b.g.idx(9);
                let n = b.names("e_", k);
                b.make_enum(&f, &n, &none);
                f
            }
            7 | 8 => {
                let f = b.fresh("NNet.Game.S", "");
                b.make_choice(&f, &pool);
                f
            }
            _ => {
                let f = b.fresh("NNet.Game.S", "");
                b.make_bit_struct(&f, &pool, &[]);
                f
            }
        };
        pool.push(full.clone());
        game.push(full);
    }
    if b.g.bool() {
        let n = "NNet.Game.STriggerDialogControlEvent";
        b.make_dialog_event(n, &pool);
        pool.push(n.into());
        game.push(n.into());
    }
    for (n, k) in [("NNet.SUserInitialData", 0), ("NNet.CUserInitialDataArray", 1), ("NNet.TRacePreference", 0)] {
        if k == 1 { b.make_array(n, "NNet.SUserInitialData") } else { b.make_bit_struct(n, &pool, &[]) }
        pool.push(n.into());
        top.push(n.into());
    }
    for n in ["NNet.Replay.SGameUserId", "NNet.Replay.SInitData"] {
        b.make_bit_struct(n, &pool, &[]);
        replay.push(n.into());
    }
    // enumerations of game events: two, some structs are tagged for both, some tags are claimed twice
    let enums: Vec<(String, Vec<String>)> = ["NNet.Game.EEventId", "NNet.Game.EMessageId"]
        .iter()
        .map(|e| {
            let k = 1 + b.g.idx(12);
            (e.to_string(), b.names("e_", k))
        })
        .collect();
    let mut claims: Vec<(String, Vec<Tag>)> = vec![];
    for _ in 0..2 + b.g.idx(10) {
        let s = b.fresh("NNet.Game.S", "Event");
        let mut tags = vec![];
        for (e, names) in &enums {
            if tags.is_empty() || b.g.chance(1, 4) {
                tags.push((e.clone(), b.g.pick(names).clone()));
            }
        }
        if b.g.bool() {
            tags.reverse();
        }
        b.make_bit_struct(&s, &pool, &tags);
        claims.push((s.clone(), tags));
        game.push(s);
    }
    for (e, _) in &enums {
        game.push(e.clone());
    }
    shuffle(b.g, &mut game);
    shuffle(b.g, &mut top);
    shuffle(b.g, &mut tracker);
    // the first struct that claims a tag has it
    for (e, names) in &enums {
        let mut of = HashMap::new();
        for s in &game {
            for (t, tags) in &claims {
                if t == s {
                    for (en, v) in tags {
                        if en == e {
                            of.entry(v.clone()).or_insert_with(|| s.clone());
                        }
                    }
                }
            }
        }
        b.make_enum(e, names, &of);
    }
    let get = |v: &[String]| -> Vec<J> { v.iter().map(|n| b.decls[n].clone()).collect() };
    let mut rdecls = get(&replay);
    rdecls.insert(rdecls.len() / 2, json!({"type": "ModuleDecl", "fullname": "NNet.Replay.Tracker", "decls": get(&tracker)}));
    let mut decls = get(&top);
    // other declarations, which are not asked for
    decls.push(json!({"type": "TypeDecl", "fullname": "NNet.SUnused", "type_info": {"type": "StructType", "fields": []}}));
    let at = b.g.idx(decls.len() + 1);
    decls.insert(at, json!({"type": "ModuleDecl", "fullname": "NNet.Replay", "decls": rdecls}));
    let at = b.g.idx(decls.len() + 1);
    let mut gdecls = get(&game);
    if b.g.bool() {
        gdecls.push(json!({"type": "ConstDecl", "fullname": "NNet.Game.MAX_PLAYERS", "type_info": {"type": "IntType"}, "value": {"type": "IntLiteral", "value": "16"}}));
    }
    decls.insert(at, json!({"type": "ModuleDecl", "fullname": "NNet.Game", "decls": gdecls}));
    let (mut byte, mut bit) = (b.byte, b.bit);
    bit.retain(|n, _| !n.starts_with("ReplayTracker"));
    // only these are asked for in their tagged form
    byte.retain(|n, _| {
        ["SVersion", "SVarUint32", "Smd5", "EObserve", "ReplaySHeader", "GameCPlayerDetailsArray", "GameSDetails", "GameSPlayerDetails", "GameSThumbnail", "GameEGameSpeed", "GameEResultDetails", "GameSToonNameDetails", "GameSColor", "ReplayTrackerEEventId"]
            .contains(&n.as_str())
            || n.starts_with("ReplayTrackerS")
    });
    let sorted = |m: &HashMap<String, TD>| {
        let mut v: Vec<String> = m.keys().cloned().collect();
        v.sort();
        v
    };
    let (byte_types, bit_types) = (sorted(&byte), sorted(&bit));
    Proto { json: json!({"modules": [{"type": "Module", "decls": decls}]}), byte: Schema { types: byte, versioned: true }, bit: Schema { types: bit, versioned: false }, byte_types, bit_types }
}

// ---------------------------------------------------------------- compiling
const MAIN: &str = r#"
#![allow(warnings)]
pub use s2protocol::*;
/// `count` of nom 7
pub mod nom {
    pub use nom8::*;
    pub mod multi {
        pub use nom8::multi::*;
        pub fn count<I, O, E>(mut f: impl FnMut(I) -> Result<(I, O), E>, n: usize) -> impl FnMut(I) -> Result<(I, Vec<O>), E> {
            move |mut i| { let mut v = vec![]; for _ in 0..n { let (t, x) = f(i)?; i = t; v.push(x); } Ok((i, v)) }
        }
    }
}
fn byte<T: std::fmt::Debug>(f: for<'a> fn(&'a [u8]) -> S2ProtoResult<&'a [u8], T>, d: &[u8]) -> String {
    match f(d) { Ok((t, v)) => format!("{} {v:?}", (d.len() - t.len()) * 8), Err(e) => format!("ERR {}", format!("{e:?}").replace('\n', " ")) }
}
fn bit<T: std::fmt::Debug>(f: for<'a> fn((&'a [u8], usize)) -> S2ProtoResult<(&'a [u8], usize), T>, d: &[u8], s: usize) -> String {
    match f((d, s)) { Ok(((t, b), v)) => format!("{} {v:?}", (d.len() - t.len()) * 8 + b), Err(e) => format!("ERR {}", format!("{e:?}").replace('\n', " ")) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    use std::io::{BufRead, Write};
    let (i, mut o) = (std::io::stdin(), std::io::stdout());
    for l in i.lock().lines() {
        let l = l.unwrap();
        let mut w = l.split(' ');
        let (t, s, h) = (w.next().unwrap(), w.next().unwrap().parse().unwrap(), w.next().unwrap());
        let d: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let r = std::panic::catch_unwind(|| run(t, s, &d)).unwrap_or("PANIC".into());
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
"#;
/// The builds of a library, the newest first.
fn builds(deps: &Path, name: &str) -> Vec<PathBuf> {
    let mut v: Vec<_> = std::fs::read_dir(deps)
        .unwrap_or_else(|e| machinery(&format!("no build of the library at {}: {e}", deps.display())))
        .filter_map(|e| e.ok())
        .filter(|e| {
            let n = e.file_name().to_string_lossy().to_string();
            n.starts_with(&format!("lib{name}-")) && n.ends_with(".rlib")
        })
        .filter_map(|e| Some((e.metadata().ok()?.modified().ok()?, e.path())))
        .collect();
    v.sort();
    v.reverse();
    if v.is_empty() {
        machinery(&format!("no lib{name} in {}", deps.display()))
    }
    v.into_iter().map(|x| x.1).collect()
}
fn rustc(nom: &Path, nom_mpq: &Path) -> Command {
    let exe = std::env::current_exe().unwrap();
    let deps = exe.parent().unwrap().join("deps");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2024", "--error-format", "human", "--color", "never", "-C", "debuginfo=0", "-C", "opt-level=0", "-A", "warnings", "-L"]).arg(format!("dependency={}", deps.display()));
    for (n, l) in [("s2protocol", builds(&deps, "s2protocol")[0].as_path()), ("nom8", nom), ("nom_mpq", nom_mpq), ("tracing", &builds(&deps, "tracing")[0])] {
        c.arg("--extern").arg(format!("{n}={}", l.display()));
    }
    c
}
/// The builds of nom and nom-mpq that the library is linked to: a build directory can hold others.
fn linked(dir: &Path) -> &'static (PathBuf, PathBuf) {
    static L: std::sync::OnceLock<(PathBuf, PathBuf)> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        let deps = exe.parent().unwrap().join("deps");
        std::fs::write(
            dir.join("probe.rs"),
            "pub fn f(i: &[u8]) -> s2protocol::S2ProtoResult<&[u8], u8> { let (t, x) = nom8::number::complete::u8(i)?; Ok((t, x)) }\npub fn g(e: nom_mpq::error::MPQParserError) -> s2protocol::S2ProtocolError { e.into() }",
        )
        .unwrap();
        for n in builds(&deps, "nom") {
            for m in builds(&deps, "nom_mpq") {
                let o = rustc(&n, &m).args(["--crate-type", "lib", "--emit", "metadata", "-o"]).arg(dir.join("probe.rmeta")).arg(dir.join("probe.rs")).output();
                if o.unwrap_or_else(|e| machinery(&format!("rustc does not start: {e}"))).status.success() {
                    return (n, m);
                }
            }
        }
        machinery("no build of nom that the library is linked to")
    })
}
/// Not an answer: something other than the code under test failed.
fn machinery(m: &str) -> ! {
    eprintln!("C26 gives no answer: {m}");
    std::process::exit(2)
}
/// Writes, compiles and starts a program that runs the parsers generated for the descriptions.
struct Server {
    child: std::process::Child,
    out: BufReader<std::process::ChildStdout>,
}
impl Server {
    fn ask(&mut self, t: &str, start: usize, d: &[u8]) -> String {
        let mut l = format!("{t} {start} ");
        for b in d {
            write!(l, "{b:02x}").unwrap();
        }
        l.push('\n');
        self.child.stdin.as_mut().unwrap().write_all(l.as_bytes()).unwrap_or_else(|e| machinery(&format!("the program ended: {e}")));
        let mut r = String::new();
        self.out.read_line(&mut r).unwrap_or_else(|e| machinery(&format!("the program ended: {e}")));
        r.trim_end_matches('\n').to_string()
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn build(dir: &Path, protos: &[Proto]) -> Result<Server, String> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut main = MAIN.to_string();
    let mut arms = String::new();
    for (i, p) in protos.iter().enumerate() {
        let js = dir.join(format!("protocol{}.json", 70000 + i));
        std::fs::write(&js, serde_json::to_vec(&p.json).unwrap()).unwrap();
        let rs = dir.join(format!("p{i}.rs"));
        // a file that is there is replaced
        if i % 2 == 1 {
            std::fs::write(&rs, "x".repeat(1 << (10 + i * 3))).unwrap();
        }
        match catch(|| ProtoMorphist::r#gen(js.to_str().unwrap(), rs.to_str().unwrap())) {
            Err(m) => return Err(format!("the generator panics: {m}\n{}", p.json)),
            Ok(Err(e)) => return Err(format!("the generator fails: {e}\n{}", p.json)),
            Ok(Ok(())) => {}
        }
        // the instrumentation only costs time to compile
        let s = std::fs::read_to_string(&rs).unwrap();
        let s: String = s.lines().filter(|l| !(l.trim_start().starts_with("#[tracing::instrument(") && l.ends_with(")]"))).flat_map(|l| [l, "\n"]).collect();
        std::fs::write(&rs, s).unwrap();
        std::fs::create_dir_all(dir.join(format!("p{i}"))).unwrap();
        std::fs::write(dir.join(format!("p{i}/events.rs")), "").unwrap();
        writeln!(main, "mod p{i};").unwrap();
        for t in &p.byte_types {
            writeln!(arms, "\"{i}:{t}\" => byte(p{i}::byte_aligned::{t}::parse, d),").unwrap();
        }
        for t in &p.bit_types {
            writeln!(arms, "\"{i}.{t}\" => bit(p{i}::bit_packed::{t}::parse, d, s),").unwrap();
        }
    }
    writeln!(main, "fn run(t: &str, s: usize, d: &[u8]) -> String {{ match t {{ {arms} _ => panic!() }} }}").unwrap();
    std::fs::write(dir.join("main.rs"), main).unwrap();
    let (n, m) = linked(dir);
    let mut c = rustc(n, m);
    let o = c.arg("-o").arg(dir.join("prog")).arg(dir.join("main.rs")).output().unwrap_or_else(|e| machinery(&format!("rustc does not start: {e}")));
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        if !e.contains("error") || e.contains("No space left") || e.contains("signal:") {
            machinery(&format!("rustc: {e}"));
        }
        let at = e.find("error").unwrap();
        let e: String = e[at..].lines().take(14).collect::<Vec<_>>().join("\n");
        return Err(format!("the generated code does not compile:\n{e}"));
    }
    let mut child = Command::new(dir.join("prog")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| machinery(&format!("{e}")));
    let out = BufReader::new(child.stdout.take().unwrap());
    Ok(Server { child, out })
}

// ---------------------------------------------------------------- values
/// The declarations a type is made of, for a report.
fn closure(p: &Proto, t: &str) -> String {
    let mut out = vec![];
    fn walk<'a>(j: &'a J, f: &mut dyn FnMut(&'a J)) {
        match j {
            J::Object(o) => {
                f(j);
                o.values().for_each(|v| walk(v, f));
            }
            J::Array(a) => a.iter().for_each(|v| walk(v, f)),
            _ => {}
        }
    }
    walk(&p.json, &mut |j| {
        if j["type"] == "TypeDecl" && j["fullname"].as_str().is_some_and(|n| rust(n) == t) {
            out.push(j.to_string());
        }
    });
    out.join("\n")
}
/// One value: what the parser must say. None: it must refuse.
/// Makes a number within this value one that does not fit, if there is one.
fn wide(g: &mut Gen, f: &FT, v: &mut V) -> bool {
    match (f, v) {
        (FT::Vlq(k), V::Int(x)) => {
            let (lo, hi) = match *k {
                "u8" => (0, u8::MAX as i64),
                "u32" => (0, u32::MAX as i64),
                "i32" => (i32::MIN as i64, i32::MAX as i64),
                "u64" => (0, i64::MAX),
                _ => return false,
            };
            let far = *g.pick(&[1i64, 2, 100, 1 << 20, 1 << 33, 1 << 40]);
            *x = if hi != i64::MAX && g.bool() { hi + far } else { lo - far };
            true
        }
        (FT::Opt(f), V::Opt(Some(v))) => wide(g, f, v),
        (FT::Arr(_, f) | FT::VArr(f), V::Arr(vs)) if !vs.is_empty() => {
            let i = g.idx(vs.len());
            wide(g, f, &mut vs[i])
        }
        _ => false,
    }
}
fn value(g: &mut Gen, s: &Schema, t: &str) -> (usize, Vec<u8>, Option<(usize, String)>, &'static str) {
    if s.versioned {
        let v = s.gen_type(g, t, &CFG);
        let mut w = vec![];
        s.venc_type(g, &mut w, t, &v);
        let len = w.len();
        // malformed ones
        match (s.td(t), g.below(8)) {
            (TD::Enum(_, choice, vs), 0) => {
                let tag = (0..).find(|x| !vs.iter().any(|y| y.0 == *x)).unwrap();
                let mut w = vec![if *choice { 3 } else { 9 }];
                vlq(&mut w, tag);
                w.extend([9, 2, 9, 2]);
                return (0, w, None, "an unknown variant");
            }
            (TD::Struct(fs), k @ 0..=2) => {
                let V::Struct(vals) = &v else { unreachable!() };
                let mut parts: Vec<(i64, Vec<u8>)> = vec![];
                for ((_, tag, f), x) in fs.iter().zip(vals) {
                    let mut o = vec![];
                    s.venc_ft(g, &mut o, f, x);
                    parts.push((*tag, o));
                }
                let i = g.idx(parts.len());
                let what = match k {
                    0 => {
                        let tag = (0..).find(|x| !fs.iter().any(|y| y.1 == *x)).unwrap();
                        let at = g.idx(parts.len() + 1);
                        parts.insert(at, (tag, parts[i].1.clone()));
                        "an unknown field"
                    }
                    1 if !matches!(fs[i].2, FT::Opt(_)) => {
                        parts.remove(i);
                        "a missing field"
                    }
                    _ => {
                        // an absent optional field may be given again
                        if matches!(&vals[i], V::Opt(None)) {
                            return (0, w, Some((len * 8, s.debug(t, &v))), "value");
                        }
                        let p = parts[i].clone();
                        parts.push(p);
                        "a field given twice"
                    }
                };
                let mut w = vec![5];
                vlq(&mut w, parts.len() as i64);
                for (tag, o) in parts {
                    vlq(&mut w, tag);
                    w.extend(o);
                }
                return (0, w, None, what);
            }
            (TD::Struct(fs), 3) => {
                // a number that its field does not hold
                let V::Struct(mut vals) = v.clone() else { unreachable!() };
                let at: Vec<usize> = (0..fs.len()).filter(|i| wide(g, &fs[*i].2, &mut vals[*i].clone())).collect();
                if !at.is_empty() {
                    let i = *g.pick(&at);
                    wide(g, &fs[i].2, &mut vals[i]);
                    let mut w = vec![];
                    s.venc_type(g, &mut w, t, &V::Struct(vals));
                    return (0, w, None, "a number out of range");
                }
            }
            (_, 3) => {
                // another tag than the one of the type
                w[0] ^= 1 + g.below(7) as u8;
                return (0, w, None, "another kind of value");
            }
            (_, 4) => {
                let k = g.idx(w.len());
                w.truncate(k);
                return (0, w, None, "a cut value");
            }
            _ => {}
        }
        for _ in 0..g.idx(4) {
            w.push(g.below(256) as u8);
        }
        return (0, w, Some((len * 8, s.debug(t, &v))), "value");
    }
    let start = g.idx(8);
    let mut w = BitW::default();
    let junk = g.bits(start);
    w.bits(junk, start);
    if let (TD::Enum(Some(bits), _, vs), 0) = (s.td(t), g.below(8)) {
        if let Some(tag) = (0..1i64 << bits).find(|x| !vs.iter().any(|y| y.0 == *x)) {
            w.bits(tag as u64, *bits);
            w.raw(&[0; 40]);
            return (start, w.bytes, None, "an unknown variant");
        }
    }
    let v = s.gen_type(g, t, &CFG);
    s.enc_type(&mut w, t, &v);
    let end = w.pos();
    // nothing may follow; or anything
    if g.bool() {
        for _ in 0..8 + g.idx(30) {
            let b = g.below(256);
            w.bits(b, 8);
        }
    }
    (start, w.bytes, Some((end, s.debug(t, &v))), "value")
}

fn c26_generated(g: &mut Gen) -> Res {
    let n = 1 + g.idx(6);
    let seeds: Vec<u64> = (0..n).map(|_| g.u64()).collect();
    let dir = g.dir.join("gen");
    let protos: Vec<Proto> = seeds.iter().map(|s| proto(&mut Gen::random(*s, dir.clone()))).collect();
    let vseed = g.u64();
    let r = run(g, &dir, &protos, vseed);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn run(g: &mut Gen, dir: &Path, protos: &[Proto], vseed: u64) -> Res {
    let mut srv = build(dir, protos)?;
    let mut worst: Option<(usize, String)> = None;
    for (i, p) in protos.iter().enumerate() {
        let all = p.byte_types.iter().map(|t| (true, t)).chain(p.bit_types.iter().map(|t| (false, t)));
        for (byte, t) in all {
            let s = if byte { &p.byte } else { &p.bit };
            let name = format!("{i}{}{t}", if byte { ":" } else { "." });
            let kind = match s.td(t) {
                TD::Int(..) => "number",
                TD::User(_) => "other name",
                TD::Str(_) => "text",
                TD::Fixed(_) => "blob",
                TD::BitArr(..) => "bit array",
                TD::Array(..) => "list",
                TD::Enum(_, true, _) => "choice",
                TD::Enum(..) => "enumeration",
                TD::Struct(_) => "struct",
            };
            for k in 0..40u64 {
                let mut vg = Gen::random(mix(vseed ^ mix(k ^ mix(i as u64))), dir.to_path_buf());
                let (start, d, want, what) = value(&mut vg, s, t);
                let got = srv.ask(&name, start, &d);
                let ok = match &want {
                    None => got.starts_with("ERR ").then_some(()).ok_or_else(|| format!("is read as {got}")),
                    Some((end, dbg)) => match got.split_once(' ') {
                        Some((e, s)) if e.parse() == Ok(*end) || (d.is_empty() && e == "0") => matches_debug(dbg, s).map(|_| ()),
                        _ => Err(format!("gives {got}, expected {dbg} up to bit {end}")),
                    },
                };
                let mut h = std::collections::hash_map::DefaultHasher::new();
                std::hash::Hash::hash(&(t, &d, start, p.json["modules"][0]["decls"].as_array().unwrap().len()), &mut h);
                g.meta.more.push(std::hash::Hasher::finish(&h));
                g.label(format!("{} {kind}{}", if byte { "tagged" } else { "bit packed" }, if want.is_none() { ", malformed" } else { "" }));
                if let Err(m) = ok {
                    let msg = format!("{} {t}, {what} {d:02x?} from bit {start}: {m}\ndescription: {}", if byte { "byte_aligned" } else { "bit_packed" }, closure(p, t));
                    // the simplest of those found
                    let size = d.len() + closure(p, t).len();
                    if worst.as_ref().is_none_or(|w| size < w.0) {
                        worst = Some((size, msg));
                    }
                }
            }
        }
        if i == 0 {
            g.sample(|| format!("a description with {} tagged and {} bit packed types, such as {}", p.byte_types.len(), p.bit_types.len(), closure(p, &p.bit_types[p.bit_types.len() / 2])));
        }
    }
    ensure!(worst.is_none(), "{}", worst.unwrap().1);
    Ok(())
}
