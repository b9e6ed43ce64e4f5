//! C22: finding replays, C23: times, C24: map cache files, C25: statistics of a folder.
use crate::engine::*;
use crate::mpq;
use crate::replay::*;
use crate::schema::{TEXT, V, versioned};
use crate::synth::*;
use crate::{Property, c_rows::seconds_ok, ensure, ensure_eq};
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map::coords::*;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::dir_stats::{SC2ReplaysDirStats, scan_path};
use s2protocol::get_matching_files;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C22",
            rule: "folder trees of up to 4 levels with replays, files of similar names, links, folders named like replays and special files, asked with every kind of limit; non-trivial: the tree has at least one replay",
            assumptions: &["which replays are kept when there are too many is left open"],
            checks: vec![check("find", c22, 160_000, 10)],
        },
        Property {
            id: "C23",
            rule: "times and offsets of all magnitudes (real dates, boundaries, any number) and pairs of loops of all magnitudes; non-trivial: every case",
            assumptions: &["the seconds of a loop are computed with the precision of an f32", "microseconds that the wire's tenths cut off may go either way"],
            checks: vec![check("dates", c23_dates, 2_000_000, 10), check("loops", c23_loops, 2_000_000, 10)],
        },
        Property {
            id: "C24",
            rule: "document headers, map infos and height maps written from generated values and then whole, truncated, with one field out of bounds, or in an archive; coordinates of all magnitudes; non-trivial: the file is read, or refused for one damaged field only",
            assumptions: &["the layout of the three files is the one the library documents"],
            checks: vec![
                check("document_header", c24_header, 400_000, 10),
                check("map_info", c24_map_info, 800_000, 10),
                check("height_map", c24_height, 200_000, 10),
                check("coords", c24_coords, 400_000, 10),
            ],
        },
        Property {
            id: "C30",
            rule: "unit tags of any index and recycle number and any 64 bits, points of maps up to 8192 wide in steps of 1/1024, statistics events with random fields; non-trivial: a tag whose parts both are not 0, a point not on a grid, statistics with distinct values",
            assumptions: &["points within the map, in steps that an f32 holds exactly"],
            checks: vec![check("tags", c30_tags, 2_000_000, 10), check("coordinates", c30_coords, 2_000_000, 10), check("statistics", c30_stats, 200_000, 10)],
        },
        Property {
            id: "C25",
            rule: "folders of 0..14 small replays with names and maps out of a small set, mixed with damaged ones, scanned serially and in parallel; non-trivial: at least two replays with players",
            assumptions: &["names are unique in a replay; ties may be listed in any order"],
            checks: vec![check("scan", c25, 12_000, 15), check("included_balance_data", c25_assets, 24, 4)],
        },
    ]
}

// ---------------------------------------------------------------- C22
pub struct Tree {
    /// (path, depth at which it is found: 1 is directly in the source)
    pub replays: Vec<(PathBuf, usize)>,
    pub other: usize,
}
fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("harness: {e}"))
}
fn fresh(d: &Path) -> Res {
    let _ = std::fs::remove_dir_all(d);
    io(std::fs::create_dir_all(d))
}
pub fn grow(g: &mut Gen, d: &Path, depth: usize, t: &mut Tree, aside: &Path) -> Res {
    for k in 0..g.idx(if depth == 1 { 10 } else { 6 }) {
        match g.below(10) {
            0..=3 => {
                let n = *g.pick(&["a", "b.c", " x", "ü", "a.SC2Replay", "."]);
                let p = d.join(format!("{k}{n}.SC2Replay"));
                io(std::fs::write(&p, b""))?;
                t.replays.push((p, depth));
            }
            4 | 5 => {
                let n = [
                    format!("{k}.sc2replay"),
                    format!("{k}.SC2Replay.bak"),
                    format!("{k}SC2Replay"),
                    format!("{k}.SC2ReplayX"),
                    format!("{k}.XSC2Replay"),
                    format!("{k}.SC2Map"),
                    ".SC2Replay".to_string(),
                    "SC2Replay".to_string(),
                ][g.idx(8)]
                .clone();
                io(std::fs::write(d.join(n), b""))?;
                t.other += 1;
            }
            6 => {
                let mut n = format!("{k}").into_bytes();
                n.extend([0xff, 0xc3]);
                n.extend(b".SC2Replay");
                let p = d.join(std::ffi::OsString::from_vec(n));
                io(std::fs::write(&p, b""))?;
                t.replays.push((p, depth));
            }
            7 if g.bool() => {
                let p = d.join(format!("{k}link.SC2Replay"));
                if g.bool() {
                    io(std::os::unix::fs::symlink(aside, &p))?;
                    t.replays.push((p, depth));
                } else {
                    io(std::os::unix::fs::symlink(aside.join("missing"), &p))?;
                    t.other += 1;
                }
            }
            _ if depth < 4 => {
                let p = d.join(format!("{k}{}", g.pick(&["d", "d.SC2Replay", "d.x"])));
                io(std::fs::create_dir_all(&p))?;
                grow(g, &p, depth + 1, t, aside)?;
            }
            _ => {}
        }
    }
    Ok(())
}
fn c22(g: &mut Gen) -> Res {
    let root = g.dir.join("tree");
    let aside = g.dir.join("aside.bin");
    io(std::fs::write(&aside, b""))?;
    fresh(&root)?;
    let mut t = Tree { replays: vec![], other: 0 };
    grow(g, &root, 1, &mut t, &aside)?;
    let depth = if g.chance(1, 3) { 10 } else { g.idx(6) };
    let limit = match g.below(4) {
        0 => usize::MAX,
        1 => 1000,
        _ => g.idx(t.replays.len() + 2),
    };
    let all: BTreeSet<&PathBuf> = t.replays.iter().filter(|r| r.1 <= depth).map(|r| &r.0).collect();
    let ctx = format!("{} replays within depth {depth} of {} and {} others, limit {limit}", all.len(), t.replays.len(), t.other);
    let got = get_matching_files(root.clone(), limit, depth).map_err(|e| format!("{ctx}: {e}"))?;
    let set: BTreeSet<&PathBuf> = got.iter().collect();
    ensure!(set.len() == got.len(), "{ctx}: listed twice in {got:?}");
    if let Some(p) = set.difference(&all).next() {
        return Err(format!("{ctx}: {p:?} is listed"));
    }
    let n = all.len().min(limit);
    ensure!(got.len() == n, "{ctx}: {} files are listed, expected {n}: {got:?}", got.len());
    // a source that is no folder
    if let Some((p, _)) = t.replays.first() {
        let f = get_matching_files(p.clone(), 10, 10).map_err(|e| format!("{e}"))?;
        ensure!(f.is_empty(), "the source {p:?} is no folder and lists {f:?}");
    }
    if t.replays.is_empty() {
        g.trivial();
    }
    g.label(if all.len() < t.replays.len() { "depth cuts" } else { "depth is enough" });
    g.label(if limit < all.len() { "limit cuts" } else { "limit is enough" });
    g.sample(|| ctx.clone());
    Ok(())
}

// ---------------------------------------------------------------- C23
fn any_i64(g: &mut Gen) -> i64 {
    let b = 1 + g.idx(64);
    let x = g.bits(b) as i64;
    if g.bool() { x.wrapping_neg() } else { x }
}
fn c23_dates(g: &mut Gen) -> Res {
    let (utc, off) = match g.below(4) {
        0 => (any_i64(g), any_i64(g)),
        // around the epochs and single seconds
        1 => (*g.pick(&[0i64, 116_444_736_000_000_000, 10_000_000, 132_000_000_000_000_000]) + g.range(-20_000_000, 20_000_000), g.range(-14, 14) * 36_000_000_000),
        2 => (g.below(300_000_000_000_000_000) as i64, g.range(-14 * 60, 14 * 60) * 600_000_000),
        _ => (130_000_000_000_000_000 + g.below(1 << 53) as i64, g.range(-14, 14) * 36_000_000_000),
    };
    g.key(&(utc, off));
    let got = s2protocol::transform_to_naivetime(utc, off);
    let t = got.ok_or_else(|| format!("utc {utc} offset {off}: no date"))?;
    let micros = t.and_utc().timestamp_micros() as i128;
    // tenths of a microsecond since 1601
    let exact = utc as i128 - off as i128 - 116_444_736_000_000_000;
    let d = micros * 10 - exact;
    let slack = if utc % 10 == 0 && off % 10 == 0 { 0 } else { 20 };
    ensure!(d.abs() <= slack, "utc {utc} offset {off}: {t} ({micros} us since 1970), expected {} tenths", exact);
    g.label(if exact < 0 { "before 1970" } else { "after 1970" });
    g.sample(|| format!("utc {utc} offset {off}: {t}"));
    Ok(())
}
fn c23_loops(g: &mut Gen) -> Res {
    let mut one = |g: &mut Gen| match g.below(3) {
        0 => any_i64(g),
        1 => g.below(100_000) as i64,
        // the first loop of a second, and the last before it
        _ => (g.below(20_000) as f64 * 1000.0 / 68.58391).ceil() as i64 - g.below(2) as i64,
    };
    let mut v = [one(g), one(g)];
    v.sort();
    g.key(&v);
    let fs: [(&str, fn(i64) -> u32); 2] = [("convert_game_loop_to_seconds", s2protocol::convert_game_loop_to_seconds), ("convert_tracker_loop_to_seconds", s2protocol::convert_tracker_loop_to_seconds)];
    for (n, f) in fs {
        let s = [f(v[0]), f(v[1])];
        for i in 0..2 {
            ensure!(seconds_ok(v[i], &json!(s[i])), "{n}({}) is {}, expected {:?}", v[i], s[i], v[i] as f64 * 0.06858391);
        }
        ensure!(s[0] <= s[1], "{n}: {} is {} but {} is {}", v[0], s[0], v[1], s[1]);
    }
    g.sample(|| format!("{v:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C24
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}
fn archive_of(name: &str, content: &[u8]) -> Vec<u8> {
    mpq::archive(None, &[("other", b"nothing".to_vec()), (name, content.to_vec())])
}
const MOD: &str = "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod";
/// Text without NUL, mostly valid.
fn cstr(g: &mut Gen) -> Vec<u8> {
    let mut b = g.bytes(12);
    if g.chance(2, 3) {
        b.iter_mut().for_each(|x| *x = b'a' + *x % 26);
    }
    b.retain(|x| *x != 0);
    b
}
fn c24_header(g: &mut Gen) -> Res {
    let ints: Vec<i32> = (0..4).map(|_| g.bits(32) as u32 as i32).collect();
    let mut fields = vec![];
    let count = if g.chance(1, 600) { 250 + g.idx(700) } else { g.idx(6) };
    for _ in 0..count {
        let n = match g.below(8) {
            0 | 1 => b"DocInfo/Name".to_vec(),
            2 | 3 => b"DocInfo/DescLong".to_vec(),
            4 => b"DocInfo/DescShort".to_vec(),
            5 => b"MapInfo/Player01/Name".to_vec(),
            6 => g.pick(&[&b"DocInfo/Nam"[..], b"DocInfo/Name2", b"docinfo/name", b"", b"DocInfo/HowToPlayBasic00", b" DocInfo/Name", b"DocInfo/Name\0", b"DocInfo/DescLong "]).to_vec(),
            _ => g.bytes(20),
        };
        let v = if g.chance(1, 20) {
            g.bytes_n(300)
        } else if g.chance(1, 600) {
            vec![b'a' + g.below(26) as u8; *g.pick(&[255usize, 256, 32767, 32768, 65535])]
        } else {
            g.bytes(20)
        };
        fields.push((n, v));
    }
    let mut b = b"H2CS".to_vec();
    b.extend(g.bytes_n(12));
    b.extend(ints[0].to_le_bytes());
    b.extend(ints[1].to_le_bytes());
    b.extend(g.bytes_n(4));
    b.extend(ints[2].to_le_bytes());
    b.extend(ints[3].to_le_bytes());
    b.extend(g.bytes_n(12));
    // where damage shows: (position, what)
    let mut tags = vec![(0, "magic"), (b.len() + g.idx(MOD.len() + 1), "mod string")];
    b.extend(MOD.as_bytes());
    b.push(0);
    b.extend((fields.len() as u16).to_le_bytes());
    tags.push((b.len() + g.idx(2), "delimiter"));
    b.extend([0, 0]);
    for (n, v) in &fields {
        b.extend((n.len() as u16).to_le_bytes());
        b.extend(n);
        tags.push((b.len() + g.idx(4), "field mark"));
        b.extend(b"SUne");
        b.extend((v.len() as u16).to_le_bytes());
        b.extend(v);
    }
    let size = b.len();
    let rest = g.bytes(9);
    b.extend(&rest);
    let ctx = || format!("document header {}", hex(&b));
    let read = |b: &[u8]| match DocumentHeader::parse(b) {
        Ok((t, h)) => Ok((t.to_vec(), h)),
        Err(e) => Err(format!("{e:?}")),
    };
    g.key(&b);
    match g.below(4) {
        0 => {
            let n = g.idx(size);
            g.label("truncated");
            let r = read(&b[..n]);
            ensure!(r.is_err(), "{}: the first {n} of {size} bytes are accepted: {r:?}", ctx());
            g.sample(|| format!("{} cut to {n} bytes is refused", ctx()));
        }
        1 => {
            let (p, what) = *g.pick(&tags);
            let mut c = b.clone();
            c[p] ^= 1 << g.idx(8);
            g.label(format!("wrong {what}"));
            let r = read(&c);
            ensure!(r.is_err(), "{}: a wrong {what} is accepted: {r:?}", ctx());
            g.sample(|| format!("{} with a wrong {what} is refused", ctx()));
        }
        k => {
            let (t, h) = if k == 2 {
                read(&b).map_err(|e| format!("{}: {e}", ctx()))?
            } else {
                g.label("in an archive");
                let a = archive_of("DocumentHeader", &b);
                let h = with_mpq(&a, |m| DocumentHeader::from_mpq(m, &a).map_err(|e| format!("{}: {e:?}", ctx())))??;
                (rest.clone(), h)
            };
            ensure!(t == rest, "{}: the rest is {}, expected {}", ctx(), hex(&t), hex(&rest));
            let last = |k: &str| fields.iter().rev().find(|f| f.0 == k.as_bytes()).map(|f| lossy(&f.1)).unwrap_or_default();
            let want = (ints.clone(), MOD.to_string(), last("DocInfo/Name"), last("DocInfo/DescLong"), last("DocInfo/DescShort"));
            let got = (vec![h.maybe_dimension_x1, h.maybe_dimension_y1, h.some_epoch_1, h.some_epoch_2], h.mod_info, h.name, h.description_long, h.description_short);
            ensure!(want == got, "{}: read as {got:?}, expected {want:?}", ctx());
            g.label(format!("{} fields", fields.len()));
            g.sample(|| format!("{want:?}"));
        }
    }
    Ok(())
}
struct Info {
    n: [i32; 7], // version, width, height, left, bottom, right, top
    s: [Vec<u8>; 4],
}
impl Info {
    fn generate(g: &mut Gen, max: i64) -> Info {
        let (w, h) = (g.range(1, max) as i32, g.range(1, max) as i32);
        let mut side = |size: i32, g: &mut Gen| {
            let hi = if g.chance(1, 4) { size } else { 1 + g.idx(size as usize) as i32 };
            (g.idx(hi as usize) as i32, hi)
        };
        let (l, r) = side(w, g);
        let (b, t) = side(h, g);
        let v = match g.below(4) {
            0 => 24,
            1 => 25,
            2 => 39,
            _ => g.bits(32) as u32 as i32,
        };
        Info { n: [v, w, h, l, b, r, t], s: [cstr(g), cstr(g), cstr(g), cstr(g)] }
    }
    fn bytes(&self, g: &mut Gen) -> Vec<u8> {
        let mut b = b"IpaM".to_vec();
        b.extend(self.n[0].to_le_bytes());
        if self.n[0] > 24 {
            b.extend(g.bytes_n(8));
        }
        b.extend(self.n[1].to_le_bytes());
        b.extend(self.n[2].to_le_bytes());
        b.extend(g.bytes_n(8));
        b.extend(vec![0; g.idx(4)]);
        b.extend(&self.s[0]);
        b.push(0);
        b.extend(&self.s[1]);
        b.push(0);
        b.extend(g.bytes_n(5));
        b.extend(&self.s[2]);
        b.push(0);
        b.extend(&self.s[3]);
        b.push(0);
        for k in 3..7 {
            b.extend(self.n[k].to_le_bytes());
        }
        b
    }
}
fn c24_map_info(g: &mut Gen) -> Res {
    let max = if g.bool() { 256 } else { 6 };
    let mut i = Info::generate(g, max);
    // the zeros before it belong to the padding
    if i.s[0].is_empty() {
        i.s[0].push(7);
    }
    let mode = g.below(5);
    let [_, w, h, l, b, r, t] = i.n;
    let mut what = "whole";
    if mode == 0 {
        let far = |g: &mut Gen| 1 + if g.bool() { 0 } else { g.bits(30) as i32 };
        match g.below(11) {
            0 => (i.n[1], what) = (256 + far(g), "width too large"),
            1 => (i.n[2], what) = (256 + far(g), "height too large"),
            2 => (i.n[1], what) = (1 - far(g), "no width"),
            3 => (i.n[2], what) = (1 - far(g), "no height"),
            4 => (i.n[3], what) = (-far(g), "left below 0"),
            5 => (i.n[4], what) = (-far(g), "bottom below 0"),
            6 => (i.n[3], what) = (r + far(g) - 1, "left is not left of right"),
            7 => (i.n[4], what) = (t + far(g) - 1, "bottom is not below top"),
            8 => (i.n[5], what) = (w + far(g), "right out of the map"),
            9 => (i.n[6], what) = (h + far(g), "top out of the map"),
            _ => what = "magic",
        }
    }
    let mut bytes = i.bytes(g);
    if what == "magic" {
        bytes[g.idx(4)] ^= 1 << g.idx(8);
    }
    let size = bytes.len();
    let rest = g.bytes(9);
    bytes.extend(&rest);
    let ctx = || format!("map info {:?} {}", i.n, hex(&bytes));
    let read = |b: &[u8]| match MapInfo::parse(b) {
        Ok((t, h)) => Ok((t.to_vec(), h)),
        Err(e) => Err(format!("{e:?}")),
    };
    g.key(&bytes);
    g.label(what);
    match mode {
        0 => {
            let r = read(&bytes);
            ensure!(r.is_err(), "{}: accepted: {what}: {r:?}", ctx());
            g.sample(|| format!("{:?}: refused, {what}", i.n));
        }
        1 => {
            let n = g.idx(size);
            g.label("truncated");
            let r = read(&bytes[..n]);
            ensure!(r.is_err(), "{}: the first {n} of {size} bytes are accepted: {r:?}", ctx());
        }
        _ => {
            let (tail, m) = if mode < 4 {
                read(&bytes).map_err(|e| format!("{}: {e}", ctx()))?
            } else {
                g.label("in an archive");
                let a = archive_of("MapInfo", &bytes);
                (rest.clone(), with_mpq(&a, |m| MapInfo::from_mpq(m, &a).map_err(|e| format!("{}: {e:?}", ctx())))??)
            };
            ensure!(tail == rest, "{}: the rest is {}, expected {}", ctx(), hex(&tail), hex(&rest));
            let got = [m.file_version, m.cell_width, m.cell_height, m.cell_left, m.cell_bottom, m.cell_right, m.cell_top];
            ensure!(got == i.n, "{}: read as {got:?}", ctx());
            let want: Vec<String> = i.s.iter().map(|s| lossy(s)).collect();
            let got = vec![m.first_string.clone(), m.second_string.clone(), m.third_string.clone(), m.fourth_string.clone()];
            ensure!(want == got, "{}: strings {got:?}, expected {want:?}", ctx());
            let c = |c: MapCellCoord| (c.x, c.y);
            let mt = |c: MapTerrainCoord| (c.x, c.y);
            let dims = [
                ("cell_dim_map", c(m.cell_dim_map()), (w, h)),
                ("terrain_dim_map", mt(m.terrain_dim_map()), (w + 1, h + 1)),
                ("cell_dim_playable", c(m.cell_dim_playable()), (r - l, t - b)),
                ("terrain_dim_playable", mt(m.terrain_dim_playable()), (r - l + 1, t - b + 1)),
                ("cell_left_bottom", c(m.cell_left_bottom()), (l, b)),
                ("cell_right_top", c(m.cell_right_top()), (r, t)),
                ("terrain_left_bottom", mt(m.terrain_left_bottom()), (l, b)),
            ];
            for (n, got, want) in dims {
                ensure!(got == want, "{}: {n} is {got:?}, expected {want:?}", ctx());
            }
            let (x, y) = (g.range(-300, 300) as i32, g.range(-300, 300) as i32);
            let p = PlayableTerrainCoord::from_map_terrain(&m, MapTerrainCoord::new(x, y));
            ensure_eq!((p.x, p.y), (x - l, y - b), "playable coordinate");
            g.sample(|| format!("{:?} {want:?}", i.n));
        }
    }
    Ok(())
}
fn c24_height(g: &mut Gen) -> Res {
    let max = if g.chance(1, 40) { 60 } else { 7 };
    let i = Info::generate(g, max);
    let ib = i.bytes(g);
    // an empty first string is swallowed by the zeros before it: only what is read counts
    let Ok((_, m)) = MapInfo::parse(&ib) else {
        g.trivial();
        return Ok(());
    };
    let d = m.terrain_dim_map();
    let n = (d.x * d.y) as usize;
    let heights: Vec<u8> = (0..n).map(|_| g.below(5) as u8).collect();
    let mode = g.below(6);
    let (mut w, mut h) = (d.x, d.y);
    let mut what = "whole";
    let mut b = b"HMAP".to_vec();
    b.extend([0x65, 0, 0, 0]);
    if mode == 0 {
        what = "other dimensions";
        match g.below(6) {
            0 => w += 1,
            1 => h -= 1,
            2 => (w, h) = (w - 1, h - 1),
            3 if w != h => (w, h) = (h, w),
            4 => (w, h) = (-w, -h),
            _ => w = (g.bits(32) as u32 as i32).min(d.x - 1),
        }
    }
    b.extend(w.to_le_bytes());
    b.extend(h.to_le_bytes());
    b.extend(g.bytes_n(16));
    let start = b.len();
    for x in &heights {
        let mut u = g.bytes_n(6);
        u[4] = *x;
        b.extend(u);
    }
    if mode == 1 {
        what = "height out of bounds";
        b[start + 6 * g.idx(n) + 4] = 5 + g.below(251) as u8;
    }
    if mode == 2 {
        what = "magic or version";
        b[g.idx(8)] ^= 1 << g.idx(8);
    }
    let size = b.len();
    let rest = g.bytes(9);
    b.extend(&rest);
    if mode == 3 {
        what = "truncated";
        b.truncate(g.idx(size));
    }
    let ctx = || format!("height map of {w}x{h} for {}x{}, {what}: {}", d.x, d.y, hex(&b[..b.len().min(64)]));
    g.key(&b);
    g.label(what);
    let in_archive = mode == 5;
    let r = if in_archive {
        let a = archive_of("t3HeightMap", &b);
        with_mpq(&a, |q| T3HeightMap::from_mpq(q, &a, &m).map(|t| (rest.clone(), t)).map_err(|e| format!("{e:?}")))?
    } else {
        match T3HeightMap::parse(&b, &m) {
            Ok((t, x)) => Ok((t.to_vec(), x)),
            Err(e) => Err(format!("{e:?}")),
        }
    };
    if mode < 4 {
        ensure!(r.is_err(), "{}: accepted", ctx());
    } else {
        let (tail, t) = r.map_err(|e| format!("{}: {e}", ctx()))?;
        ensure_eq!((t.width, t.height), (w, h), "dimensions");
        ensure!(t.data == heights, "{}: heights {:?}, expected {heights:?}", ctx(), t.data);
        ensure!(tail == rest, "{}: the rest is {}", ctx(), hex(&tail));
    }
    g.sample(ctx);
    Ok(())
}
fn c24_coords(g: &mut Gen) -> Res {
    let int = |g: &mut Gen| -> i32 { if g.bool() { g.range(-256, 256) as i32 } else { g.bits(24) as i32 * if g.bool() { 1 } else { -1 } } };
    let (x, y) = (int(g), int(g));
    g.key(&(x, y));
    // cell centres are in the middle between integers
    let m: MapCoord = MapCellCoord::new(x, y).into();
    if x.abs() < 1 << 22 && y.abs() < 1 << 22 {
        ensure_eq!((m.x as f64, m.y as f64), (x as f64 + 0.5, y as f64 + 0.5), "centre of a cell");
        if x >= 0 && y >= 0 {
            let c: MapCellCoord = m.into();
            ensure_eq!((c.x, c.y), (x, y), "the cell of its centre");
        }
    }
    let m: MapCoord = MapTerrainCoord::new(x, y).into();
    ensure_eq!((m.x as f64, m.y as f64), (x as f64, y as f64), "a terrain point");
    if (0..1 << 22).contains(&x) && (0..1 << 22).contains(&y) {
        let t: MapTerrainCoord = m.into();
        ensure_eq!((t.x, t.y), (x, y), "the terrain point at its place");
    }
    // any place on a map, in 1/16
    let (a, b) = (g.below(256 * 16) as i64, g.below(256 * 16) as i64);
    let p = MapCoord::new(a as f32 / 16.0, b as f32 / 16.0);
    let c: MapCellCoord = p.into();
    ensure_eq!((c.x as i64, c.y as i64), (a / 16, b / 16), "the cell at {p}");
    let t: MapTerrainCoord = p.into();
    ensure_eq!((t.x as i64, t.y as i64), ((a + 8) / 16, (b + 8) / 16), "the terrain point next to {p}");
    g.sample(|| format!("{x} {y} {p}"));
    Ok(())
}

// ---------------------------------------------------------------- C25
#[derive(Clone)]
struct Small {
    build: u32,
    lobby: bool,
    details: Option<(String, Vec<(String, bool)>)>, // map, players and whether they play
    odd: bool, // a file name that is no text
}
fn folder(g: &mut Gen, root: &Path, builds: &[u32]) -> Result<(Vec<Small>, usize), String> {
    fresh(root)?;
    // more than ten maps in some folders
    let many = g.chance(1, 6);
    let n = if many { 11 + g.idx(10) } else { g.idx(15) };
    let names = 2 + g.idx(22);
    let maps = if many { 30 } else { 1 + g.idx(13) };
    let (mut out, mut files) = (vec![], 0);
    let vs = versioned();
    for k in 0..n {
        let sub = if g.chance(1, 12) { &"a/b/c/d/e/f/g/h/i"[..2 * g.idx(9) + 1] } else { ["", "", "a", "a/b"][g.idx(4)] };
        let d = root.join(sub);
        io(std::fs::create_dir_all(&d))?;
        // a file name that is no text
        let odd = !out.iter().any(|r: &Small| r.odd) && g.chance(1, 60);
        let p = if odd { d.join(std::ffi::OsString::from_vec([k.to_string().as_bytes(), b"\xff\xc3.SC2Replay"].concat())) } else { d.join(format!("{k}.SC2Replay")) };
        files += 1;
        if g.chance(1, 10) {
            io(std::fs::write(&p, b"not an archive"))?;
            continue;
        }
        let build = *g.pick(builds);
        let s = bit_schema(build);
        let mut cast = gen_cast(g, s, 2, true);
        let mut players = vec![];
        let mut list = vec![];
        let mut left: Vec<usize> = (0..names).collect();
        for _ in 0..g.idx(5).min(names) {
            // few names are frequent
            let i = left.remove(if g.bool() { 0 } else { g.idx(left.len()) });
            let observe = if g.chance(1, 4) { 1 + g.below(2) as i64 } else { 0 };
            let mut pl = vs.gen_type(g, "GameSPlayerDetails", &TEXT);
            let name = match i % 5 {
                4 => format!("[Ñ]<sp/>名{i}"),
                3 if i == 3 => String::new(),
                _ => format!("N{i}"),
            };
            vs.set("GameSPlayerDetails", &mut pl, "m_name", V::Bytes(name.clone().into_bytes()));
            vs.set("GameSPlayerDetails", &mut pl, "m_observe", V::Enum(observe as usize, Box::new(V::Null)));
            list.push(pl);
            players.push((name, observe == 0));
        }
        vs.set("GameSDetails", &mut cast.details, "m_player_list", V::Opt(if list.is_empty() && g.bool() { None } else { Some(Box::new(V::Arr(list))) }));
        let map = format!("Map{}", if !many && g.bool() { 0 } else { g.idx(maps) });
        vs.set("GameSDetails", &mut cast.details, "m_title", V::Bytes(map.clone().into_bytes()));
        let mut f = Files { header: plain_header(build), tracker: None, game: None, message: None, details: None, init: None };
        cast.write(g, s, &mut f);
        let mut r = Small { build, lobby: true, details: Some((map, players)), odd };
        match g.below(if many { 60 } else { 12 }) {
            0 => (f.details, r.details) = (None, None),
            1 => {
                f.details.as_mut().unwrap().truncate(3);
                r.details = None;
            }
            2 => (f.init, r.lobby) = (None, false),
            3 => {
                f.init.as_mut().unwrap().truncate(1);
                r.lobby = false;
            }
            _ => {}
        }
        io(std::fs::write(&p, f.archive()))?;
        out.push(r);
    }
    Ok((out, files))
}
fn top10(what: &str, count: &BTreeMap<&str, usize>, got: &[(String, usize)]) -> Res {
    ensure!(got.len() == count.len().min(10), "{what}: {} are listed out of {}: {got:?} {count:?}", got.len(), count.len());
    let mut seen = BTreeSet::new();
    for (n, c) in got {
        ensure!(seen.insert(n.as_str()), "{what}: {n} is listed twice: {got:?}");
        ensure!(count.get(n.as_str()) == Some(c), "{what}: {n} is listed with {c}, expected {:?}: {got:?}", count.get(n.as_str()));
    }
    ensure!(got.windows(2).all(|w| w[0].1 >= w[1].1), "{what}: not in descending order: {got:?}");
    if let Some(last) = got.last() {
        if let Some(x) = count.iter().find(|x| !seen.contains(x.0) && *x.1 > last.1) {
            return Err(format!("{what}: {x:?} is left out: {got:?}"));
        }
    }
    Ok(())
}
fn judge(reps: &[Small], files: usize, supported: &dyn Fn(u32) -> bool, st: &SC2ReplaysDirStats) -> Res {
    let first = judge_one(reps, files, supported, st);
    let Some(k) = reps.iter().position(|r| r.odd) else { return first };
    // whether a replay counts whose file name is no text, or only its lobby data, is open
    if first.is_ok() {
        return Ok(());
    }
    let mut reps = reps.to_vec();
    reps[k].details = None;
    if judge_one(&reps, files, supported, st).is_ok() {
        return Ok(());
    }
    reps.remove(k);
    judge_one(&reps, files, supported, st)
}
fn judge_one(reps: &[Small], files: usize, supported: &dyn Fn(u32) -> bool, st: &SC2ReplaysDirStats) -> Res {
    let ok: Vec<&Small> = reps.iter().filter(|r| r.lobby).collect();
    ensure_eq!(st.total_files, files, "total files");
    ensure_eq!(st.total_supported_replays, ok.len(), "supported replays");
    ensure_eq!(st.ability_supported_replays, ok.iter().filter(|r| supported(r.build)).count(), "replays with ability data");
    let (mut pl, mut maps) = (BTreeMap::new(), BTreeMap::new());
    for r in &ok {
        if let Some((m, p)) = &r.details {
            *maps.entry(m.as_str()).or_insert(0) += 1;
            for (n, plays) in p {
                if *plays {
                    *pl.entry(n.as_str()).or_insert(0) += 1;
                }
            }
        }
    }
    top10("players", &pl, &st.top_10_players)?;
    top10("maps", &maps, &st.top_10_maps)
}
fn c25(g: &mut Gen) -> Res {
    let root = g.dir.join("stats");
    let pool = [gen_build(g), gen_build(g), 91115, 75689, 96883];
    let (reps, files) = folder(g, &root, &pool)?;
    let mut data: Balance = HashMap::new();
    let mut versions = BTreeSet::new();
    for b in pool {
        if g.bool() {
            let (all, own) = gen_balance(g, b);
            if !own.is_empty() {
                versions.extend(all.keys().map(|k| k.0));
                data.extend(all);
            }
        }
    }
    for serial in [true, false] {
        let st = scan_path(root.to_str().unwrap(), &data, serial).map_err(|e| format!("the folder is not scanned: {e}"))?;
        judge(&reps, files, &|b| versions.contains(&b), &st).map_err(|e| format!("{} {e}", if serial { "serial:" } else { "parallel:" }))?;
    }
    if reps.iter().filter(|r| r.lobby && r.details.as_ref().is_some_and(|d| d.1.iter().any(|p| p.1))).count() < 2 {
        g.trivial();
    }
    g.label(format!("{} replays", reps.len() / 5 * 5));
    g.sample(|| format!("{files} files, {} replays, data of {versions:?}", reps.len()));
    Ok(())
}
fn c25_assets(g: &mut Gen) -> Res {
    static V: OnceLock<BTreeSet<u32>> = OnceLock::new();
    let versions = V.get_or_init(|| {
        let d = s2protocol::game_events::ability::balance_data::json_handler::read_balance_data_from_included_assets().expect("included balance data");
        d.keys().map(|k| k.0).collect()
    });
    let mut pool: Vec<u32> = versions.iter().copied().collect();
    pool.push(91115);
    let root = g.dir.join("stats");
    let (reps, files) = folder(g, &root, &pool)?;
    let serial = g.bool();
    let st = SC2ReplaysDirStats::from_directory(root.to_str().unwrap(), serial).map_err(|e| format!("the folder is not scanned: {e}"))?;
    judge(&reps, files, &|b| versions.contains(&b), &st)?;
    if reps.len() < 2 {
        g.trivial();
    }
    g.sample(|| format!("{files} files, {} replays, {versions:?}", reps.len()));
    Ok(())
}

// ---------------------------------------------------------------- files for C17
pub fn info_file(g: &mut Gen, w: i32, h: i32) -> Vec<u8> {
    let mut i = Info::generate(g, 5);
    (i.n[1], i.n[2]) = (w, h);
    (i.n[3], i.n[4], i.n[5], i.n[6]) = (0, 0, w, h);
    i.s[0] = b"x".to_vec();
    i.bytes(g)
}
pub fn height_file(g: &mut Gen, w: i32, h: i32) -> Vec<u8> {
    let mut b = b"HMAP\x65\0\0\0".to_vec();
    b.extend(w.to_le_bytes());
    b.extend(h.to_le_bytes());
    b.extend([0; 16]);
    for _ in 0..w * h {
        b.extend([1, 2, 3, 4, g.below(5) as u8, 6]);
    }
    b
}
pub fn header_file(g: &mut Gen) -> Vec<u8> {
    let mut b = b"H2CS".to_vec();
    b.extend([1; 44]);
    b.extend(MOD.as_bytes());
    b.push(0);
    let n = g.idx(4);
    b.extend((n as u16).to_le_bytes());
    b.extend([0, 0]);
    for _ in 0..n {
        b.extend(12u16.to_le_bytes());
        b.extend(b"DocInfo/NameSUne");
        let v = g.bytes(9);
        b.extend((v.len() as u16).to_le_bytes());
        b.extend(v);
    }
    b
}

// ---------------------------------------------------------------- C30
fn c30_tags(g: &mut Gen) -> Res {
    use s2protocol::tracker_events::{unit_tag, unit_tag_index, unit_tag_recycle};
    let edge = |g: &mut Gen, bits: usize| match g.below(4) {
        0 => 0u64,
        1 => (1 << bits) - 1,
        2 => 1 << g.idx(bits),
        _ => g.bits(bits),
    };
    // a tag of the game events: 14 bits of index, 18 of recycle number
    let (i, r) = (edge(g, 14), edge(g, 18));
    let t = unit_tag(i as u32, r as u32);
    ensure_eq!(t, (i * 262_144 + r) as i64, "unit tag of index {i} and recycle number {r}");
    ensure_eq!((unit_tag_index(t), unit_tag_recycle(t)), (i as u32, r as u32), "index and recycle number of unit tag {t}");
    // only the lower 32 bits of a tag have a meaning
    let any = match g.below(3) {
        0 => g.u64() as i64,
        1 => t | (g.u64() << 32) as i64,
        _ => g.bits(32) as i64,
    };
    ensure_eq!((unit_tag_index(any), unit_tag_recycle(any)), ((any as u64 as u32) >> 18, any as u64 as u32 & 0x3ffff), "index and recycle number of unit tag {any}");
    if i == 0 || r == 0 {
        g.trivial();
    }
    g.key(&(i, r, any));
    g.sample(|| format!("index {i}, recycle number {r}: tag {t}"));
    Ok(())
}
fn c30_coords(g: &mut Gen) -> Res {
    use s2protocol::cache_handles::map::coords::*;
    use s2protocol::common::Vec3D;
    use s2protocol::game_events::GameSMapCoord3D;
    let (cx, cy) = (g.range(0, 8191) as i32, g.range(0, 8191) as i32);
    let (fx, fy) = (g.idx(1024) as f32 / 1024., g.idx(1024) as f32 / 1024.);
    let c = MapCellCoord::new(cx, cy);
    let m = MapCoord::from(c);
    ensure_eq!((m.x, m.y), (cx as f32 + 0.5, cy as f32 + 0.5), "the centre of {c:?}");
    ensure_eq!(MapCellCoord::from(m), c, "the cell of the centre of a cell");
    // every point of the cell
    let p = MapCoord::new(cx as f32 + fx, cy as f32 + fy);
    ensure_eq!(MapCellCoord::from(p), c, "the cell of {p:?}");
    let t = MapTerrainCoord::new(cx, cy);
    let m = MapCoord::from(t);
    ensure_eq!((m.x, m.y), (cx as f32, cy as f32), "the place of {t:?}");
    ensure_eq!(MapTerrainCoord::from(m), t, "the terrain point at the place of a terrain point");
    // the nearest terrain point
    let near = MapTerrainCoord::new(cx + (fx >= 0.5) as i32, cy + (fy >= 0.5) as i32);
    ensure_eq!(MapTerrainCoord::from(p), near, "the terrain point nearest to {p:?}");
    ensure_eq!((c.to_string(), t.to_string()), (format!("MapCellCoord{{x: {cx}mc, y: {cy}mc}}"), format!("MapTerrainCoord{{x: {cx}mt, y: {cy}mt}}")), "shown as text");
    // relative to the playable area
    let (l, b) = (g.range(0, 8191) as i32, g.range(0, 8191) as i32);
    let info = MapInfo { file_version: 1, cell_width: 8192, cell_height: 8192, first_string: String::new(), second_string: String::new(), third_string: String::new(), fourth_string: String::new(), cell_left: l, cell_bottom: b, cell_right: 8192, cell_top: 8192 };
    let q = PlayableTerrainCoord::from_map_terrain(&info, t);
    ensure_eq!((q.x, q.y), (cx - l, cy - b), "{t:?} relative to the playable area from ({l}, {b})");
    // positions of commands, 4096 to the unit, with the y axis pointing the other way
    let (x, y, z) = (g.range(0, (1 << 20) - 1), g.range(0, (1 << 20) - 1), g.range(-(1 << 20), (1 << 20) - 1));
    let v = Vec3D::from(GameSMapCoord3D { x, y, z: z as _ });
    ensure_eq!((v.x() as f64, v.y() as f64, v.z() as f64), (x as f64 / 4096., -(y as f64) / 4096., z as f64 / 4096.), "the position of ({x}, {y}, {z})");
    if fx == 0. && fy == 0. {
        g.trivial();
    }
    g.key(&(cx, cy, (fx * 1024.) as i32, (fy * 1024.) as i32, x, y, z));
    g.sample(|| format!("{p:?}: {c:?}, {near:?}"));
    Ok(())
}
fn c30_stats(g: &mut Gen) -> Res {
    use s2protocol::tracker_events::PlayerStats;
    // the names of the fields, as reading them from JSON asks for them
    static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let names = NAMES.get_or_init(|| {
        let mut o = serde_json::Map::new();
        while let Err(e) = serde_json::from_value::<PlayerStats>(serde_json::Value::Object(o.clone())) {
            let e = e.to_string();
            let Some(n) = e.strip_prefix("missing field `").and_then(|e| e.strip_suffix('`')) else { break };
            o.insert(n.to_string(), serde_json::json!(0));
        }
        o.keys().cloned().collect()
    });
    let mut o: serde_json::Map<_, _> = names.iter().map(|n| (n.clone(), serde_json::json!(0))).collect();
    let mut seen = std::collections::HashSet::new();
    for v in o.values_mut() {
        let n = if g.chance(1, 3) { g.range(-2, 2) } else { g.bits(32) as i32 as i64 };
        seen.insert(n);
        *v = serde_json::json!(n);
    }
    let s: PlayerStats = serde_json::from_value(serde_json::Value::Object(o.clone())).map_err(|e| format!("statistics {e}"))?;
    let list = s.as_prop_name_value_vec();
    let mut got = std::collections::BTreeMap::new();
    for (k, v) in &list {
        ensure!(got.insert(k.replacen('/', "_", 1), *v as i64).is_none(), "two statistics are named {k}");
    }
    let want: std::collections::BTreeMap<String, i64> = o.iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap())).collect();
    for (k, v) in &want {
        ensure_eq!(got.get(k), Some(v), "the statistic {k} by its name");
    }
    ensure_eq!(got.len(), want.len(), "number of statistics");
    if seen.len() < 20 {
        g.trivial();
    }
    g.key(&format!("{want:?}"));
    g.sample(|| format!("{} statistics, the first is {:?}", list.len(), list[0]));
    Ok(())
}
