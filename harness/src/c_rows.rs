//! C19: flat rows and the Arrow files written from them.
use crate::c_iter::player_row;
use crate::c_replay::to_json;
use crate::engine::*;
use crate::schema::V;
use crate::synth::*;
use crate::{Property, ensure, ensure_eq};
use arrow::array::*;
use arrow::datatypes::{DataType, TimeUnit};
use s2protocol::arrow_store::{ArrowIpcTypes, WriteArrowIpcProps};
use s2protocol::details::PlayerLobbyDetails;
use s2protocol::{InitData, SC2EventIterator};
use serde_json::{Value as J, json};
use std::path::Path;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C19",
        rule: "synthesized replays (players, units, commands, statistics) whose flat rows are compared with the items of the iterator, and folders of 1..4 such replays (base builds inside and outside of the asked range, damaged files, nested folders) exported to Arrow files that are read back, serially or in parallel; non-trivial: at least two kinds of rows",
        assumptions: &["the items of the iterator are judged by C12 and C14-C16", "the arrow crate reads back what is in a file"],
        checks: vec![check("rows", c19_rows, 12_000, 20), check("export", c19_export, 400, 20)],
    }]
}
pub const KINDS: [&str; 6] = ["stats", "upgrades", "unit_born", "unit_died", "cmd_target_point", "cmd_target_unit"];

/// Seconds of a loop: 68.58391 ms per loop, truncated; the precision is that of an f32.
pub fn seconds_ok(at: i64, got: &J) -> bool {
    let exact = at as f64 * 68.58391 / 1000.0;
    let eps = exact.abs() * 4e-7 + 1e-9;
    let clamp = |x: f64| x.floor().clamp(0.0, u32::MAX as f64);
    got.as_u64().is_some_and(|s| clamp(exact - eps) <= s as f64 && s as f64 <= clamp(exact + eps))
}
/// Rows by kind, one group per event. The seconds are left out.
fn expected(items: &[J], id: u64) -> Vec<Vec<Vec<J>>> {
    let mut out: Vec<Vec<Vec<J>>> = vec![vec![]; 6];
    for x in items {
        let hint = &x["change_hint"];
        if let Some(t) = x["event_type"].get("Tracker") {
            let at = &t["tracker_loop"];
            let (kind, e) = t["event"].as_object().unwrap().iter().next().unwrap();
            match kind.as_str() {
                "PlayerStats" => {
                    let mut r = e["stats"].clone();
                    r["player_id"] = e["player_id"].clone();
                    r["ext_replay_loop"] = at.clone();
                    r["ext_fs_id"] = json!(id);
                    out[0].push(vec![r]);
                }
                "Upgrade" => out[1].push(vec![json!({"player_id": e["player_id"], "name": e["upgrade_type_name"], "count": e["count"], "ext_replay_loop": at, "ext_fs_id": id})]),
                "UnitBorn" | "UnitDone" | "UnitTypeChange" => {
                    let Some(r) = hint.get("Registered") else { continue };
                    let (u, c) = (&r["unit"], &r["creator"]);
                    let born = kind == "UnitBorn";
                    let or = |a: &str, b: &J| if born { e[a].clone() } else { b.clone() };
                    out[2].push(vec![json!({
                        "unit_tag_index": e["unit_tag_index"], "unit_tag_recycle": e["unit_tag_recycle"],
                        "unit_type_name": or("unit_type_name", &u["name"]),
                        "control_player_id": or("control_player_id", &u["user_id"]),
                        "upkeep_player_id": or("upkeep_player_id", &u["user_id"]),
                        "x": if born { json!(e["x"].as_f64().unwrap()) } else { u["pos"][0].clone() },
                        "y": if born { json!(e["y"].as_f64().unwrap()) } else { u["pos"][1].clone() },
                        "creator_unit_tag_index": or("creator_unit_tag_index", &J::Null),
                        "creator_unit_tag_recycle": or("creator_unit_tag_recycle", &J::Null),
                        "creator_unit_type_name": c["name"],
                        "creator_ability_name": or("creator_ability_name", &u["creator_ability_name"]),
                        "player_name": u["player_name"], "ext_replay_loop": at, "ext_fs_id": id,
                    })]);
                }
                "UnitDied" => {
                    let Some(r) = hint.get("Unregistered") else { continue };
                    out[3].push(vec![json!({
                        "unit_died_name": r["killed"]["name"], "unit_tag_index": e["unit_tag_index"], "unit_tag_recycle": e["unit_tag_recycle"],
                        "killer_player_id": e["killer_player_id"], "x": e["x"], "y": e["y"], "unit_killer_name": r["killer"]["name"].as_str().unwrap_or(""),
                        "killer_unit_tag_index": e["killer_unit_tag_index"], "killer_unit_tag_recycle": e["killer_unit_tag_recycle"],
                        "ext_replay_loop": at, "ext_fs_id": id,
                    })]);
                }
                _ => {}
            }
            continue;
        }
        let gm = &x["event_type"]["Game"];
        let (Some(e), Some(ab)) = (gm["event"].get("Cmd"), hint.get("Abilities")) else { continue };
        let units = ab["units"].as_array().unwrap();
        let a = &e["m_abil"];
        let base = |u: &J| {
            json!({
                "user_id": gm["user_id"], "player_name": gm["player_name"], "cmd_flags": e["m_cmd_flags"], "abil_link": a["m_abil_link"], "abil_cmd_index": a["m_abil_cmd_index"],
                "ability": a["ability"].as_str().unwrap_or(""), "sequence": e["m_sequence"], "unit_name": u["name"], "ext_replay_loop": gm["game_loop"], "ext_fs_id": id,
            })
        };
        if let Some(p) = e["m_data"].get("TargetPoint") {
            out[4].push(
                units
                    .iter()
                    .map(|u| {
                        let mut r = base(u);
                        for k in ["x", "y", "z"] {
                            r[format!("target_point_{k}")] = p[k].clone();
                        }
                        r["unit_group"] = e["m_unit_group"].clone();
                        r
                    })
                    .collect(),
            );
        }
        if let Some(t) = e["m_data"].get("TargetUnit") {
            out[5].push(
                units
                    .iter()
                    .map(|u| {
                        let mut r = base(u);
                        for k in ["target_unit_flags", "tag", "snapshot_unit_link", "snapshot_control_player_id", "snapshot_upkeep_player_id"] {
                            r[k] = t[format!("m_{k}")].clone();
                        }
                        for k in ["x", "y", "z"] {
                            r[format!("snapshot_point_{k}")] = t["m_snapshot_point"][k].clone();
                        }
                        r["target_unit_name"] = json!(u["cmd"]["other_unit_name"].as_str().unwrap_or(""));
                        r
                    })
                    .collect(),
            );
        }
    }
    out
}
/// The rows of a replay, by kind.
pub fn rows(init: &InitData, all: &Balance) -> Result<Vec<Vec<J>>, String> {
    let it = || SC2EventIterator::new(init, all.clone()).map_err(|e| format!("{e:?}"));
    let v = |j: J| j.as_array().unwrap().clone();
    Ok(vec![
        v(to_json(&it()?.collect_into_player_stats_flat_rows())),
        v(to_json(&it()?.collect_into_upgrades_flat_rows())),
        v(to_json(&it()?.collect_into_unit_born_flat_rows())),
        v(to_json(&it()?.collect_into_unit_died_flat_rows())),
        v(to_json(&it()?.collect_into_game_cmd_target_points_flat_rows())),
        v(to_json(&it()?.collect_into_game_cmd_target_units_flat_rows())),
    ])
}
fn equal(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| equal(v, w))),
        (J::Number(a), J::Number(b)) => a == b || a.as_f64() == b.as_f64() && (a.is_f64() || b.is_f64()),
        (a, b) => a == b,
    }
}
fn judge_rows(kind: &str, want: &[Vec<J>], got: &[J]) -> Res {
    let n: usize = want.iter().map(|w| w.len()).sum();
    ensure!(n == got.len(), "{kind}: {} rows, expected {n}: got {}, expected {}", got.len(), J::Array(got.to_vec()), J::Array(want.concat()));
    let mut at = 0;
    for w in want {
        let mut rest = got[at..at + w.len()].to_vec();
        at += w.len();
        for x in w {
            let found = rest.iter().position(|r| {
                let mut r = r.clone();
                let s = r["ext_replay_seconds"].take();
                r.as_object_mut().unwrap().remove("ext_replay_seconds");
                equal(x, &r) && seconds_ok(x["ext_replay_loop"].as_i64().unwrap(), &s)
            });
            match found {
                Some(k) => {
                    rest.remove(k);
                }
                None => return Err(format!("{kind}: expected {x}, got {}", J::Array(rest))),
            }
        }
    }
    Ok(())
}
const PLAN: Plan = Plan { max_tracker: 30, max_game: 24, stats: 1, wide: false };

fn c19_rows(g: &mut Gen) -> Res {
    let mut plan = PLAN;
    plan.stats = g.below(4);
    plan.wide = g.chance(1, 6);
    let r = replay(g, &plan, "rows.SC2Replay")?;
    let (all, _) = gen_balance(g, r.build);
    let items: Vec<J> = SC2EventIterator::new(&r.init, all.clone()).map_err(|e| format!("{e:?}"))?.map(|i| to_json(&i)).collect();
    let want = expected(&items, r.id);
    let got = rows(&r.init, &all)?;
    let mut kinds = 0;
    for k in 0..6 {
        judge_rows(KINDS[k], &want[k], &got[k])?;
        kinds += !got[k].is_empty() as usize;
        if !got[k].is_empty() {
            g.label(KINDS[k]);
        }
    }
    if kinds < 2 {
        g.trivial();
    }
    g.key(&r.bytes);
    g.sample(|| J::Array(got.iter().filter_map(|v| v.first().cloned()).collect()).to_string().chars().take(1500).collect());
    Ok(())
}

// ---------------------------------------------------------------- Arrow files

fn cell(a: &dyn Array, i: usize) -> Result<J, String> {
    if a.is_null(i) {
        return Ok(J::Null);
    }
    macro_rules! p {
        ($t:ty) => {
            json!(a.as_any().downcast_ref::<$t>().unwrap().value(i))
        };
    }
    Ok(match a.data_type() {
        DataType::Boolean => p!(BooleanArray),
        DataType::UInt8 => p!(UInt8Array),
        DataType::UInt16 => p!(UInt16Array),
        DataType::UInt32 => p!(UInt32Array),
        DataType::UInt64 => p!(UInt64Array),
        DataType::Int8 => p!(Int8Array),
        DataType::Int16 => p!(Int16Array),
        DataType::Int32 => p!(Int32Array),
        DataType::Int64 => p!(Int64Array),
        DataType::Float32 => p!(Float32Array),
        DataType::Float64 => p!(Float64Array),
        DataType::Utf8 => p!(StringArray),
        DataType::LargeUtf8 => p!(LargeStringArray),
        DataType::Timestamp(TimeUnit::Nanosecond, _) => p!(TimestampNanosecondArray),
        DataType::Timestamp(TimeUnit::Microsecond, _) => json!(a.as_any().downcast_ref::<TimestampMicrosecondArray>().unwrap().value(i) * 1000),
        DataType::Timestamp(TimeUnit::Millisecond, _) => json!(a.as_any().downcast_ref::<TimestampMillisecondArray>().unwrap().value(i) * 1_000_000),
        t => return Err(format!("harness: column type {t:?}")),
    })
}
pub fn read_arrow(p: &Path) -> Result<Vec<J>, String> {
    let f = std::fs::File::open(p).map_err(|e| format!("{}: {e}", p.display()))?;
    let r = arrow::ipc::reader::FileReader::try_new(f, None).map_err(|e| format!("{}: {e}", p.display()))?;
    let mut out = vec![];
    for b in r {
        let b = b.map_err(|e| format!("{}: {e}", p.display()))?;
        let s = b.schema();
        for i in 0..b.num_rows() {
            let mut m = serde_json::Map::new();
            for (k, f) in s.fields().iter().enumerate() {
                m.insert(f.name().clone(), cell(b.column(k).as_ref(), i)?);
            }
            out.push(J::Object(m));
        }
    }
    Ok(out)
}
fn sorted(mut v: Vec<J>) -> Vec<String> {
    let mut s: Vec<String> = v.iter_mut().map(|j| canonical(j).to_string()).collect();
    s.sort();
    s
}
/// Numbers in one form.
fn canonical(j: &mut J) -> J {
    match j {
        J::Number(n) if n.is_f64() => json!(n.as_f64().unwrap() as f32 as f64),
        J::Object(o) => J::Object(o.iter_mut().map(|(k, v)| (k.clone(), if k == "x" || k == "y" { json!(v.as_f64().unwrap() as f32 as f64) } else { canonical(v) })).collect()),
        j => j.clone(),
    }
}

fn c19_export(g: &mut Gen) -> Res {
    let src = g.dir.join("in");
    let out = g.dir.join("out");
    for d in [&src, &out] {
        let _ = std::fs::remove_dir_all(d);
        std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
    }
    let n = 1 + g.idx(4);
    let mut reps = vec![];
    let mut all = Balance::new();
    for k in 0..n {
        let sub = ["", "a/", "a/b/", "c/"][g.idx(4)];
        let plan = Plan { max_tracker: 20, max_game: 14, stats: g.below(3), wide: false };
        // times that an Arrow timestamp can hold
        let mut r = replay(g, &plan, &format!("in/{sub}r{k}.SC2Replay"))?;
        let s = crate::schema::versioned();
        let t = 116_444_736_000_000_000 + g.below(1 << 54) as i64;
        s.set("GameSDetails", &mut r.cast.details, "m_time_utc", V::Int(t));
        s.set("GameSDetails", &mut r.cast.details, "m_time_local_offset", V::Int(g.range(-12, 12) * 36_000_000_000));
        rewrite(g, &mut r)?;
        let (b, _) = gen_balance(g, r.build);
        all.extend(b);
        reps.push(r);
    }
    // one of which a part is unreadable: what is written of it is not judged, but the others are all there
    let bad = if reps.len() > 1 && g.chance(1, 3) { Some(g.idx(reps.len())) } else { None };
    if let Some(i) = bad {
        let r = &mut reps[i];
        let (what, part) = match g.below(4) {
            0 => ("details", &mut r.files.details),
            1 => ("lobby data", &mut r.files.init),
            2 => ("tracker events", &mut r.files.tracker),
            _ => ("game events", &mut r.files.game),
        };
        if g.bool() {
            *part = None;
        } else if let Some(b) = part {
            let k = g.idx(b.len() + 1);
            b.truncate(k);
        }
        r.bytes = r.files.archive();
        std::fs::write(&r.path, &r.bytes).map_err(|e| e.to_string())?;
        g.label(format!("unreadable {what}"));
    }
    for k in 0..g.idx(3) {
        let junk = if g.bool() { g.bytes(40).into_iter().map(|b| b & 0x3f).collect() } else { b"no replay".to_vec() };
        std::fs::write(src.join(format!("junk{k}.SC2Replay")), junk).map_err(|e| e.to_string())?;
    }
    let builds: Vec<u32> = reps.iter().map(|r| r.build).collect();
    let bound = |g: &mut Gen, d: i64| if g.chance(1, 2) { None } else { Some((*g.pick(&builds) as i64 + g.range(0, 1) * d).max(0) as u32) };
    let props = WriteArrowIpcProps {
        scan_max_files: if g.chance(1, 6) { 1 + g.idx(4) } else { 1000 },
        process_max_files: if g.chance(1, 3) { 1 + g.idx(3) } else { 1000 },
        traverse_max_depth: if g.chance(1, 6) { 1 + g.idx(3) } else { 10 },
        min_version: bound(g, 1),
        max_version: bound(g, -1),
    };
    // which of them are exported, and as what
    let found = s2protocol::get_matching_files(src.clone(), props.scan_max_files, props.traverse_max_depth).map_err(|e| e.to_string())?;
    let mut chosen = vec![];
    for (id, p) in found.iter().enumerate() {
        let Some(r) = reps.iter().find(|r| r.path == *p) else { continue };
        if props.min_version.is_some_and(|m| r.build < m) || props.max_version.is_some_and(|m| r.build > m) {
            continue;
        }
        if bad.is_some_and(|i| reps[i].path == r.path) && InitData::try_from((r.path.clone(), id as u64)).is_err() {
            continue;
        }
        if chosen.len() < props.process_max_files {
            chosen.push((id, r));
        }
    }
    if chosen.is_empty() {
        // documented to give up
        g.trivial();
        return Ok(());
    }
    let serial = g.bool();
    // files that are there are replaced
    if g.chance(1, 4) {
        for k in KINDS.iter().chain(&["details", "once"]) {
            let len = 1 << g.idx(18);
            std::fs::write(out.join(format!("{k}.arrow")), "x".repeat(len)).map_err(|e| e.to_string())?;
        }
    }
    ArrowIpcTypes::handle_arrow_ipc_cmd(src.clone(), out.clone(), &props, &all, serial).map_err(|e| format!("export failed: {e}"))?;
    let mut want: Vec<Vec<J>> = vec![vec![]; 6];
    let mut players = vec![];
    let bad_id = bad.and_then(|i| chosen.iter().find(|(_, r)| r.path == reps[i].path)).map(|x| x.0);
    let judged = |v: Vec<J>| -> Vec<J> { v.into_iter().filter(|j| bad_id.is_none_or(|id| j["ext_fs_id"] != json!(id))).collect() };
    for (id, r) in chosen.iter().filter(|x| Some(x.0) != bad_id) {
        let init = InitData::try_from((r.path.clone(), *id as u64)).map_err(|e| format!("{e:?}"))?;
        for (k, v) in rows(&init, &all)?.into_iter().enumerate() {
            want[k].extend(v);
        }
        let ps: Vec<PlayerLobbyDetails> = (&init).try_into().map_err(|e: s2protocol::S2ProtocolError| format!("{e:?}"))?;
        for p in ps {
            let mut row = player_row(&to_json(&p));
            row["ext_datetime"] = json!((p.time_utc / 10 - 11_644_473_600_000_000 - p.time_local_offset / 10) * 1000);
            players.push(row);
        }
    }
    let mut kinds = 0;
    let ctx = |k: &str| format!("{k} of {} replays ({props:?}, {}): ", chosen.len(), if serial { "serial" } else { "parallel" });
    for k in 0..6 {
        let got = judged(read_arrow(&out.join(format!("{}.arrow", KINDS[k])))?);
        kinds += !got.is_empty() as usize;
        compare(&ctx(KINDS[k]), serial, want[k].clone(), got)?;
    }
    compare(&ctx("details"), serial, players.clone(), judged(read_arrow(&out.join("details.arrow"))?))?;
    // the players of replays that are in memory already
    let inits: Vec<InitData> = chosen.iter().map(|(id, r)| InitData::try_from((r.path.clone(), *id as u64))).collect::<Result<_, _>>().map_err(|e| format!("{e:?}"))?;
    ArrowIpcTypes::Details.handle_read_once_write_all(inits, out.join("once.arrow")).map_err(|e| format!("export of replays read once failed: {e}"))?;
    compare(&ctx("details read once"), true, players, judged(read_arrow(&out.join("once.arrow"))?))?;
    if kinds < 2 {
        g.trivial();
    }
    g.label(if serial { "serial" } else { "parallel" });
    g.label(format!("{} of {} replays", chosen.len(), reps.len()));
    g.key(&(reps.iter().map(|r| r.bytes.clone()).collect::<Vec<_>>(), format!("{props:?}{serial}")));
    g.sample(|| format!("{}{:?} rows", ctx("rows"), want.iter().map(|w| w.len()).collect::<Vec<_>>()));
    Ok(())
}
pub fn compare(ctx: &str, serial: bool, mut want: Vec<J>, mut got: Vec<J>) -> Res {
    let brief = |v: &[String]| v.iter().map(|s| s.chars().take(700).collect::<String>()).collect::<Vec<_>>().join("\n  ");
    if serial {
        // replay by replay
        let (w, h): (Vec<J>, Vec<J>) = (want.iter().map(|j| j["ext_fs_id"].clone()).collect(), got.iter().map(|j| j["ext_fs_id"].clone()).collect());
        ensure!(w == h, "{ctx}rows of replays {h:?}, expected {w:?}");
        for (a, b) in want.iter_mut().zip(&mut got) {
            let (a, b) = (canonical(a), canonical(b));
            ensure!(a == b, "{ctx}got {b}, expected {a}");
        }
    }
    let (w, h) = (sorted(want), sorted(got));
    ensure!(w == h, "{ctx}got {} rows\n  {}\nexpected {}\n  {}", h.len(), brief(&h), w.len(), brief(&w));
    ensure_eq!(w.len(), h.len(), "rows");
    Ok(())
}
/// Writes the file of a replay again after its details were changed.
pub fn rewrite(g: &mut Gen, r: &mut Replay) -> Res {
    let s = crate::replay::bit_schema(r.build);
    let mut f = r.files.clone();
    r.cast.write(g, s, &mut f);
    r.bytes = f.archive();
    std::fs::write(&r.path, &r.bytes).map_err(|e| e.to_string())?;
    r.files = f;
    r.init = InitData::try_from((r.path.clone(), r.id)).map_err(|e| format!("{e:?}"))?;
    Ok(())
}
