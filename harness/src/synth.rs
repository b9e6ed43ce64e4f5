//! Whole synthesized replays whose parts refer to each other: players, lobby slots, units, commands.
use crate::c_balance::{ability_id, command_tables, plain_unit, unit_of};
use crate::c_decode::{TRACKER, delta_of};
use crate::c_replay::{REPORTED, enc_game_event, game_json, tracker_json};
use crate::engine::Gen;
use crate::replay::*;
use crate::schema::*;
use s2protocol::game_events::VersionedBalanceUnit;
use s2protocol::{InitData, SC2EventType};
use serde_json::{Value as J, json};
use std::collections::HashMap;

pub const UNITS: [&str; 8] = ["Marine", "SCV", "Larva", "Drone", "Hatchery", "Zergling", "MineralField450", "BeaconArmy"];

pub struct World {
    pub indexes: Vec<u32>,
    pub users: i64,
    /// the ids the tracker events give to the players of one user are this far from those of the next
    pub stride: i64,
}
impl World {
    pub fn gen_world(g: &mut Gen) -> Self {
        let n = 2 + g.idx(6) as u32;
        let base = *g.pick(&[0, 0, 0, 1, 250, 8_188, 16_366]);
        World { indexes: (0..n).map(|i| base + i * (1 + i % 2)).collect(), users: 1 + g.idx(3) as i64, stride: *g.pick(&[4, 4, 15]) }
    }
    fn index(&self, g: &mut Gen) -> i64 {
        self.indexes[g.idx(self.indexes.len())] as i64
    }
    fn tag(&self, g: &mut Gen) -> i64 {
        self.index(g) * (1 << 18) + g.below(3) as i64
    }
    /// a user that plays, seldom another one
    pub fn user(&self, g: &mut Gen) -> i64 {
        if g.chance(1, 10) { g.below(16) as i64 } else { g.idx(self.users as usize) as i64 }
    }
}
/// Replaces what refers to units, users and abilities by things of the world.
pub fn relate_type(g: &mut Gen, s: &Schema, t: &str, v: &mut V, w: &World) {
    match (s.td(t), v) {
        (TD::User(u), v) => {
            let u = u.clone();
            relate_type(g, s, &u, v, w)
        }
        (TD::Array(_, u), V::Arr(a)) => {
            for x in a {
                relate_type(g, s, u, x, w);
            }
        }
        (TD::Enum(_, _, vs), V::Enum(i, p)) => relate_ft(g, s, &vs[*i].2, p, w),
        (TD::Struct(f), V::Struct(x)) => {
            for ((n, _, ft), y) in f.iter().zip(x) {
                relate_ft(g, s, ft, y, w);
                relate_field(g, t, n, y, w);
            }
        }
        _ => {}
    }
}
fn relate_ft(g: &mut Gen, s: &Schema, f: &FT, v: &mut V, w: &World) {
    match (f, v) {
        (FT::T(t), v) => relate_type(g, s, t, v, w),
        (FT::Opt(t), V::Opt(Some(x))) => relate_ft(g, s, t, x, w),
        (FT::Arr(_, t) | FT::VArr(t), V::Arr(a)) => {
            for x in a {
                relate_ft(g, s, t, x, w);
            }
        }
        _ => {}
    }
}
fn relate_field(g: &mut Gen, t: &str, n: &str, v: &mut V, w: &World) {
    let own = |v: &mut V, i: i64| match v {
        V::Opt(Some(x)) => **x = V::Int(i),
        V::Opt(None) => {}
        v => *v = V::Int(i),
    };
    match n {
        "m_unit_tag_index" | "m_creator_unit_tag_index" | "m_killer_unit_tag_index" => {
            let i = w.index(g);
            own(v, i)
        }
        "m_unit_tag_recycle" => own(v, g.below(3) as i64),
        "m_tag" | "m_unit_tag" | "m_other_unit" => {
            let i = w.tag(g);
            own(v, i)
        }
        "m_unit_type_name" => *v = V::Bytes(g.pick(&UNITS).as_bytes().to_vec()),
        "m_user_id" if t == "ReplayTrackerSPlayerSetupEvent" => {
            let u = w.user(g);
            own(v, u)
        }
        "m_control_player_id" | "m_upkeep_player_id" | "m_killer_player_id" | "m_player_id" => {
            let i = g.idx(w.users as usize + 1) as i64 * w.stride + g.below(3) as i64;
            own(v, i)
        }
        "m_control_group_id" if g.chance(2, 3) => *v = V::Int(10),
        "m_control_group_index" => *v = V::Int(g.below(11) as i64),
        "m_add_unit_tags" => {
            let k = g.idx(w.indexes.len() + 1);
            *v = V::Arr((0..k).map(|_| V::Int(w.tag(g))).collect())
        }
        "m_first_unit_index" => *v = V::Int(w.indexes[0] as i64 + g.below(4) as i64),
        "m_items" => {
            let k = g.idx(4);
            *v = V::Arr((0..k * 3).map(|i| V::Int(if i % 3 == 0 { g.below(5) as i64 } else { g.bits(8) as i64 })).collect())
        }
        "m_abil_link" => *v = V::Int((ability_id(g) & 0xffff) as i64),
        "m_abil_cmd_index" => *v = V::Int(g.below(4) as i64),
        _ => {}
    }
}
/// A time step: mostly small so that the streams interleave and meet.
pub fn step(g: &mut Gen, wide: bool) -> V {
    let n = match g.below(if wide { 12 } else { 11 }) {
        0..=4 => 0,
        5 | 6 => 1,
        7 | 8 => g.below(20),
        9 => g.below(64),
        10 => g.below(5000),
        _ => g.bits(32),
    };
    let least = [6, 14, 22, 32].iter().position(|b| n >> b == 0).unwrap() as u64;
    let i = least + if g.chance(1, 8) { g.below(4 - least) } else { 0 };
    V::Enum(i as usize, Box::new(V::Int(n as i64)))
}

pub struct TrackerEv {
    /// where it ends in the sector
    pub end: usize,
    pub at: i64,
    pub wire: V,
    /// None: not reported
    pub json: Option<J>,
}
pub struct GameEv {
    /// where it ends in the sector
    pub end: usize,
    pub at: i64,
    pub user: i64,
    pub wire: V,
    pub json: Option<J>,
}
/// Tracker events, their sector and the absolute loops.
pub fn tracker_stream(g: &mut Gen, w: Option<&World>, n: usize, wide: bool, stats: u64) -> (Vec<TrackerEv>, Vec<u8>) {
    let s = versioned();
    let (mut at, mut b, mut out) = (0i64, vec![], vec![]);
    for _ in 0..n {
        let d = step(g, wide);
        let c = if w.is_none() && g.chance(1, 4) { CFG } else { TEXT };
        let mut e = s.gen_type(g, TRACKER, &c);
        if w.is_some() {
            // the long statistics events are rarer, the others are about units
            let vs = s.variants(TRACKER);
            let k = match g.below(16) {
                x if x < stats => "EPlayerStats",
                0..=5 => "EUnitBorn",
                6 | 7 => "EUnitInit",
                8 => "EUnitDone",
                9 => "EUnitTypeChange",
                10 | 11 => "EUnitDied",
                12 => "EUnitPosition",
                13 => "EUpgrade",
                14 => "EPlayerSetup",
                _ => "EUnitOwnerChange",
            };
            let i = s.variant(TRACKER, k);
            e = V::Enum(i, Box::new(s.gen_ft(g, &vs[i].2, &c)));
        }
        if let Some(w) = w {
            relate_type(g, s, TRACKER, &mut e, w);
            // a tracker player belongs to one user
            let V::Enum(i, p) = &mut e else { unreachable!() };
            if s.variants(TRACKER)[*i].1 == "EPlayerSetup" {
                let t = "ReplayTrackerSPlayerSetupEvent";
                let u = s.get(t, p, "m_user_id").opt().map(|u| u.int());
                let id = u.unwrap_or(16).min(16) * w.stride + g.below(3) as i64;
                s.set(t, p, "m_player_id", V::Int(id));
            }
        }
        s.venc_type(g, &mut b, "SVarUint32", &d);
        s.venc_type(g, &mut b, TRACKER, &e);
        at += delta_of(&d);
        let json = tracker_json(&e);
        out.push(TrackerEv { end: b.len(), at, wire: e, json });
    }
    (out, b)
}
/// Game events, their sector and the absolute loops.
pub fn game_stream(g: &mut Gen, s: &Schema, w: Option<&World>, n: usize, wide: bool) -> (Vec<GameEv>, Vec<u8>) {
    let (mut at, mut b, mut out) = (0i64, BitW::default(), vec![]);
    for _ in 0..n {
        let d = step(g, wide);
        let c = if w.is_none() && g.bool() { CFG } else { TEXT };
        let user = match w {
            // also one that plays no part
            Some(w) if g.chance(1, 24) => w.user(g) | 16,
            Some(w) => w.user(g),
            None => g.below(32) as i64,
        };
        let name = match (w, g.below(16)) {
            (Some(_), 0..=4) => Some("ESelectionDelta"),
            (Some(_), 5..=8) => Some("ECmd"),
            (Some(_), 9 | 10) => Some("EControlGroupUpdate"),
            (Some(_), 11) => Some("ECmdUpdateTargetUnit"),
            (Some(_), 12) => Some("ECmdUpdateTargetPoint"),
            (_, 13 | 14) => Some(*g.pick(&REPORTED)),
            (None, 0..=9) => Some(*g.pick(&REPORTED)),
            _ => None,
        };
        let mut e = match name {
            Some(n) => {
                let i = s.variant("GameEEventId", n);
                V::Enum(i, Box::new(s.gen_ft(g, &s.variants("GameEEventId")[i].2, &c)))
            }
            None => s.gen_type(g, "GameEEventId", &c),
        };
        if let Some(w) = w {
            relate_type(g, s, "GameEEventId", &mut e, w);
            if let V::Enum(i, p) = &mut e
                && s.variants("GameEEventId")[*i].1 == "EControlGroupUpdate"
            {
                // what clearing the selection itself means is not specified
                let t = "GameSControlGroupUpdateEvent";
                if s.get(t, p, "m_control_group_index").int() > 9 {
                    s.set(t, p, "m_control_group_index", V::Int(9));
                }
            }
        }
        enc_game_event(s, &mut b, &d, user, &e);
        at += delta_of(&d);
        let json = game_json(s, &e);
        out.push(GameEv { end: b.bytes.len(), at, user, wire: e, json });
    }
    (out, b.bytes)
}
pub fn tracker_item(e: &TrackerEv) -> Option<J> {
    Some(json!({"Tracker": {"tracker_loop": e.at, "event": e.json.clone()?}}))
}
pub fn game_item(e: &GameEv, names: &HashMap<i64, String>) -> Option<J> {
    Some(json!({"Game": {"game_loop": e.at, "user_id": e.user, "player_name": names.get(&e.user), "event": e.json.clone()?}}))
}
pub fn event_of(j: &J) -> Result<SC2EventType, String> {
    serde_json::from_value(j.clone()).map_err(|e| format!("{j}: {e}"))
}

/// Details and lobby data: who plays.
#[derive(Clone)]
pub struct Cast {
    pub details: V,
    pub init: V,
}
/// Players and lobby slots with working slot identifiers out of a small set. With `tidy`, player k
/// has the working slot k and the user k.
pub fn gen_cast(g: &mut Gen, s: &Schema, users: i64, tidy: bool) -> Cast {
    let vs = versioned();
    let mut details = vs.gen_type(g, "GameSDetails", &TEXT);
    let mut init = s.gen_type(g, "ReplaySInitData", &TEXT);
    let (pt, st) = ("GameSPlayerDetails", "GameSLobbySlot");
    let np = if tidy { users as usize } else { g.idx(6) };
    let mut players = vec![];
    for k in 0..np {
        let mut p = vs.gen_type(g, pt, &TEXT);
        let id = if tidy { Some(k as i64) } else if g.chance(1, 8) { None } else { Some(*g.pick(&[0i64, 1, 2, 3, 4, 255])) };
        vs.set(pt, &mut p, "m_working_set_slot_id", V::Opt(id.map(|i| Box::new(V::Int(i)))));
        let name = if g.chance(1, 6) { "Same".to_string() } else { format!("{}P{k}", String::from_utf8(gen_text(g, 3)).unwrap()) };
        vs.set(pt, &mut p, "m_name", V::Bytes(name.into_bytes()));
        players.push(p);
    }
    vs.set("GameSDetails", &mut details, "m_player_list", V::Opt(if np == 0 && g.bool() { None } else { Some(Box::new(V::Arr(players))) }));
    if g.chance(3, 4) {
        // cache handles as in a replay: kind, region, hash
        let n = g.idx(4);
        let hs = (0..n)
            .map(|_| {
                if g.chance(1, 6) {
                    return V::Bytes(g.bytes(9));
                }
                let mut b = g.pick(&[&b"s2ma"[..], b"s2mi", b"s2ml", b"\x00\xff\x80A"]).to_vec();
                b.extend([0, 0]);
                b.extend(*g.pick(&[&b"US"[..], b"EU", b"KR", b"XX"]));
                b.extend(g.bytes(6));
                V::Bytes(b)
            })
            .collect();
        vs.set("GameSDetails", &mut details, "m_cache_handles", V::Opt(Some(Box::new(V::Arr(hs)))));
    }
    let ns = if tidy { users as usize + g.idx(2) } else { g.idx(7) };
    let mut slots = vec![];
    for k in 0..ns {
        let mut x = s.gen_type(g, st, &TEXT);
        let id = if tidy && k < users as usize { Some(k as i64) } else if g.chance(1, 8) { None } else { Some(*g.pick(&[0i64, 1, 2, 3, 4, 255])) };
        s.set(st, &mut x, "m_working_set_slot_id", V::Opt(id.map(|i| Box::new(V::Int(i)))));
        let u = if tidy { Some(k as i64) } else if g.chance(1, 5) { None } else { Some(g.below(6) as i64) };
        s.set(st, &mut x, "m_user_id", V::Opt(u.map(|i| Box::new(V::Int(i)))));
        slots.push(x);
    }
    if tidy && g.bool() {
        slots.reverse();
    }
    let sync = "GameSLobbySyncState";
    let mut sy = s.get("ReplaySInitData", &init, "m_sync_lobby_state").clone();
    let mut ls = s.get(sync, &sy, "m_lobby_state").clone();
    s.set("GameSLobbyState", &mut ls, "m_slots", V::Arr(slots));
    s.set(sync, &mut sy, "m_lobby_state", ls);
    s.set("ReplaySInitData", &mut init, "m_sync_lobby_state", sy);
    Cast { details, init }
}
impl Cast {
    pub fn write(&self, g: &mut Gen, s: &Schema, f: &mut Files) {
        let mut b = vec![];
        versioned().venc_type(g, &mut b, "GameSDetails", &self.details);
        f.details = Some(b);
        let mut w = BitW::default();
        s.enc_type(&mut w, "ReplaySInitData", &self.init);
        f.init = Some(w.bytes);
    }
}
pub type Balance = HashMap<(u32, String), VersionedBalanceUnit>;
/// Unit definitions for the base build, and others that must not be used.
pub fn gen_balance(g: &mut Gen, build: u32) -> (Balance, HashMap<String, VersionedBalanceUnit>) {
    let (mut all, mut own) = (HashMap::new(), HashMap::new());
    for (k, n) in UNITS.iter().enumerate() {
        if g.chance(2, 3) {
            let mut d = plain_unit(n, Some([0.25, 0.375, 1.0, 2.5][k % 4]));
            if g.bool() {
                command_tables(g, &mut d);
            }
            all.insert((build, n.to_string()), unit_of(&d));
            own.insert(n.to_string(), unit_of(&d));
        }
        if g.chance(1, 3) {
            let d = plain_unit(n, Some(7.5));
            all.insert((build ^ (1 << g.below(3)), n.to_string()), unit_of(&d));
        }
    }
    (all, own)
}
pub struct Replay {
    pub build: u32,
    pub cast: Cast,
    pub world: World,
    pub tracker: Vec<TrackerEv>,
    pub game: Vec<GameEv>,
    pub init: InitData,
    pub id: u64,
    pub path: std::path::PathBuf,
    pub bytes: Vec<u8>,
    pub files: Files,
}
pub struct Plan {
    pub max_tracker: usize,
    pub max_game: usize,
    pub stats: u64,
    pub wide: bool,
}
/// A replay in the folder of the case.
pub fn replay(g: &mut Gen, p: &Plan, file: &str) -> Result<Replay, String> {
    let build = gen_build(g);
    let s = bit_schema(build);
    let world = World::gen_world(g);
    let cast = gen_cast(g, s, world.users, true);
    let (nt, ng) = match g.below(12) {
        0 => (0, g.idx(p.max_game + 1)),
        1 => (g.idx(p.max_tracker + 1), 0),
        _ => (1 + g.idx(p.max_tracker), 1 + g.idx(p.max_game)),
    };
    let (tracker, tb) = tracker_stream(g, Some(&world), nt, p.wide, p.stats);
    let (game, gb) = game_stream(g, s, Some(&world), ng, p.wide);
    let mut f = Files { header: plain_header(build), tracker: Some(tb), game: Some(gb), ..Default::default() };
    cast.write(g, s, &mut f);
    let bytes = f.archive();
    let path = g.dir.join(file);
    if let Some(d) = path.parent() {
        std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
    }
    std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
    let id = if g.bool() { g.below(100) } else { g.u64() };
    let init = InitData::try_from((path.clone(), id)).map_err(|e| format!("base build {build}: lobby data: {e:?}"))?;
    Ok(Replay { build, cast, world, tracker, game, init, id, path, bytes, files: f })
}
