//! C14..C16: the state of the replay (units, selections, commands) against a reference model.
use crate::c_balance::{ability_id, ability_name, command_index, command_tables, plain_unit, unit_of};
use crate::c_replay::to_json;
use crate::engine::*;
use crate::{Property, ensure};
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use s2protocol::{SC2EventType, SC2ReplayState, SC2Unit, SC2UserState, Vec3D};
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn properties() -> Vec<Property> {
    const RULE: &str = "histories of 1..60 tracker and game events of all kinds over up to 8 unit indexes, 1..3 users and an unknown one, applied to the replay state and to a reference model; after every event the reported change and the whole state are compared";
    const A: &[&str] = &["a unit is selected by one user at a time", "a tracker player identifier belongs to one user", "unit indexes are below 2^14"];
    vec![
        Property { id: "C14", rule: leak(RULE, "non-trivial: at least one event changes a registered unit"), assumptions: A, checks: vec![check("registry", c14, 60_000, 20)] },
        Property { id: "C15", rule: leak(RULE, "non-trivial: at least two selection or control group events with units"), assumptions: A, checks: vec![check("selection", c15, 60_000, 20)] },
        Property { id: "C16", rule: leak(RULE, "non-trivial: at least one command with a selected unit"), assumptions: A, checks: vec![check("commands", c16, 60_000, 20)] },
    ]
}
fn leak(a: &str, b: &str) -> &'static str {
    Box::leak(format!("{a}; {b}").into_boxed_str())
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Scope {
    Registry,
    Selection,
    Commands,
}
fn c14(g: &mut Gen) -> Res {
    history(g, Scope::Registry)
}
fn c15(g: &mut Gen) -> Res {
    history(g, Scope::Selection)
}
fn c16(g: &mut Gen) -> Res {
    history(g, Scope::Commands)
}

const NAMES: [&str; 31] = ["Marine", "SCV", "Larva", "Drone", "Hatchery", "XelNagaTower", "MineralField450", "BeaconArmy", "Zergling", "Overlord", "Infestor", "RichMineralField", "VespeneGeyser", "", "SpacePlatformGeyser", "LabMineralField", "LabMineralField750", "MineralField", "MineralField750", "RichMineralField750", "DestructibleRockEx1DiagonalHugeBLUR", "DestructibleDebris6x6", "UnbuildablePlatesDestructible", "Pylon", "SupplyDepot", "Probe", "Egg", "CommandCenter", "Nexus", "Broodling", "Élite\u{1F600}"];

/// Colours are those of the type of unit, otherwise those of the player.
fn color(name: &str, user: Option<u8>) -> [u8; 4] {
    match name {
        "VespeneGeyser" | "SpacePlatformGeyser" => [0x6e, 0xc2, 0x9c, 0xff],
        "MineralField" | "MineralField450" | "MineralField750" | "LabMineralField" | "LabMineralField750" => [0x72, 0xc5, 0xdd, 0xff],
        "XelNagaTower" => [0xfa, 0xf8, 0xfb, 0xff],
        "RichMineralField750" => [0xeb, 0x79, 0x07, 0xff],
        "DestructibleRockEx1DiagonalHugeBLUR" | "DestructibleDebris6x6" => [0xb2, 0xc5, 0xc5, 0xff],
        "RichMineralField" => [0xea, 0x9e, 0x36, 0xff],
        "Overlord" | "Pylon" | "SupplyDepot" => [0xf7, 0xd4, 0x54, 0xff],
        "SCV" | "Drone" | "Larva" | "Probe" | "Egg" | "Broodling" | "UnbuildablePlatesDestructible" => [0xf4, 0xf5, 0xf8, 0xff],
        "Hatchery" | "CommandCenter" | "Nexus" => [0xea, 0xa4, 0x83, 0xff],
        "Infestor" => [0xa4, 0x01, 0xed, 0xff],
        _ => match user.unwrap_or(0) {
            0 => [0x6e, 0xc2, 0x9c, 0xff],
            1 => [0x72, 0xc5, 0xdd, 0xff],
            2 => [0xf4, 0xf5, 0xf8, 0xff],
            3 => [0xeb, 0x79, 0x07, 0xff],
            _ => [0xfa, 0xf8, 0xfb, 0xff],
        },
    }
}

pub struct Model {
    pub units: BTreeMap<u32, SC2Unit>,
    pub users: BTreeMap<i64, SC2UserState>,
    /// definitions by unit name
    pub defs: BTreeMap<String, J>,
}
/// What an event reports.
enum Hint {
    None,
    Registered(SC2Unit, Option<SC2Unit>),
    Positions(Vec<SC2Unit>),
    Unregistered(SC2Unit, Option<SC2Unit>),
    /// in any order
    Selection(Vec<SC2Unit>),
    Abilities(Vec<SC2Unit>, Option<SC2Unit>),
    TargetPoints(Vec<SC2Unit>),
    TargetUnits(Vec<SC2Unit>, SC2Unit),
}
fn sorted(mut v: Vec<SC2Unit>) -> Vec<SC2Unit> {
    v.sort_by_key(|u| u.tag_index);
    v
}
fn idx(tag: u32) -> u32 {
    (tag >> 18) & 0x3fff
}
fn coord(c: &GameSMapCoord3D) -> Vec3D {
    Vec3D([c.x as f32 / 4096., -(c.y as f32) / 4096., c.z as f32 / 4096.])
}
fn target_unit(t: &GameSCmdDataTargetUnit) -> s2protocol::SC2UnitCmdDataTargetUnit {
    s2protocol::SC2UnitCmdDataTargetUnit {
        target_unit_flags: t.m_target_unit_flags,
        timer: t.m_timer,
        tag: t.m_tag,
        snapshot_unit_link: t.m_snapshot_unit_link,
        snapshot_control_player_id: t.m_snapshot_control_player_id,
        snapshot_upkeep_player_id: t.m_snapshot_upkeep_player_id,
        snapshot_point: coord(&t.m_snapshot_point),
    }
}

impl Model {
    fn radius(&self, name: &str) -> f32 {
        self.defs.get(name).and_then(|d| d["misc"]["@radius"].as_f64()).map(|r| r as f32).unwrap_or(0.45)
    }
    /// A unit looks like its type; it is twice as big while it is selected.
    fn look(&self, u: &mut SC2Unit) {
        u.radius = self.radius(&u.name) * if u.is_selected { 2. } else { 1. };
        u.color = color(&u.name, u.user_id);
    }
    fn player(&self, tracker_player: u8) -> Option<String> {
        self.users.values().find(|u| u.player_lobby_details.tracker_setup_player_id == Some(tracker_player)).map(|u| u.player_lobby_details.player_details.name.clone())
    }
    pub fn step(&mut self, e: &SC2EventType) -> (SC2EventType, HintJ) {
        let mut out = e.clone();
        let h = match &mut out {
            SC2EventType::Tracker { tracker_loop, event } => self.tracker(*tracker_loop, event),
            SC2EventType::Game { game_loop, user_id, event, .. } => self.game(*game_loop, *user_id, event),
        };
        (out, HintJ(h))
    }
    fn fresh(&self, at: i64, index: u32, name: &str, owner: Option<u8>, x: u8, y: u8, init: bool) -> SC2Unit {
        let mut u = SC2Unit {
            tag_index: index,
            last_game_loop: at,
            init_game_loop: at,
            user_id: owner,
            player_name: owner.and_then(|o| self.player(o)),
            name: name.to_string(),
            pos: Vec3D([x as f32, y as f32, 0.]),
            is_init: init,
            ..Default::default()
        };
        self.look(&mut u);
        u
    }
    fn tracker(&mut self, at: i64, event: &mut ReplayTrackerEvent) -> Hint {
        match event {
            ReplayTrackerEvent::UnitInit(e) => {
                match self.units.get_mut(&e.unit_tag_index) {
                    Some(u) => {
                        u.last_game_loop = at;
                        u.pos = Vec3D([e.x as f32, e.y as f32, 0.]);
                        u.is_init = true;
                        u.name = e.unit_type_name.clone();
                    }
                    None => {
                        let u = self.fresh(at, e.unit_tag_index, &e.unit_type_name, Some(e.control_player_id), e.x, e.y, true);
                        self.units.insert(e.unit_tag_index, u);
                    }
                }
                Hint::Registered(self.units[&e.unit_tag_index].clone(), None)
            }
            ReplayTrackerEvent::UnitBorn(e) => {
                let creator = e.creator_unit_tag_index.and_then(|c| self.units.get_mut(&c)).map(|c| {
                    c.last_game_loop = at;
                    c.clone()
                });
                match self.units.get_mut(&e.unit_tag_index) {
                    Some(u) => {
                        u.creator_ability_name = e.creator_ability_name.clone();
                        u.last_game_loop = at;
                    }
                    None => {
                        let u = self.fresh(at, e.unit_tag_index, &e.unit_type_name, Some(e.control_player_id), e.x, e.y, false);
                        self.units.insert(e.unit_tag_index, u);
                    }
                }
                Hint::Registered(self.units[&e.unit_tag_index].clone(), creator)
            }
            ReplayTrackerEvent::UnitTypeChange(e) => match self.units.get(&e.unit_tag_index).cloned() {
                Some(old) => {
                    let mut u = old.clone();
                    u.name = e.unit_type_name.clone();
                    u.last_game_loop = at;
                    self.look(&mut u);
                    self.units.insert(e.unit_tag_index, u.clone());
                    Hint::Registered(u, Some(old))
                }
                None => {
                    let u = self.fresh(at, e.unit_tag_index, &e.unit_type_name, None, 0, 0, false);
                    self.units.insert(e.unit_tag_index, u);
                    Hint::None
                }
            },
            ReplayTrackerEvent::UnitDone(e) => match self.units.get(&e.unit_tag_index).cloned() {
                Some(mut u) => {
                    u.is_init = false;
                    u.last_game_loop = at;
                    self.look(&mut u);
                    self.units.insert(e.unit_tag_index, u.clone());
                    Hint::Registered(u, None)
                }
                None => Hint::None,
            },
            ReplayTrackerEvent::UnitPosition(e) => {
                let mut i = e.first_unit_index;
                let mut seen = vec![];
                for c in e.items.chunks_exact(3) {
                    i = i.wrapping_add(c[0] as u32);
                    if let Some(u) = self.units.get_mut(&i) {
                        u.pos = Vec3D([c[1] as f32, c[2] as f32, 0.]);
                        u.last_game_loop = at;
                        seen.push(i);
                    }
                }
                Hint::Positions(seen.iter().map(|i| self.units[i].clone()).collect())
            }
            ReplayTrackerEvent::UnitDied(e) => {
                for u in self.users.values_mut() {
                    for gr in u.control_groups.iter_mut() {
                        gr.retain(|t| idx(*t) != e.unit_tag_index);
                    }
                }
                match self.units.remove(&e.unit_tag_index) {
                    Some(u) => Hint::Unregistered(u, e.killer_unit_tag_index.and_then(|k| self.units.get(&k)).cloned()),
                    None => Hint::None,
                }
            }
            ReplayTrackerEvent::PlayerSetup(e) => {
                if let Some(u) = e.user_id.and_then(|u| self.users.get_mut(&(u as i64))) {
                    u.player_lobby_details.tracker_setup_player_id = Some(e.player_id);
                    u.player_lobby_details.tracker_setup_slot_id = e.slot_id;
                }
                Hint::None
            }
            ReplayTrackerEvent::Upgrade(e) => {
                e.player_name = self.player(e.player_id);
                Hint::None
            }
            _ => Hint::None,
        }
    }
    fn unmark(&mut self, at: i64, user: i64) -> BTreeSet<u32> {
        let mut changed = BTreeSet::new();
        let tags = self.users.get(&user).map(|u| u.control_groups[10].clone()).unwrap_or_default();
        for t in tags {
            if let Some(u) = self.units.get_mut(&idx(t)) {
                u.last_game_loop = at;
                if u.is_selected {
                    u.is_selected = false;
                    u.radius /= 2.;
                    changed.insert(idx(t));
                }
            }
        }
        changed
    }
    fn mark(&mut self, at: i64, tags: &[u32]) -> BTreeSet<u32> {
        let mut changed = BTreeSet::new();
        for t in tags {
            if let Some(u) = self.units.get_mut(&idx(*t)) {
                u.last_game_loop = at;
                if !u.is_selected {
                    u.is_selected = true;
                    u.radius *= 2.;
                    changed.insert(idx(*t));
                }
            }
        }
        changed
    }
    fn selection(&self, a: BTreeSet<u32>, b: BTreeSet<u32>) -> Hint {
        Hint::Selection(a.union(&b).map(|i| self.units[i].clone()).collect())
    }
    fn game(&mut self, at: i64, user: i64, event: &mut ReplayGameEvent) -> Hint {
        match event {
            ReplayGameEvent::CameraSave(e) => {
                if let Some(u) = self.users.get_mut(&user) {
                    u.camera_pos = e.m_target.clone();
                }
                Hint::None
            }
            ReplayGameEvent::CameraUpdate(e) => {
                if let (Some(u), Some(t)) = (self.users.get_mut(&user), &e.m_target) {
                    u.camera_pos = t.clone();
                }
                Hint::None
            }
            ReplayGameEvent::SelectionDelta(e) => {
                let (mut a, mut b) = Default::default();
                if e.m_control_group_id == 10 {
                    a = self.unmark(at, user);
                    b = self.mark(at, &e.m_delta.m_add_unit_tags);
                }
                if let Some(gr) = self.users.get_mut(&user).and_then(|u| u.control_groups.get_mut(e.m_control_group_id as usize)) {
                    *gr = e.m_delta.m_add_unit_tags.clone();
                }
                self.selection(a, b)
            }
            ReplayGameEvent::ControlGroupUpdate(e) => {
                let i = e.m_control_group_index as usize;
                let none = Hint::Selection(vec![]);
                if i > 10 {
                    return none;
                }
                use GameEControlGroupUpdate as U;
                if e.m_control_group_update == U::ERecall {
                    let a = self.unmark(at, user);
                    let mut tags = vec![];
                    if let Some(u) = self.users.get_mut(&user) {
                        tags = u.control_groups[i].clone();
                        u.control_groups[10] = tags.clone();
                    }
                    let b = self.mark(at, &tags);
                    return self.selection(a, b);
                }
                let Some(u) = self.users.get_mut(&user) else { return none };
                let active = u.control_groups[10].clone();
                let steal = matches!(e.m_control_group_update, U::ESetAndSteal | U::EAppendAndSteal);
                if steal {
                    for gr in u.control_groups[..10].iter_mut() {
                        gr.retain(|t| !active.contains(t));
                    }
                }
                match e.m_control_group_update {
                    U::ESet | U::ESetAndSteal => u.control_groups[i] = active,
                    U::EClear => u.control_groups[i] = vec![],
                    _ => {
                        let all: BTreeSet<u32> = u.control_groups[i].iter().chain(&active).cloned().collect();
                        u.control_groups[i] = all.into_iter().collect();
                    }
                }
                none
            }
            ReplayGameEvent::Cmd(e) => {
                let target = match &e.m_data {
                    GameSCmdData::TargetUnit(t) => self.units.get(&idx(t.m_tag)).cloned(),
                    _ => None,
                };
                let mut done = vec![];
                let tags = self.users.get(&user).map(|u| u.control_groups[10].clone()).unwrap_or_default();
                for t in tags {
                    let Some(a) = &e.m_abil else { continue };
                    let defs = &self.defs;
                    if let Some(u) = self.units.get_mut(&idx(t)) {
                        u.cmd = s2protocol::SC2UnitCmd {
                            cmd_flags: e.m_cmd_flags,
                            abil: Some(s2protocol::SC2UnitCmdAbil {
                                abil_link: a.m_abil_link,
                                ability: ability_name(defs.get(&u.name), a.m_abil_link as u64, a.m_abil_cmd_index),
                                abil_cmd_index: a.m_abil_cmd_index,
                                abil_cmd_data: a.m_abil_cmd_data,
                            }),
                            data: match &e.m_data {
                                GameSCmdData::None => s2protocol::SC2UnitCmdData::None,
                                GameSCmdData::TargetPoint(p) => s2protocol::SC2UnitCmdData::TargetPoint(coord(p)),
                                GameSCmdData::TargetUnit(t) => s2protocol::SC2UnitCmdData::TargetUnit(target_unit(t)),
                                GameSCmdData::Data(d) => s2protocol::SC2UnitCmdData::Data(*d),
                            },
                            sequence: e.m_sequence,
                            other_unit: e.m_other_unit,
                            other_unit_name: target.as_ref().map(|t| t.name.clone()),
                            unit_group: e.m_unit_group,
                        };
                        u.last_game_loop = at;
                        done.push(u.clone());
                    }
                }
                Hint::Abilities(sorted(done), target)
            }
            ReplayGameEvent::CmdUpdateTargetPoint(e) => {
                let mut done = vec![];
                let tags = self.users.get(&user).map(|u| u.control_groups[10].clone()).unwrap_or_default();
                for t in tags {
                    if let Some(u) = self.units.get_mut(&idx(t)) {
                        u.cmd.data = s2protocol::SC2UnitCmdData::TargetPoint(coord(&e.m_target));
                        u.cmd.other_unit = None;
                        u.last_game_loop = at;
                        done.push(u.clone());
                    }
                }
                Hint::TargetPoints(sorted(done))
            }
            ReplayGameEvent::CmdUpdateTargetUnit(e) => {
                let Some(target) = self.units.get(&idx(e.m_target.m_tag)).cloned() else { return Hint::None };
                let mut done = vec![];
                let tags = self.users.get(&user).map(|u| u.control_groups[10].clone()).unwrap_or_default();
                for t in tags {
                    if let Some(u) = self.units.get_mut(&idx(t)) {
                        u.cmd.data = s2protocol::SC2UnitCmdData::TargetUnit(target_unit(&e.m_target));
                        u.last_game_loop = at;
                        done.push(u.clone());
                    }
                }
                Hint::TargetUnits(sorted(done), target)
            }
            _ => Hint::None,
        }
    }
}

/// The expected hint, compared to an actual one.
pub struct HintJ(Hint);
impl HintJ {
    /// The enriched command is compared separately.
    pub fn same(&self, got: &s2protocol::UnitChangeHint) -> Res {
        let mut got = to_json(got);
        let sort = |j: &mut J| {
            if let Some(a) = j.as_array_mut() {
                a.sort_by_key(|u| u["tag_index"].as_u64());
            }
        };
        let want = match &self.0 {
            Hint::None => json!("None"),
            Hint::Registered(u, c) => json!({"Registered": {"unit": u, "creator": c}}),
            Hint::Positions(u) => json!({"Positions": u}),
            Hint::Unregistered(u, k) => json!({"Unregistered": {"killed": u, "killer": k}}),
            Hint::Selection(u) => {
                if got.get("Selection").is_some() {
                    sort(&mut got["Selection"]);
                }
                json!({"Selection": u})
            }
            Hint::Abilities(u, t) => {
                if got.get("Abilities").is_some() {
                    sort(&mut got["Abilities"]["units"]);
                    got["Abilities"].as_object_mut().unwrap().remove("event");
                }
                json!({"Abilities": {"units": u, "target": t}})
            }
            Hint::TargetPoints(u) => {
                if got.get("TargetPoints").is_some() {
                    sort(&mut got["TargetPoints"]);
                }
                json!({"TargetPoints": u})
            }
            Hint::TargetUnits(u, t) => {
                if got.get("TargetUnits").is_some() {
                    sort(&mut got["TargetUnits"]["units"]);
                }
                json!({"TargetUnits": {"units": u, "target": t}})
            }
        };
        ensure!(want == got, "reported {got}, expected {want}");
        Ok(())
    }
}
/// The event that is returned: as it was read, with the names that the state adds.
pub fn same_event(want: &SC2EventType, got: &SC2EventType, hint: &s2protocol::UnitChangeHint) -> Res {
    let (mut w, mut g) = (to_json(want), to_json(got));
    if let s2protocol::UnitChangeHint::Abilities { units, event, .. } = hint {
        // the name of the ability is that of one of the selected units
        let names: Vec<&str> = units.iter().filter_map(|u| u.cmd.abil.as_ref()).map(|a| a.ability.as_str()).collect();
        ensure!(to_json(event) == g["Game"]["event"]["Cmd"], "the command of the change {} is not that of the event {g}", to_json(event));
        for (j, actual) in [(&mut w, false), (&mut g, true)] {
            let a = &mut j["Game"]["event"]["Cmd"]["m_abil"];
            if a.is_object() {
                let n = a["ability"].as_str().unwrap_or("?").to_string();
                ensure!(!actual || names.contains(&n.as_str()) || n.is_empty() && names.is_empty(), "ability {n:?} is not one of {names:?}");
                a["ability"] = json!("");
            }
        }
    }
    ensure!(w == g, "returned event {g}, expected {w}");
    Ok(())
}

struct World {
    users: i64,
    indexes: Vec<u32>,
    /// one per index
    recycles: Vec<u32>,
    /// the ids the tracker events give to the players of one user are this far from those of the next
    stride: u8,
}
impl World {
    fn tag(&self, k: usize) -> u32 {
        self.indexes[k] * (1 << 18) + self.recycles[k]
    }
    fn user(&self, g: &mut Gen) -> i64 {
        if g.chance(1, 12) { self.users + 7 } else { g.idx(self.users as usize) as i64 }
    }
    /// The units a user may select: a unit belongs to one user.
    fn selectable(&self, g: &mut Gen, user: i64) -> Vec<u32> {
        let mut v = vec![];
        for k in 0..self.indexes.len() {
            if k as i64 % self.users == user % self.users && user < self.users && g.chance(2, 3) {
                v.push(self.tag(k));
            }
        }
        if v.len() > 1 && g.bool() {
            v.reverse();
        }
        v
    }
    fn owner(&self, g: &mut Gen) -> u8 {
        let u = g.idx(self.users as usize + 1) as u8;
        if g.chance(1, 8) { 0 } else { u * self.stride + 1 + g.idx(3) as u8 }
    }
    fn any(&self, g: &mut Gen) -> usize {
        g.idx(self.indexes.len())
    }
    fn killer(&self, g: &mut Gen) -> Option<u32> {
        if g.bool() { Some(self.indexes[self.any(g)]) } else { None }
    }
    fn unit_tag(&self, g: &mut Gen) -> u32 {
        if g.chance(1, 8) { g.bits(32) as u32 } else { self.tag(self.any(g)) }
    }
}
fn name(g: &mut Gen) -> String {
    g.pick(&NAMES).to_string()
}
fn map_point(g: &mut Gen) -> GameSMapCoord3D {
    GameSMapCoord3D { x: g.bits(20) as i64, y: g.bits(20) as i64, z: g.range(-100_000, 100_000) as i32 }
}
fn point(g: &mut Gen) -> GameSPointMini {
    GameSPointMini { x: g.bits(16) as i64, y: g.bits(16) as i64 }
}
fn gen_target(g: &mut Gen, w: &World) -> GameSCmdDataTargetUnit {
    GameSCmdDataTargetUnit {
        m_target_unit_flags: g.bits(16) as u16,
        m_timer: g.bits(8) as u8,
        m_tag: w.unit_tag(g),
        m_snapshot_unit_link: g.bits(16) as u16,
        m_snapshot_control_player_id: if g.bool() { Some(g.idx(16) as i64) } else { None },
        m_snapshot_upkeep_player_id: if g.bool() { Some(g.idx(16) as i64) } else { None },
        m_snapshot_point: map_point(g),
    }
}
fn gen_mask(g: &mut Gen) -> GameSSelectionMask {
    match g.idx(4) {
        0 => GameSSelectionMask::None,
        1 => GameSSelectionMask::Mask(GameSelectionMaskType { value: g.bytes(2) }),
        2 => GameSSelectionMask::OneIndices(GameSelectionIndexArrayType { value: vec![0] }),
        _ => GameSSelectionMask::ZeroIndices(GameSelectionIndexArrayType { value: vec![0] }),
    }
}
fn tracker_event(g: &mut Gen, w: &World) -> ReplayTrackerEvent {
    let k = w.any(g);
    let (unit_tag_index, unit_tag_recycle) = (w.indexes[k], w.recycles[k]);
    let owner = w.owner(g);
    match g.idx(10) {
        0 => ReplayTrackerEvent::UnitInit(UnitInitEvent { unit_tag_index, unit_tag_recycle, unit_type_name: name(g), control_player_id: owner, upkeep_player_id: w.owner(g), x: g.bits(8) as u8, y: g.bits(8) as u8 }),
        1 | 2 => {
            let creator = w.killer(g);
            ReplayTrackerEvent::UnitBorn(UnitBornEvent {
                unit_tag_index,
                unit_tag_recycle,
                unit_type_name: name(g),
                control_player_id: owner,
                upkeep_player_id: w.owner(g),
                x: g.bits(8) as u8,
                y: g.bits(8) as u8,
                creator_unit_tag_index: creator,
                creator_unit_tag_recycle: creator.map(|_| 1),
                creator_ability_name: if g.bool() { Some(name(g)) } else { None },
            })
        }
        3 => ReplayTrackerEvent::UnitTypeChange(UnitTypeChangeEvent { unit_tag_index, unit_tag_recycle, unit_type_name: name(g) }),
        4 => ReplayTrackerEvent::UnitDone(UnitDoneEvent { unit_tag_index, unit_tag_recycle }),
        5 => {
            // the indexes of the items are increments, in the order of the indexes
            let mut at = w.indexes[g.idx(w.indexes.len())].saturating_sub(g.idx(2) as u32);
            let first_unit_index = at;
            let mut items = vec![];
            for i in w.indexes.iter().filter(|i| **i >= first_unit_index) {
                if g.chance(2, 3) {
                    let far = g.chance(1, 16);
                    let mut c = || if far { g.range(-70_000, 70_000) as i32 } else { g.bits(8) as i32 };
                    items.extend([(*i - at) as i32, c(), c()]);
                    at = *i;
                }
            }
            // what does not make up a position is not one
            if g.chance(1, 6) {
                for _ in 0..1 + g.idx(2) {
                    items.push(g.bits(3) as i32);
                }
            }
            ReplayTrackerEvent::UnitPosition(UnitPositionsEvent { first_unit_index, items })
        }
        6 | 7 => {
            let killer = w.killer(g);
            ReplayTrackerEvent::UnitDied(UnitDiedEvent { unit_tag_index, unit_tag_recycle, killer_player_id: killer.map(|_| owner), x: g.bits(8) as u8, y: g.bits(8) as u8, killer_unit_tag_index: killer, killer_unit_tag_recycle: killer.map(|_| 1) })
        }
        8 => ReplayTrackerEvent::UnitOwnerChange(UnitOwnerChangeEvent { unit_tag_index, unit_tag_recycle, control_player_id: owner, upkeep_player_id: w.owner(g) }),
        _ => {
            if g.bool() {
                ReplayTrackerEvent::Upgrade(UpgradeEvent { player_id: owner, player_name: None, upgrade_type_name: name(g), count: g.range(-3, 3) as i32 })
            } else {
                let user = w.user(g) as u32;
                ReplayTrackerEvent::PlayerSetup(PlayerSetupEvent {
                    player_id: user.min(w.users as u32) as u8 * w.stride + 1 + g.idx(3) as u8,
                    m_type: g.idx(4) as u32,
                    user_id: if g.chance(5, 6) { Some(user) } else { None },
                    slot_id: if g.bool() { Some(g.idx(16) as u32) } else { None },
                })
            }
        }
    }
}
fn selection_event(g: &mut Gen, w: &World, user: i64) -> ReplayGameEvent {
    if g.chance(2, 5) {
        ReplayGameEvent::SelectionDelta(GameSSelectionDeltaEvent {
            m_control_group_id: if g.chance(2, 3) { 10 } else { g.idx(16) as u8 },
            m_delta: GameSSelectionDelta {
                m_subgroup_index: g.idx(4) as _,
                // what the masks remove is not modelled: the state replaces the selection
                m_remove_mask: gen_mask(g),
                m_add_subgroups: vec![],
                m_add_unit_tags: w.selectable(g, user),
            },
        })
    } else {
        use GameEControlGroupUpdate as U;
        let mut i = *g.pick(&[0u8, 0, 0, 1, 1, 9, 9, 10, 11, 15]);
        let u = *g.pick(&[0, 1, 2, 2, 2, 3, 4, 5]);
        let u = match u {
            0 => U::ESet,
            1 => U::EAppend,
            2 => U::ERecall,
            3 => U::EClear,
            4 => U::ESetAndSteal,
            _ => U::EAppendAndSteal,
        };
        if u == U::EClear && i == 10 {
            i = 9;
        }
        ReplayGameEvent::ControlGroupUpdate(GameSControlGroupUpdateEvent { m_control_group_index: i as _, m_control_group_update: u, m_mask: gen_mask(g) })
    }
}
fn command_event(g: &mut Gen, w: &World) -> ReplayGameEvent {
    match g.idx(10) {
        0..=3 => ReplayGameEvent::Cmd(GameSCmdEvent {
            m_cmd_flags: g.bits(27) as i64,
            m_abil: if g.chance(5, 6) {
                Some(GameSCmdAbil { m_abil_link: ability_id(g) as u16, ability: String::new(), m_abil_cmd_index: command_index(g), m_abil_cmd_data: if g.bool() { Some(g.bits(8) as u8) } else { None } })
            } else {
                None
            },
            m_data: match g.idx(5) {
                0 => GameSCmdData::None,
                1 => GameSCmdData::TargetPoint(map_point(g)),
                2 | 3 => GameSCmdData::TargetUnit(gen_target(g, w)),
                _ => GameSCmdData::Data(g.bits(32) as u32),
            },
            m_sequence: 1 + g.bits(20) as i64,
            m_other_unit: if g.bool() { Some(w.unit_tag(g)) } else { None },
            m_unit_group: if g.bool() { Some(g.bits(32) as u32) } else { None },
        }),
        4 => ReplayGameEvent::CmdUpdateTargetPoint(GameSCmdUpdateTargetPointEvent { m_target: map_point(g) }),
        5 | 6 => ReplayGameEvent::CmdUpdateTargetUnit(GameSCmdUpdateTargetUnitEvent { m_target: gen_target(g, w) }),
        7 => ReplayGameEvent::CameraSave(CameraSaveEvent { m_which: g.idx(8) as i64, m_target: point(g) }),
        8 => ReplayGameEvent::CameraUpdate(CameraUpdateEvent {
            m_target: if g.chance(3, 4) { Some(point(g)) } else { None },
            m_distance: if g.bool() { Some(g.bits(16) as i64) } else { None },
            m_pitch: None,
            m_yaw: None,
            m_reason: None,
            m_follow: g.bool(),
        }),
        _ => match g.idx(4) {
            0 => ReplayGameEvent::UnitClick(GameSUnitClickEvent { m_unit_tag: w.unit_tag(g) }),
            1 => ReplayGameEvent::TriggerHotkeyPressed(GameSTriggerHotkeyPressedEvent { m_hotkey: g.bits(32) as u32, m_down: g.bool() }),
            2 => ReplayGameEvent::UnitHighlight(GameSUnitHighlightEvent { m_unit_tag: w.unit_tag(g), m_flags: g.bits(8) as u8 }),
            _ => ReplayGameEvent::TriggerChatMessage(GameSTriggerChatMessageEvent { m_chat_message: name(g) }),
        },
    }
}

fn units_json(units: impl Iterator<Item = SC2Unit>) -> BTreeMap<u32, J> {
    units.map(|u| (u.tag_index, to_json(&u))).collect()
}
fn groups(u: &SC2UserState) -> Vec<Vec<u32>> {
    u.control_groups
        .iter()
        .map(|gr| {
            let mut v = gr.clone();
            v.sort();
            v
        })
        .collect()
}

fn gen_world(g: &mut Gen) -> World {
    let users = if g.chance(1, 8) { 4 + g.idx(10) as i64 } else { 1 + g.idx(3) as i64 };
    let n = match g.below(240) {
        0..=2 => 20 + g.idx(400),
        3 => 500 + g.idx(500),
        _ => 2 + g.idx(7),
    };
    let mut indexes: Vec<u32> = (0..n as u32).map(|i| i * (1 + i % 2)).collect();
    if g.bool() {
        indexes[n - 1] = 16383;
    } else if g.bool() {
        indexes[n - 1] = 300;
    }
    indexes.sort();
    indexes.dedup();
    let recycles = indexes.iter().map(|_| *g.pick(&[1u32, 2, 77, 262143])).collect();
    World { users, indexes, recycles, stride: *g.pick(&[4, 16]) }
}
/// A state and events for it.
pub fn events(g: &mut Gen, count: usize) -> (SC2ReplayState, Vec<SC2EventType>) {
    let w = gen_world(g);
    let users = w.users;
    let mut table = HashMap::new();
    for (k, nm) in NAMES.iter().enumerate() {
        if g.chance(1, 2) {
            let mut d = plain_unit(nm, if g.chance(3, 4) { Some([0.125, 0.375, 1.0, 2.5][k % 4]) } else { None });
            if g.chance(1, 2) {
                command_tables(g, &mut d);
            }
            table.insert(nm.to_string(), unit_of(&d));
        }
    }
    let mut st = SC2ReplayState::default().with_balance_units(table);
    for u in 0..users {
        let mut d = s2protocol::details::PlayerLobbyDetails::default();
        d.player_details.name = format!("P{u}");
        d.lobby_slot.user_id = Some(u);
        let us = SC2UserState::new(d);
        st.user_state.insert(u, us);
    }
    let mut at = 0i64;
    let mut v = vec![];
    for _ in 0..count {
        at += *g.pick(&[0i64, 1, 7, 16, 100_000]);
        let user = w.user(g);
        let player_name = (0..users).contains(&user).then(|| format!("P{user}"));
        v.push(match g.below(3) {
            0 => SC2EventType::Tracker { tracker_loop: at, event: tracker_event(g, &w) },
            1 => SC2EventType::Game { game_loop: at, user_id: user, player_name, event: selection_event(g, &w, user) },
            _ => SC2EventType::Game { game_loop: at, user_id: user, player_name, event: command_event(g, &w) },
        });
    }
    (st, v)
}
fn history(g: &mut Gen, scope: Scope) -> Res {
    let w = gen_world(g);
    let users = w.users;
    let mut m = Model { units: Default::default(), users: Default::default(), defs: Default::default() };
    let mut table = HashMap::new();
    for (k, nm) in NAMES.iter().enumerate() {
        if g.chance(1, 2) {
            let mut d = plain_unit(nm, if g.chance(3, 4) { Some([0.125, 0.375, 1.0, 2.5][k % 4]) } else { None });
            if g.chance(1, 2) {
                command_tables(g, &mut d);
            }
            table.insert(nm.to_string(), unit_of(&d));
            m.defs.insert(nm.to_string(), d);
        }
    }
    let mut st = SC2ReplayState::default().with_balance_units(table);
    for u in 0..users {
        let mut d = s2protocol::details::PlayerLobbyDetails::default();
        d.player_details.name = format!("P{u}");
        d.lobby_slot.user_id = Some(u);
        let us = SC2UserState::new(d);
        m.users.insert(u, us.clone());
        st.user_state.insert(u, us);
    }
    let most = if w.indexes.len() > 300 { 12 } else { 60 };
    let steps = 1 + if g.chance(1, 4) { g.len(most) } else { g.idx(most) };
    // most units exist and some are selected before the interesting part
    let mut setup = vec![];
    if scope != Scope::Registry || g.bool() {
        for k in 0..w.indexes.len() {
            if g.chance(4, 5) {
                let e = UnitBornEvent {
                    unit_tag_index: w.indexes[k],
                    unit_tag_recycle: w.recycles[k],
                    unit_type_name: name(g),
                    control_player_id: w.owner(g),
                    upkeep_player_id: 0,
                    x: 1,
                    y: 2,
                    creator_unit_tag_index: None,
                    creator_unit_tag_recycle: None,
                    creator_ability_name: None,
                };
                setup.push(SC2EventType::Tracker { tracker_loop: 0, event: ReplayTrackerEvent::UnitBorn(e) });
            }
        }
        for u in 0..users {
            if g.chance(2, 3) {
                let d = GameSSelectionDelta { m_subgroup_index: 0, m_remove_mask: GameSSelectionMask::None, m_add_subgroups: vec![], m_add_unit_tags: w.selectable(g, u) };
                setup.push(SC2EventType::Game { game_loop: 0, user_id: u, player_name: Some(format!("P{u}")), event: ReplayGameEvent::SelectionDelta(GameSSelectionDeltaEvent { m_control_group_id: 10, m_delta: d }) });
            }
        }
    }
    let mut setup = setup.into_iter();
    let mut at = 0i64;
    let mut judged = 0;
    let mut log: Vec<String> = vec![];
    let mut kinds = BTreeSet::new();
    let (pt, ps) = match scope {
        Scope::Registry => (14, 17),
        Scope::Selection => (7, 17),
        Scope::Commands => (6, 11),
    };
    for step in 0..steps + setup.len() {
        let early = setup.next();
        if early.is_none() {
            at += *g.pick(&[0i64, 1, 7, 16, 100_000]);
        }
        let user = w.user(g);
        let player_name = m.users.get(&user).map(|u| u.player_lobby_details.player_details.name.clone());
        let d = g.idx(20);
        let event = if let Some(e) = early {
            e
        } else if d < pt {
            SC2EventType::Tracker { tracker_loop: at, event: tracker_event(g, &w) }
        } else if d < ps {
            SC2EventType::Game { game_loop: at, user_id: user, player_name, event: selection_event(g, &w, user) }
        } else {
            SC2EventType::Game { game_loop: at, user_id: user, player_name, event: command_event(g, &w) }
        };
        use ReplayGameEvent as G;
        use ReplayTrackerEvent as T;
        let (judge, died) = match &event {
            SC2EventType::Tracker { event: T::UnitOwnerChange(_), .. } => (false, false),
            SC2EventType::Tracker { event: T::UnitDied(_), .. } => (scope == Scope::Registry, true),
            SC2EventType::Tracker { .. } => (scope == Scope::Registry, false),
            SC2EventType::Game { event: G::SelectionDelta(_) | G::ControlGroupUpdate(_), .. } => (scope == Scope::Selection, false),
            SC2EventType::Game { .. } => (scope == Scope::Commands, false),
        };
        let text = format!("{event:?}");
        log.push(text.clone());
        kinds.insert(kind(&event));
        let before = m.units.len();
        let (want_event, want_hint) = m.step(&event);
        let item = st.handle_transition_to_next_event(event);
        let ctx = |e: String| format!("event {step} {text}: {e}\nhistory: {}", log.join("\n  "));
        if judge {
            match (&want_hint.0, scope) {
                (Hint::Registered(..) | Hint::Unregistered(..), _) => judged += 1,
                (Hint::Positions(v), _) if !v.is_empty() => judged += 1,
                (Hint::Selection(v), _) if !v.is_empty() => judged += 1,
                (Hint::Abilities(v, _) | Hint::TargetPoints(v) | Hint::TargetUnits(v, _), _) if !v.is_empty() => judged += 1,
                _ => {}
            }
            want_hint.same(&item.change_hint).map_err(ctx)?;
            same_event(&want_event, &item.event_type, &item.change_hint).map_err(ctx)?;
        }
        let _ = before;
        if judge {
            let (a, b) = (units_json(m.units.values().cloned()), units_json(st.units.values().cloned()));
            for (k, v) in &a {
                let got = b.get(k);
                ensure!(Some(v) == got, "{}", ctx(format!("unit {k} is {}, expected {v}", got.map(|j| j.to_string()).unwrap_or("not registered".into()))));
            }
            for (k, v) in &b {
                ensure!(a.contains_key(k), "{}", ctx(format!("unit {k} is registered as {v}, it should not be")));
            }
            ensure!(st.units.iter().all(|(k, u)| *k == u.tag_index), "{}", ctx("a unit is registered under another index".into()));
            ensure!(st.user_state.len() == m.users.len(), "{}", ctx("the users have changed".into()));
            for (id, u) in &m.users {
                let got = &st.user_state[id];
                let (wd, gd) = (&u.player_lobby_details, &got.player_lobby_details);
                ensure!(wd.tracker_setup_player_id == gd.tracker_setup_player_id && wd.tracker_setup_slot_id == gd.tracker_setup_slot_id, "{}", ctx(format!("user {id} has tracker player {:?} and slot {:?}", gd.tracker_setup_player_id, gd.tracker_setup_slot_id)));
                ensure!(u.camera_pos == got.camera_pos, "{}", ctx(format!("the camera of user {id} is at {:?}", got.camera_pos)));
            }
        }
        if judge && !(died && scope == Scope::Registry) || died && scope == Scope::Selection {
            for (id, u) in &m.users {
                let got = groups(&st.user_state[id]);
                ensure!(groups(u) == got, "{}", ctx(format!("control groups of user {id} are {got:?}, expected {:?}", groups(u))));
            }
        }
        // what is not judged here is taken over as it is
        m.units = st.units.values().map(|u| (u.tag_index, u.clone())).collect();
        m.users = st.user_state.iter().map(|(k, v)| (*k, v.clone())).collect();
    }
    g.key(&log);
    for k in kinds {
        g.label(k);
    }
    if judged < if scope == Scope::Selection { 2 } else { 1 } {
        g.trivial();
    }
    g.sample(|| format!("{users} users, {} units: {}", w.indexes.len(), log.iter().take(8).map(|s| s.chars().take(150).collect::<String>()).collect::<Vec<_>>().join("; ")));
    Ok(())
}
pub fn kind(e: &SC2EventType) -> String {
    let s = match e {
        SC2EventType::Tracker { event, .. } => format!("{event:?}"),
        SC2EventType::Game { event, .. } => format!("{event:?}"),
    };
    let mut k: String = s.split('(').next().unwrap().into();
    if let SC2EventType::Game { event: ReplayGameEvent::ControlGroupUpdate(u), .. } = e {
        k = format!("{:?}", u.m_control_group_update);
    }
    k
}
