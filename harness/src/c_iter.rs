//! C11..C13, C20: streaming iterators, the merged timeline, its filters, and who plays.
use crate::c_replay::{details_json, init_json, to_json};
use crate::engine::*;
use crate::replay::*;
use crate::schema::*;
use crate::synth::*;
use crate::{Property, ensure, ensure_eq};
use s2protocol::details::*;
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::game_events::iterator::GameEventIteratorState;
use s2protocol::init_data::{InitData, UserInitDataFlatRow};
use s2protocol::tracker_events::iterator::TrackertEventIteratorState;
use s2protocol::{SC2EventIterator, SC2EventIteratorItem, SC2ReplayState, SC2UserState};
use serde_json::{Value as J, json};
use std::collections::HashMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            rule: "sectors of 1..40 random tracker or game events of all kinds (small and large time steps, invalid text, kinds that are not reported) read event by event, with the iterator saved as JSON and restored at random points; also such sectors repeated until there are more than 66,000 events, whose events are the same with later loops; non-trivial: at least two reported events and one that is skipped or a restored iterator",
            assumptions: &["the frozen schema is the specification of the layouts"],
            checks: vec![check("tracker", c11_tracker, 60_000, 20), check("game", c11_game, 60_000, 20), check("long", c11_long, 32, 20), check("real", c11_real, 3, 1)],
        },
        Property {
            id: "C12",
            rule: "whole synthesized replays (players, lobby, 0..30 tracker and 0..30 game events about the same units, small time steps with frequent ties, empty streams) run through the iterator and through a reference merge, half of them saved as JSON and restored on the way; also replays whose streams are repeated until there are more than 66,000 events, for the order of the items; non-trivial: both streams have reported events and they alternate at least twice",
            assumptions: &["what one event does to the state is judged by C14, C15, C16 and taken as it is here"],
            checks: vec![check("timeline", c12_timeline, 24_000, 20), check("long", c12_long, 24, 20)],
        },
        Property {
            id: "C13",
            rule: "synthesized replays as for C12 with random combinations of the filters, their values taken from the events that occur and their neighbours; non-trivial: the filters remove some of the events and keep some",
            assumptions: &["the unit_tag and event_type filters have no documented effect on the iterator and are left unset"],
            checks: vec![check("filters", c13_filters, 20_000, 20), check("name", c13_name, 20_000, 20)],
        },
        Property {
            id: "C20",
            rule: "random details and lobby data in one archive, 0..5 players and 0..6 lobby slots with working slots out of {none,0,1,2,3,4,255} so that they match, collide or miss; non-trivial: at least one player is joined",
            assumptions: &["names and clan tags of users are those at the position of the lobby slot, as in the code"],
            checks: vec![check("join", c20_join, 40_000, 20), check("rows", c20_rows, 60_000, 20)],
        },
    ]
}

// ---------------------------------------------------------------- C11

fn restore<T: serde::Serialize + serde::de::DeserializeOwned>(t: &T) -> Result<T, String> {
    let s = serde_json::to_string(t).map_err(|e| format!("not saved: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("not restored: {e}"))
}
fn c11_tracker(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let n = 1 + g.idx(40);
    let world = World::gen_world(g);
    let w = if g.bool() { Some(&world) } else { None };
    let (evs, b) = tracker_stream(g, w, n, true, 2);
    let want: Vec<J> = evs.iter().filter_map(tracker_item).collect();
    let mut it = TrackertEventIteratorState::from(b.clone());
    let mut saved = false;
    for (k, x) in want.iter().enumerate() {
        if g.chance(1, 12) {
            it = restore(&it)?;
            saved = true;
        }
        let got = it.get_next_event(build).ok_or_else(|| format!("event {k} of {} is missing: {x}", want.len()))?;
        same_json(x, &to_json(&got), &format!("event {k}"))?;
    }
    let more = it.get_next_event(build);
    ensure!(more.is_none(), "after {} events there is another one: {more:?}", want.len());
    // what is read at once is the same
    let a = Files { header: plain_header(build), tracker: Some(b.clone()), ..Default::default() }.archive();
    let eager = with_mpq(&a, |m| s2protocol::read_tracker_events("x", m, &a))?.map_err(|e| format!("{want:?}: {e:?}"))?;
    ensure_eq!(eager.len(), want.len(), "events read at once");
    for (e, x) in eager.iter().zip(&want) {
        same_json(&x["Tracker"]["event"], &to_json(&e.event), "event read at once")?;
    }
    if want.len() < 2 || want.len() == n && !saved {
        g.trivial();
    }
    g.label(if saved { "restored" } else { "straight" });
    g.key(&(build, &b));
    g.sample(|| format!("base build {build}: {n} events, reported {}", want.iter().map(|j| j.to_string().chars().take(120).collect::<String>()).collect::<Vec<_>>().join(" ")));
    Ok(())
}
fn users(g: &mut Gen) -> (HashMap<i64, SC2UserState>, HashMap<i64, String>) {
    let (mut m, mut names) = (HashMap::new(), HashMap::new());
    for _ in 0..g.idx(5) {
        let most = if g.bool() { 4 } else { 32 };
        let id = g.below(most) as i64;
        let name = String::from_utf8(gen_text(g, 4)).unwrap();
        let mut d = PlayerLobbyDetails::default();
        d.player_details.name = name.clone();
        d.user_init_data_name = "other".into();
        m.insert(id, SC2UserState::new(d));
        names.insert(id, name);
    }
    (m, names)
}
fn c11_game(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = bit_schema(build);
    let n = 1 + g.idx(40);
    let world = World::gen_world(g);
    let w = if g.bool() { Some(&world) } else { None };
    let (evs, b) = game_stream(g, s, w, n, true);
    let (state, names) = users(g);
    let none = HashMap::new();
    let want: Vec<J> = evs.iter().filter_map(|e| game_item(e, &names)).collect();
    let mut it = GameEventIteratorState::from(b.clone());
    let mut saved = false;
    for (k, x) in want.iter().enumerate() {
        if g.chance(1, 12) {
            it = restore(&it)?;
            saved = true;
        }
        let got = it.get_next_event(build, &state, &none).ok_or_else(|| format!("base build {build}: event {k} of {} is missing: {x}", want.len()))?;
        if same_json(x, &to_json(&got), &format!("base build {build}: event {k}"))? {
            g.known(KNOWN_NUL);
        }
    }
    let more = it.get_next_event(build, &state, &none);
    ensure!(more.is_none(), "after {} events there is another one: {more:?}", want.len());
    let a = Files { header: plain_header(build), game: Some(b.clone()), ..Default::default() }.archive();
    let eager = with_mpq(&a, |m| s2protocol::read_game_events("x", m, &a))?.map_err(|e| format!("{want:?}: {e:?}"))?;
    ensure_eq!(eager.len(), want.len(), "events read at once");
    for (e, x) in eager.iter().zip(&want) {
        same_json(&x["Game"]["event"], &to_json(&e.event), "event read at once")?;
        ensure!(x["Game"]["user_id"] == json!(e.user_id), "user {} read at once: {x}", e.user_id);
    }
    if want.len() < 2 || want.len() == n && !saved {
        g.trivial();
    }
    g.label(if saved { "restored" } else { "straight" });
    g.key(&(build, &b));
    g.sample(|| format!("base build {build}: {n} events, reported {}", want.iter().map(|j| j.to_string().chars().take(120).collect::<String>()).collect::<Vec<_>>().join(" ")));
    Ok(())
}
/// How often something of `n` events is repeated to be long.
fn times(g: &mut Gen, n: usize) -> i64 {
    let most = *g.pick(&[66_000usize, 66_000, 70_000, 132_000]);
    most.div_ceil(n.max(1)) as i64
}
/// Long sectors: small ones again and again.
fn c11_long(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let n = 2 + g.idx(30);
    let tracker = g.bool();
    let none = HashMap::new();
    let us = HashMap::new();
    let (want, b, period): (Vec<(i64, J)>, Vec<u8>, i64) = if tracker {
        let (evs, b) = tracker_stream(g, None, n, false, 1);
        (evs.iter().filter_map(|e| Some((e.at, tracker_item(e)?))).collect(), b, evs.last().map_or(0, |e| e.at))
    } else {
        let (evs, b) = game_stream(g, bit_schema(build), None, n, false);
        (evs.iter().filter_map(|e| Some((e.at, game_item(e, &HashMap::new())?))).collect(), b, evs.last().map_or(0, |e| e.at))
    };
    if want.is_empty() {
        g.trivial();
        return Ok(());
    }
    let k = times(g, n);
    let long = b.repeat(k as usize);
    let (mut t, mut gm) = (TrackertEventIteratorState::from(long.clone()), GameEventIteratorState::from(long.clone()));
    let mut at = 0;
    let rare = 1 + g.below(300);
    for r in 0..k {
        for (at0, x) in &want {
            let got = if tracker { t.get_next_event(build) } else { gm.get_next_event(build, &us, &none) };
            let ctx = || format!("base build {build}: event {at}, the {r}th time of {k} that {n} events come");
            let got = got.ok_or_else(|| format!("{} is missing", ctx()))?;
            let l = match &got {
                s2protocol::state::SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
                s2protocol::state::SC2EventType::Game { game_loop, .. } => *game_loop,
            };
            ensure!(l == at0 + r * period, "{}: loop {l}, expected {}", ctx(), at0 + r * period);
            if at < 40 || at % rare == 0 || (65_530..65_545).contains(&at) || r == k - 1 {
                let mut x = x.clone();
                let (kind, l) = if tracker { ("Tracker", "tracker_loop") } else { ("Game", "game_loop") };
                x[kind][l] = json!(at0 + r * period);
                same_json(&x, &to_json(&got), &ctx())?;
            }
            at += 1;
        }
    }
    let more = if tracker { t.get_next_event(build) } else { gm.get_next_event(build, &us, &none) };
    ensure!(more.is_none(), "base build {build}: after {at} events there is another one: {more:?}");
    // what is read at once is the same
    let mut f = Files { header: plain_header(build), ..Default::default() };
    *if tracker { &mut f.tracker } else { &mut f.game } = Some(long);
    let a = f.archive();
    let (count, loops) = with_mpq(&a, |m| match tracker {
        true => s2protocol::read_tracker_events("x", m, &a).map(|v| (v.len(), v.iter().map(|e| e.delta as i64).sum::<i64>())),
        false => s2protocol::read_game_events("x", m, &a).map(|v| (v.len(), v.iter().map(|e| e.delta).sum())),
    })?
    .map_err(|e| format!("{e:?}"))?;
    ensure_eq!(count as u64, at as u64, "events read at once");
    let last = want[want.len() - 1].0 + (k - 1) * period;
    ensure_eq!(loops, last, "time of all events read at once");
    g.label(if tracker { "tracker" } else { "game" });
    g.key(&(build, &b, k));
    g.sample(|| format!("base build {build}: {n} events {k} times, {at} reported"));
    Ok(())
}
/// The replays of the repository: event by event and at once agree.
fn c11_real(g: &mut Gen) -> Res {
    let fs = real_replays()?;
    let p = g.pick(&fs).clone();
    let n = p.to_str().unwrap();
    let (m, b) = s2protocol::read_mpq(n).map_err(|e| format!("{n}: {e:?}"))?;
    let init = InitData::try_from((p.clone(), 1)).map_err(|e| format!("{n}: {e:?}"))?;
    let sector = |f: &str| m.read_mpq_file_sector(f, false, &b).map(|x| x.1).map_err(|e| format!("{n}: {f}: {e:?}"));
    let eager = s2protocol::read_tracker_events(n, &m, &b).map_err(|e| format!("{n}: {e:?}"))?;
    let mut it = TrackertEventIteratorState::from(sector("replay.tracker.events")?);
    let mut at = 0i64;
    for e in &eager {
        at += e.delta as i64;
        let want = json!({"Tracker": {"tracker_loop": at, "event": to_json(&e.event)}});
        let got = it.get_next_event(init.version).ok_or_else(|| format!("{n}: missing {want}"))?;
        ensure!(to_json(&got) == want, "{n}: {}, read at once {want}", to_json(&got));
    }
    ensure!(it.get_next_event(init.version).is_none(), "{n}: more tracker events than read at once");
    let eager = s2protocol::read_game_events(n, &m, &b).map_err(|e| format!("{n}: {e:?}"))?;
    let mut it = GameEventIteratorState::from(sector("replay.game.events")?);
    let (us, bu) = (HashMap::new(), HashMap::new());
    let mut at = 0i64;
    for e in &eager {
        at += e.delta;
        let want = json!({"Game": {"game_loop": at, "user_id": e.user_id, "player_name": null, "event": to_json(&e.event)}});
        let got = it.get_next_event(init.version, &us, &bu).ok_or_else(|| format!("{n}: missing {want}"))?;
        ensure!(to_json(&got) == want, "{n}: {}, read at once {want}", to_json(&got));
    }
    ensure!(it.get_next_event(init.version, &us, &bu).is_none(), "{n}: more game events than read at once");
    g.key(&n);
    g.sample(|| format!("{n}: {} game events", eager.len()));
    Ok(())
}
pub fn real_replays() -> Result<Vec<std::path::PathBuf>, String> {
    let mut fs: Vec<_> = std::fs::read_dir("/repo/assets").map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "SC2Replay")).collect();
    fs.sort();
    ensure!(!fs.is_empty(), "no replays");
    Ok(fs)
}

// ---------------------------------------------------------------- C12

/// The JSON of a replay item, without the order of the units of a change.
pub fn item_json(i: &SC2EventIteratorItem) -> J {
    let mut j = to_json(i);
    let sort = |j: &mut J| {
        if let Some(a) = j.as_array_mut() {
            a.sort_by_key(|u| u["tag_index"].as_u64());
        }
    };
    let h = &mut j["change_hint"];
    if h.is_object() {
        for k in ["Positions", "TargetPoints", "Selection"] {
            if h.get(k).is_some() {
                sort(&mut h[k]);
            }
        }
        for k in ["TargetUnits", "Abilities"] {
            if h.get(k).is_some() {
                sort(&mut h[k]["units"]);
            }
        }
    }
    j
}
pub fn state_json(s: &SC2ReplayState) -> J {
    let mut j = to_json(s);
    if let Some(o) = j["user_state"].as_object_mut() {
        for (_, u) in o {
            for gr in u["control_groups"].as_array_mut().into_iter().flatten() {
                if let Some(a) = gr.as_array_mut() {
                    a.sort_by_key(|x| x.as_u64());
                }
            }
        }
    }
    j
}
/// Events of both streams in their order: by loop, tracker events first at the same one.
pub fn merged(r: &Replay) -> Vec<J> {
    let names: HashMap<i64, String> = player_names(&r.cast, r.build);
    let t: Vec<(i64, J)> = r.tracker.iter().filter_map(|e| Some((e.at, tracker_item(e)?))).collect();
    let gm: Vec<(i64, J)> = r.game.iter().filter_map(|e| Some((e.at, game_item(e, &names)?))).collect();
    let (mut i, mut k, mut out) = (0, 0, vec![]);
    while i < t.len() || k < gm.len() {
        if k == gm.len() || i < t.len() && t[i].0 <= gm[k].0 {
            out.push(t[i].1.clone());
            i += 1;
        } else {
            out.push(gm[k].1.clone());
            k += 1;
        }
    }
    out
}
/// The names of the players by user: the player and the lobby slot with the same working slot.
fn player_names(c: &Cast, build: u32) -> HashMap<i64, String> {
    let (d, i) = (details_json(&c.details).unwrap(), init_json(bit_schema(build), &c.init).unwrap());
    let mut m = HashMap::new();
    for p in d["player_list"].as_array().unwrap() {
        let id = &p["working_set_slot_id"];
        if id.is_null() {
            continue;
        }
        if let Some(s) = i["sync_lobby_state"]["lobby_state"]["slots"].as_array().unwrap().iter().find(|s| s["working_set_slot_id"] == *id)
            && let Some(u) = s["user_id"].as_i64()
        {
            m.insert(u, p["name"].as_str().unwrap().to_string());
        }
    }
    m
}
const PLAN: Plan = Plan { max_tracker: 30, max_game: 30, stats: 1, wide: true };

fn c12_timeline(g: &mut Gen) -> Res {
    let mut plan = PLAN;
    plan.wide = g.chance(1, 4);
    let r = replay(g, &plan, "timeline.SC2Replay")?;
    let (all, own) = gen_balance(g, r.build);
    let want = merged(&r);
    let mut state = SC2ReplayState::try_from(&r.init).map_err(|e| format!("{e:?}"))?.with_balance_units(own);
    let mut it = SC2EventIterator::new(&r.init, all).map_err(|e| format!("{e:?}"))?;
    let resume = g.bool();
    let (mut turns, mut last) = (0, None);
    let mut log = vec![];
    for (k, x) in want.iter().enumerate() {
        if resume && g.chance(1, 8) {
            it = restore(&it)?;
        }
        let tracker = x.get("Tracker").is_some();
        turns += (last.is_some() && last != Some(tracker)) as usize;
        last = Some(tracker);
        log.push(x.to_string().chars().take(200).collect::<String>());
        let ctx = |e: String| format!("base build {}: {e}\nexpected order: {}", r.build, log.join("\n  "));
        let got = it.next().ok_or_else(|| ctx(format!("item {k} of {} is missing", want.len())))?;
        let exp = state.handle_transition_to_next_event(event_of(x)?);
        if same_json(&item_json(&exp), &item_json(&got), &format!("item {k}")).map_err(ctx)? {
            g.known(KNOWN_NUL);
        }
        ensure!(got.is_tracker_event() == tracker && got.is_game_event() != tracker, "{}", ctx(format!("item {k} is of the wrong kind")));
    }
    let more = it.next();
    ensure!(more.is_none(), "after {} items there is another one: {more:?}", want.len());
    ensure!(it.next().is_none(), "the iterator goes on after its end");
    same_json(&state_json(&state), &state_json(&it.sc2_state), "state at the end")?;
    if turns < 2 {
        g.trivial();
    }
    g.label(if resume { "restored" } else { "straight" });
    if r.tracker.is_empty() || r.game.is_empty() {
        g.label("an empty stream");
    }
    g.key(&r.bytes);
    g.sample(|| format!("base build {}: {}", r.build, log.join(" ")));
    Ok(())
}

/// The order of many items.
fn c12_long(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 30, max_game: 30, stats: 1, wide: false };
    let r = replay(g, &plan, "long.SC2Replay")?;
    let k = times(g, r.tracker.len() + r.game.len());
    let spread = |evs: Vec<i64>, end: i64| -> Vec<i64> { (0..k).flat_map(|i| evs.iter().map(move |a| a + i * end).collect::<Vec<_>>()).collect() };
    let t = spread(r.tracker.iter().filter(|e| e.json.is_some()).map(|e| e.at).collect(), r.tracker.last().map_or(0, |e| e.at));
    let m = spread(r.game.iter().filter(|e| e.json.is_some()).map(|e| e.at).collect(), r.game.last().map_or(0, |e| e.at));
    let mut f = r.files.clone();
    for b in [&mut f.tracker, &mut f.game].into_iter().flatten() {
        *b = b.repeat(k as usize);
    }
    std::fs::write(&r.path, f.archive()).map_err(|e| e.to_string())?;
    let init = InitData::try_from((r.path.clone(), r.id)).map_err(|e| format!("{e:?}"))?;
    let (all, _) = gen_balance(g, r.build);
    let mut it = SC2EventIterator::new(&init, all).map_err(|e| format!("{e:?}"))?;
    let (mut i, mut j, mut turns, mut last) = (0, 0, 0, None);
    while i < t.len() || j < m.len() {
        let tracker = j == m.len() || i < t.len() && t[i] <= m[j];
        let ctx = || format!("base build {}: item {} of {} ({} events {k} times)", r.build, i + j, t.len() + m.len(), r.tracker.len() + r.game.len());
        let got = it.next().ok_or_else(|| format!("{} is missing", ctx()))?;
        let (kind, at) = match &got.event_type {
            s2protocol::state::SC2EventType::Tracker { tracker_loop, .. } => (true, *tracker_loop),
            s2protocol::state::SC2EventType::Game { game_loop, .. } => (false, *game_loop),
        };
        let want = if tracker { t[i] } else { m[j] };
        ensure!((kind, at) == (tracker, want), "{}: a {} event at {at}, expected a {} event at {want}", ctx(), if kind { "tracker" } else { "game" }, if tracker { "tracker" } else { "game" });
        turns += (last.is_some() && last != Some(tracker)) as usize;
        last = Some(tracker);
        *if tracker { &mut i } else { &mut j } += 1;
    }
    ensure!(it.next().is_none(), "after {} items there is another one", i + j);
    if turns < 2 {
        g.trivial();
    }
    g.key(&(r.bytes, k));
    g.sample(|| format!("base build {}: {i} tracker and {j} game events", r.build));
    Ok(())
}

// ---------------------------------------------------------------- C13

fn loop_of(x: &J) -> i64 {
    x["Tracker"]["tracker_loop"].as_i64().or(x["Game"]["game_loop"].as_i64()).unwrap()
}
/// Whether an event passes, by the documented meaning of the filters.
fn passes(x: &J, f: &SC2ReplayFilters) -> bool {
    let at = loop_of(x);
    if f.min_loop.is_some_and(|m| at < m) || f.max_loop.is_some_and(|m| at > m) {
        return false;
    }
    if let Some(gm) = x.get("Game") {
        return f.player_id.is_none_or(|p| gm["user_id"].as_i64() == Some(p as i64));
    }
    let (kind, e) = x["Tracker"]["event"].as_object().unwrap().iter().next().unwrap();
    let player = |n: &str| f.player_id.is_none_or(|p| e[n].as_u64() == Some(p as u64));
    let unit = || f.unit_name.as_ref().is_none_or(|n| e["unit_type_name"] == json!(n));
    match kind.as_str() {
        "PlayerStats" => player("player_id") && f.include_stats,
        "PlayerSetup" | "Upgrade" => player("player_id"),
        "UnitBorn" | "UnitInit" => player("control_player_id") && unit(),
        "UnitOwnerChange" => player("control_player_id"),
        "UnitDied" => player("killer_player_id"),
        "UnitTypeChange" => unit(),
        _ => true,
    }
}
fn gen_filters(g: &mut Gen, evs: &[J], r: &Replay) -> SC2ReplayFilters {
    let mut f = SC2ReplayFilters::default();
    let some = |g: &mut Gen| if evs.is_empty() { 0 } else { loop_of(&evs[g.idx(evs.len())]) };
    if g.chance(1, 3) {
        f.min_loop = Some(some(g) + g.range(-1, 1));
    }
    if g.chance(1, 3) {
        f.max_loop = Some(some(g) + g.range(-1, 1));
    }
    if g.chance(1, 2) {
        f.player_id = Some(if g.bool() {
            if r.game.is_empty() || g.bool() { g.idx(r.world.users as usize) as u8 } else { r.game[g.idx(r.game.len())].user as u8 }
        } else {
            // of a tracker event
            let ids: Vec<u8> = evs
                .iter()
                .filter_map(|x| x["Tracker"]["event"].as_object()?.values().next().cloned())
                .flat_map(|e| ["player_id", "control_player_id", "killer_player_id", "upkeep_player_id"].map(|n| e[n].as_u64().map(|v| v as u8)))
                .flatten()
                .collect();
            if ids.is_empty() { 1 } else { *g.pick(&ids) }
        });
    }
    if g.chance(1, 3) {
        f.unit_name = Some(g.pick(&UNITS).to_string());
    }
    if g.chance(1, 3) {
        f.max_events = Some(g.idx(evs.len() + 3));
    }
    f.include_stats = g.bool();
    f
}
fn c13_filters(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 24, max_game: 20, stats: 3, wide: false };
    let r = replay(g, &plan, "filters.SC2Replay")?;
    let (all, _) = gen_balance(g, r.build);
    let evs = merged(&r);
    let f = gen_filters(g, &evs, &r);
    let mut whole = SC2EventIterator::new(&r.init, all.clone()).map_err(|e| format!("{e:?}"))?;
    let mut want = vec![];
    let mut full = false;
    for x in &evs {
        full |= f.max_events.is_some_and(|m| want.len() >= m);
        let i = whole.next().ok_or("fewer events than written")?;
        if !full && passes(x, &f) {
            want.push(item_json(&i));
        }
    }
    full |= f.max_events.is_some_and(|m| want.len() >= m);
    let mut it = SC2EventIterator::new(&r.init, all).map_err(|e| format!("{e:?}"))?.with_filters(f.clone());
    let mut got = vec![];
    let resume = g.chance(1, 3);
    loop {
        if resume && g.chance(1, 5) {
            it = restore(&it)?;
        }
        match it.next() {
            Some(i) => got.push(item_json(&i)),
            None => break,
        }
        ensure!(got.len() <= evs.len(), "more events than there are");
    }
    ensure!(it.next().is_none(), "{f:?}: the iterator goes on after its end");
    let brief = |v: &[J]| v.iter().map(|j| j["event_type"].to_string().chars().take(160).collect::<String>()).collect::<Vec<_>>().join("\n  ");
    ensure!(want == got, "{f:?}: got {} events\n  {}\nexpected {}\n  {}\nof\n  {}", got.len(), brief(&got), want.len(), brief(&want), evs.iter().map(|e| e.to_string().chars().take(160).collect::<String>()).collect::<Vec<_>>().join("\n  "));
    if !full {
        // events that are filtered out still happen
        ensure!(state_json(&whole.sc2_state) == state_json(&it.sc2_state), "{f:?}: the state at the end is not the one without filters");
    }
    if want.is_empty() || want.len() == evs.len() {
        g.trivial();
    }
    for (n, on) in [("min_loop", f.min_loop.is_some()), ("max_loop", f.max_loop.is_some()), ("player_id", f.player_id.is_some()), ("unit_name", f.unit_name.is_some()), ("max_events", f.max_events.is_some())] {
        if on {
            g.label(n);
        }
    }
    g.key(&(&r.bytes, format!("{f:?}")));
    g.sample(|| format!("{f:?}: {} of {} events", want.len(), evs.len()));
    Ok(())
}
const WHO: [&str; 11] = ["a", "b", "A", "ab", "", "a ", " a", "é", "e\u{301}", "<x>a", "a\0"];
fn c13_name(g: &mut Gen) -> Res {
    let n = g.idx(6);
    let mut d = Details::default();
    for _ in 0..n {
        d.player_list.push(PlayerDetails {
            name: g.pick(&WHO).to_string(),
            working_set_slot_id: if g.chance(1, 5) { None } else { Some(g.bits(8) as u8) },
            observe: g.below(3) as u8,
            ..Default::default()
        });
    }
    let who = *g.pick(&WHO);
    let before = if g.bool() { Some(g.bits(8) as u8) } else { None };
    let mut f = SC2ReplayFilters { player_id: before, ..Default::default() };
    f.set_player_id_from_user_name(who, &d);
    let named: Vec<Option<u8>> = d.player_list.iter().filter(|p| p.name == who).map(|p| p.working_set_slot_id).collect();
    match named.len() {
        0 => ensure_eq!(f.player_id, before, "player of an unknown name"),
        1 => ensure_eq!(f.player_id, named[0], "player"),
        _ => ensure!(named.contains(&f.player_id), "{:?} is not one of {named:?}", f.player_id),
    }
    if named.is_empty() {
        g.trivial();
    }
    g.key(&format!("{who}{d:?}"));
    g.sample(|| format!("{who:?} of {:?}: {:?}", d.player_list.iter().map(|p| (&p.name, p.working_set_slot_id)).collect::<Vec<_>>(), f.player_id));
    Ok(())
}

// ---------------------------------------------------------------- C20

fn c20_join(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = bit_schema(build);
    let cast = gen_cast(g, s, 3, false);
    let mut f = Files { header: plain_header(build), ..Default::default() };
    cast.write(g, s, &mut f);
    let bytes = f.archive();
    let path = g.dir.join("players.SC2Replay");
    std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
    let id = g.u64();
    let init = InitData::try_from((path.clone(), id)).map_err(|e| format!("base build {build}: {e:?}"))?;
    let (d, i) = (details_json(&cast.details).unwrap(), init_json(s, &cast.init).unwrap());
    let i = &i["sync_lobby_state"];
    let slots = i["lobby_state"]["slots"].as_array().unwrap();
    let name = path.to_str().unwrap();
    let when = to_json(&s2protocol::transform_to_naivetime(d["time_utc"].as_i64().unwrap(), d["time_local_offset"].as_i64().unwrap()).unwrap_or_default());
    let mut want = vec![];
    for p in d["player_list"].as_array().unwrap() {
        let Some(k) = slots.iter().position(|x| !p["working_set_slot_id"].is_null() && x["working_set_slot_id"] == p["working_set_slot_id"]) else { continue };
        let user = &i["user_initial_data"][k];
        want.push(json!({
            "player_details": p, "lobby_slot": slots[k], "title": d["title"], "game_description": i["game_description"],
            "time_utc": d["time_utc"], "time_local_offset": d["time_local_offset"],
            "user_init_data_name": user["name"].as_str().unwrap_or(""),
            "user_init_data_clan_tag": user["clan_tag"].as_str().unwrap_or(""),
            "tracker_setup_player_id": null, "tracker_setup_slot_id": null,
            "cache_handles": d["cache_handles"], "ext_fs_sha256": crate::sha::hex(&bytes), "ext_fs_file_name": name,
            "ext_fs_id": id, "ext_datetime": when,
        }));
    }
    let got: Vec<PlayerLobbyDetails> = (&init).try_into().map_err(|e: s2protocol::S2ProtocolError| format!("{e:?}"))?;
    let gj = to_json(&got);
    if same_json(&J::Array(want.clone()), &gj, "players")? {
        g.known(KNOWN_NUL);
    }
    // the state starts with the players that have a user
    let st = SC2ReplayState::try_from(&init).map_err(|e| format!("{e:?}"))?;
    let mut ids: Vec<i64> = got.iter().filter_map(|p| p.lobby_slot.user_id).collect();
    ids.sort();
    let dup = ids.windows(2).any(|w| w[0] == w[1]);
    ids.dedup();
    let mut have: Vec<i64> = st.user_state.keys().copied().collect();
    have.sort();
    ensure_eq!(have, ids, "users of the state");
    ensure!(st.units.is_empty() && st.init_data == init, "the state does not start from the lobby data");
    for p in &got {
        if let Some(u) = p.lobby_slot.user_id
            && !dup
        {
            ensure!(st.user_state[&u].player_lobby_details == *p, "user {u} is {:?}, expected {p:?}", st.user_state[&u].player_lobby_details);
            ensure!(st.user_state[&u].control_groups.len() == 11 && st.user_state[&u].control_groups.iter().all(|c| c.is_empty()), "user {u} starts with {:?}", st.user_state[&u].control_groups);
        }
    }
    // one row per player
    for p in &got {
        let row = to_json(&PlayerLobbyDetailsFlatRow::from(p.clone()));
        let want = player_row_like(&to_json(p), &row);
        ensure!(row == want, "row {row}, expected {want}");
    }
    let names: Vec<&str> = d["player_list"].as_array().unwrap().iter().filter(|p| p["observe"] == 0).map(|p| p["name"].as_str().unwrap()).collect();
    ensure_eq!(st.details.get_player_names(), names, "names of the players");
    // one row per user of the lobby
    let rows: Vec<UserInitDataFlatRow> = (&init).into();
    let users = to_json(&init.sync_lobby_state.user_initial_data);
    let want_rows: Vec<J> = users.as_array().unwrap().iter().enumerate().map(|(k, u)| json!({"ext_fs_id": id, "ext_fs_sha256": init.ext_fs_sha256, "ext_fs_file_name": name, "user_index": k, "name": u["name"], "clan_tag": u["clan_tag"].as_str().unwrap_or(""), "scaled_rating": u["scaled_rating"]})).collect();
    ensure!(to_json(&rows) == J::Array(want_rows.clone()), "rows {:?}, expected {want_rows:?}", rows);
    if want.is_empty() {
        g.trivial();
    }
    g.label(format!("{} of {} players", want.len(), d["player_list"].as_array().unwrap().len()));
    g.key(&bytes);
    g.sample(|| format!("base build {build}: {}", J::Array(want).to_string().chars().take(1200).collect::<String>()));
    Ok(())
}
/// The flat row of a joined player.
pub fn player_row(p: &J) -> J {
    let (mut region, mut ext, mut hashes) = (J::Null, J::Null, vec![]);
    for h in p["cache_handles"].as_array().unwrap() {
        let h = h.as_str().unwrap();
        if h.len() < 16 {
            continue;
        }
        let text = |h: &str| -> String { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap() as char).collect() };
        if ext.is_null() {
            ext = json!(text(&h[..8]));
            region = json!(text(&h[12..16]));
        }
        hashes.push(&h[16..]);
    }
    let (d, t, l, gd) = (&p["player_details"], &p["player_details"]["toon"], &p["lobby_slot"], &p["game_description"]);
    let c = &d["color"];
    json!({
        "player_name": d["name"], "player_toon_region": t["region"], "player_toon_program_id": t["program_id"], "player_toon_realm": t["realm"], "player_toon_id": t["id"],
        "player_race": d["race"], "player_color_a": c["a"], "player_color_r": c["r"], "player_color_g": c["g"], "player_color_b": c["b"],
        "player_control": d["control"], "player_team_id": d["team_id"], "player_observe": d["observe"], "player_result": d["result"],
        "player_working_set_slot_id": d["working_set_slot_id"], "player_hero": d["hero"], "title": p["title"],
        "is_blizzard_map": gd["is_blizzard_map"], "time_utc": p["time_utc"], "time_local_offset": p["time_local_offset"],
        "lobby_slot_user_id": l["user_id"], "lobby_slot_observe": l["observe"], "lobby_slot_map_size_x": gd["map_size_x"], "lobby_slot_map_size_y": gd["map_size_y"],
        "cache_handle_region": region, "cache_handle_extension": ext, "cache_handles": hashes.join(","),
        "ext_fs_sha256": p["ext_fs_sha256"], "ext_fs_file_name": p["ext_fs_file_name"], "ext_fs_id": p["ext_fs_id"], "ext_datetime": p["ext_datetime"],
    })
}
/// As above; the date of the row is free if no Arrow timestamp can hold it.
fn player_row_like(p: &J, row: &J) -> J {
    let mut want = player_row(p);
    let date = want["ext_datetime"].as_str().unwrap();
    let year: i64 = date[1..].find('-').and_then(|i| date[..i + 1].parse().ok()).unwrap_or(0);
    if !(1678..=2261).contains(&year) {
        want["ext_datetime"] = row["ext_datetime"].clone();
    }
    want
}
/// Rows of players that are not the result of a join.
fn c20_rows(g: &mut Gen) -> Res {
    let mut p = PlayerLobbyDetails::default();
    let t = |g: &mut Gen| {
        let n = g.idx(5);
        String::from_utf8(gen_text(g, n)).unwrap()
    };
    let b = |g: &mut Gen| g.bits(8) as u8;
    let d = &mut p.player_details;
    d.name = t(g);
    d.toon = ToonNameDetails { region: b(g), program_id: g.bits(32) as u32, realm: g.bits(32) as u32, id: g.u64() };
    d.race = t(g);
    d.color = Color { a: b(g), r: b(g), g: b(g), b: b(g) };
    (d.control, d.team_id, d.observe) = (b(g), b(g), b(g));
    d.handicap = g.bits(32) as u32;
    d.result = t(g);
    d.working_set_slot_id = if g.bool() { Some(b(g)) } else { None };
    d.hero = t(g);
    p.title = t(g);
    p.game_description.is_blizzard_map = g.bool();
    p.game_description.map_size_x = b(g);
    p.game_description.map_size_y = b(g);
    p.time_utc = g.u64() as i64;
    p.time_local_offset = g.u64() as i64;
    p.lobby_slot.user_id = if g.bool() { Some(g.bits(5) as i64) } else { None };
    p.lobby_slot.observe = b(g);
    p.user_init_data_name = t(g);
    p.ext_fs_id = g.u64();
    p.ext_fs_sha256 = t(g);
    p.ext_fs_file_name = t(g);
    for _ in 0..g.idx(4) {
        let n = *g.pick(&[0usize, 1, 7, 8, 8, 9, 40, 40]);
        p.cache_handles.push(hex(&g.bytes_n(n)));
    }
    let row = to_json(&PlayerLobbyDetailsFlatRow::from(p.clone()));
    let want = player_row_like(&to_json(&p), &row);
    ensure!(row == want, "row {row}, expected {want}");
    g.key(&want.to_string());
    g.sample(|| want.to_string());
    Ok(())
}
