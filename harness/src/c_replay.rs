//! C06..C10, C27: the consolidated (version independent) values read from synthesized replays.
use crate::c_decode::{TRACKER, delta_of};
use crate::engine::*;
use crate::replay::*;
use crate::schema::*;
use crate::{Property, ensure, ensure_eq};
use serde_json::{Value as J, json};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            rule: "replay headers and details with random field values, field order and optional parts, written as tagged structs into a synthesized archive and read through the public functions; text is valid UTF-8 in most cases; non-trivial: at least one player, cache handle or mod path, or invalid text, or (header) fields out of order",
            assumptions: &["the frozen schema is the specification of tags and types", "archives are synthesized by an independent writer (stored, single unit sectors)"],
            checks: vec![check("header", c06_header, 200_000, 20), check("details", c06_details, 150_000, 20), check("metadata", c06_metadata, 40_000, 20), check("real", real_files, 3, 1)],
        },
        Property {
            id: "C07",
            rule: "lobby data (users, game description, lobby state) with random values for every field, bit-packed into a synthesized archive; non-trivial: at least one user or lobby slot",
            assumptions: &["the frozen schema is the specification of the field order, widths and biases"],
            checks: vec![check("init_data", c07_init, 120_000, 15), check("wire", c07_wire, 120_000, 15)],
        },
        Property {
            id: "C08",
            rule: "sequences of 1..30 messages of all kinds with random fields in a synthesized archive of a random base build; non-trivial: at least one chat message and one other message or invalid text",
            assumptions: &["the frozen schema is the specification of the field order, widths and biases"],
            checks: vec![check("messages", c08_messages, 360_000, 10), check("wire", c08_wire, 600_000, 10)],
        },
        Property {
            id: "C09",
            rule: "sequences of 1..40 game events of all kinds, biased to those that are reported, with random fields in a synthesized archive of a random base build; non-trivial: at least one event that is reported and one that is not",
            assumptions: &["the frozen schema is the specification of the field order, widths and biases"],
            checks: vec![check("stream", c09_stream, 240_000, 10)],
        },
        Property {
            id: "C10",
            rule: "sequences of 1..40 tracker events of all kinds with random fields (unit names in one of eight cases invalid text) in a synthesized archive of a random base build; non-trivial: at least two kinds of events",
            assumptions: &["the frozen schema is the specification of tags and types"],
            checks: vec![check("stream", c10_stream, 180_000, 10)],
        },
        Property {
            id: "C27",
            rule: "replays of random base builds (biased to 75689, 75690 and listed builds) whose commands, lobby data, messages, details and tracker events are encoded with the layout of the protocol the base build selects, read at once and event by event; non-trivial: every case (distinct by base build and content)",
            assumptions: &["75689 is the last base build of the older layout"],
            checks: vec![check("dispatch", c27_dispatch, 60_000, 20)],
        },
    ]
}

const STRIP: Style = Style { strip: true };
const KEEP: Style = Style { strip: false };

pub fn to_json<T: serde::Serialize>(t: &T) -> J {
    serde_json::to_value(t).unwrap()
}

// ---------------------------------------------------------------- C06

fn c06_header(g: &mut Gen) -> Res {
    let s = versioned();
    let base = g.bits(32) as u32;
    let mut h = header_value(g, base);
    if g.bool() {
        h = s.gen_type(g, "ReplaySHeader", &CFG);
    }
    let mut b = enc_header(g, &h);
    let tail = g.bytes(4);
    b.extend(&tail);
    let want = s.debug("ReplaySHeader", &h);
    let (t, got) = s2protocol::versions::protocol87702::byte_aligned::ReplaySHeader::parse(&b).map_err(|e| format!("{want}: {e:?}"))?;
    let got = format!("{got:?}");
    ensure!(got == want, "{}", diff(&want, &got));
    ensure_eq!(t, &tail[..], "rest after the header");
    if b.starts_with(b"MPQ") {
        return Ok(());
    }
    // through an archive
    if g.chance(1, 4) {
        let f = Files { header: b.clone(), game: Some(vec![0; 8]), ..Default::default() };
        let a = f.archive();
        let got = with_mpq(&a, |m| s2protocol::read_protocol_header(m).map(|(_, h)| format!("{h:?}")))?.map_err(|e| format!("{e:?}"))?;
        ensure!(got == want, "{}", diff(&want, &got));
    }
    g.key(&b);
    g.sample(|| want);
    Ok(())
}

/// What the details must be; None when some text is not UTF-8.
pub fn details_json(d: &V) -> Option<J> {
    let s = versioned();
    let f = |n: &str| s.get("GameSDetails", d, n);
    let t = |n: &str| text(f(n).bytes());
    let list = |v: &V| -> Vec<V> { v.opt().map(|a| a.arr().to_vec()).unwrap_or_default() };
    let mut players = vec![];
    for p in list(f("m_player_list")) {
        let q = |n: &str| s.get("GameSPlayerDetails", &p, n);
        let toon = q("m_toon");
        let k = |n: &str| s.get("GameSToonNameDetails", toon, n);
        let col = q("m_color");
        let c = |n: &str| s.get("GameSColor", col, n).int();
        let V::Enum(obs, _) = q("m_observe") else { unreachable!() };
        let V::Enum(res, _) = q("m_result") else { unreachable!() };
        let prog = k("m_program_id").bytes();
        let result = ["Undecided", "Win", "Loss", "Tie"][*res];
        players.push(json!({
            "name": text(q("m_name").bytes())?,
            "toon": {"region": k("m_region").int(), "program_id": u32::from_be_bytes(prog.try_into().unwrap()), "realm": k("m_realm").int(), "id": k("m_id").int()},
            "race": text(q("m_race").bytes())?,
            "color": {"a": c("m_a"), "r": c("m_r"), "g": c("m_g"), "b": c("m_b")},
            "control": q("m_control").int(),
            "team_id": q("m_team_id").int(),
            "handicap": q("m_handicap").int(),
            "observe": obs,
            "result": result,
            "working_set_slot_id": q("m_working_set_slot_id").opt().map(|v| v.int()),
            "hero": text(q("m_hero").bytes())?,
        }));
    }
    let V::Enum(speed, _) = f("m_game_speed") else { unreachable!() };
    let game_speed = ["Slower", "Slow", "Normal", "Fast", "Faster"][*speed];
    let mut mods = vec![];
    for m in list(f("m_mod_paths")) {
        mods.push(text(m.bytes())?);
    }
    Some(json!({
        "player_list": players,
        "title": t("m_title")?,
        "difficulty": t("m_difficulty")?,
        "thumbnail": {"file": text(s.get("GameSThumbnail", f("m_thumbnail"), "m_file").bytes())?},
        "is_blizzard_map": f("m_is_blizzard_map").bool(),
        "time_utc": f("m_time_utc").int(),
        "time_local_offset": f("m_time_local_offset").int(),
        "restart_as_transition_map": f("m_restart_as_transition_map").opt().map(|b| b.bool()),
        "disable_recover_game": f("m_disable_recover_game").bool(),
        "description": t("m_description")?,
        "image_file_path": t("m_image_file_path")?,
        "campaign_index": f("m_campaign_index").int(),
        "map_file_name": t("m_map_file_name")?,
        "cache_handles": list(f("m_cache_handles")).iter().map(|h| hex(h.bytes())).collect::<Vec<_>>(),
        "mini_save": f("m_mini_save").bool(),
        "game_speed": game_speed,
        "default_difficulty": f("m_default_difficulty").int(),
        "mod_paths": mods,
        "ext_fs_id": 0,
        "ext_datetime": "1970-01-01T00:00:00",
    }))
}

fn c06_details(g: &mut Gen) -> Res {
    let s = versioned();
    let bad_text = g.chance(1, 6);
    let d = s.gen_type(g, "GameSDetails", if bad_text { &CFG } else { &TEXT });
    let mut b = vec![];
    s.venc_type(g, &mut b, "GameSDetails", &d);
    let build = gen_build(g);
    let a = Files { header: plain_header(build), details: Some(b.clone()), ..Default::default() }.archive();
    let got = with_mpq(&a, |m| s2protocol::read_details("x", m, &a))?;
    let wire = s2protocol::versions::protocol87702::byte_aligned::GameSDetails::parse(&b).map_err(|e| format!("{:?}: {e:?}", d))?;
    let want = s.debug("GameSDetails", &d);
    let have = format!("{:?}", wire.1);
    ensure!(have == want, "{}", diff(&want, &have));
    match (details_json(&d), got) {
        (Some(w), Ok(got)) => {
            same_json(&w, &to_json(&got), "details")?;
            let n = got.player_list.len();
            g.label(format!("{} players", if n > 3 { "more".to_string() } else { n.to_string() }));
            if n + got.cache_handles.len() + got.mod_paths.len() == 0 {
                g.trivial();
            }
            g.sample(|| format!("{got:?}"));
        }
        (None, Err(_)) => g.label("invalid text"),
        (w, got) => return Err(format!("expected {w:?}, got {got:?}")),
    }
    g.key(&b);
    Ok(())
}

/// The metadata of a file: name, identifier, SHA-256 of the content, version, date.
fn c06_metadata(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = versioned();
    let d = s.gen_type(g, "GameSDetails", &TEXT);
    let mut b = vec![];
    s.venc_type(g, &mut b, "GameSDetails", &d);
    let a = Files { header: plain_header(build), details: Some(b), ..Default::default() }.archive();
    let id = g.u64();
    let p = g.dir.join("meta.SC2Replay");
    std::fs::write(&p, &a).map_err(|e| e.to_string())?;
    let want = details_json(&d).ok_or("text")?;
    let off = want["time_local_offset"].as_i64().unwrap();
    let utc = want["time_utc"].as_i64().unwrap();
    let via_new = with_mpq(&a, |m| s2protocol::details::Details::new(p.to_str().unwrap(), id, m, &a))?.map_err(|e| format!("{e:?}"))?;
    let init = s2protocol::InitData { ext_fs_file_name: p.to_str().unwrap().into(), ext_fs_id: id, ..Default::default() };
    let via_path = s2protocol::details::Details::try_from(&init).map_err(|e| format!("{e:?}"))?;
    ensure_eq!(via_new, via_path, "details of a path and of its content");
    ensure_eq!(via_new.ext_fs_id, id, "identifier");
    let when = s2protocol::transform_to_naivetime(utc, off).unwrap_or_default();
    ensure_eq!(via_new.ext_datetime, when, "date of {utc} {off}");
    let mut w = want.clone();
    w["ext_fs_id"] = json!(id);
    w["ext_datetime"] = to_json(&when);
    same_json(&w, &to_json(&via_new), "details")?;
    g.key(&a);
    g.sample(|| format!("build {build}, id {id}, time {utc} offset {off}: {when}"));
    Ok(())
}

/// The replays of the repository are read, and their parts agree with each other.
fn real_files(g: &mut Gen) -> Res {
    let mut fs: Vec<_> = std::fs::read_dir("/repo/assets").map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "SC2Replay")).collect();
    fs.sort();
    ensure!(!fs.is_empty(), "no replays");
    for p in fs {
        let n = p.to_str().unwrap();
        let (m, b) = s2protocol::read_mpq(n).map_err(|e| format!("{n}: {e:?}"))?;
        let d = s2protocol::read_details(n, &m, &b).map_err(|e| format!("{n}: {e:?}"))?;
        ensure!(!d.player_list.is_empty() && !d.title.is_empty(), "{n}: {d:?}");
        g.sample(|| format!("{n}: {} players on {}", d.player_list.len(), d.title));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

/// The JSON of the lobby data; None when some text is not UTF-8.
pub fn init_json(s: &Schema, v: &V) -> Option<J> {
    let sync = s.get("ReplaySInitData", v, "m_sync_lobby_state");
    let mut j = s.json_type("GameSLobbySyncState", sync, STRIP);
    // one field wrappers, enumerations reported as numbers, handles as hex
    let num = |x: &J, names: &[&str]| json!(names.iter().position(|n| x == n).unwrap());
    let speeds = ["ESlower", "ESlow", "ENormal", "EFast", "EFaster"];
    let obs = ["ENone", "ESpectator", "EReferee"];
    let str_ok = |o: &J, names: &[&str]| names.iter().all(|n| o[n].is_string() || o[n].is_null());
    let mut ok = true;
    for u in j["user_initial_data"].as_array_mut().unwrap() {
        u["race_preference"] = u["race_preference"]["race"].take();
        u["team_preference"] = u["team_preference"]["team"].take();
        u["observe"] = num(&u["observe"], &obs);
        ok &= str_ok(u, &["name", "clan_tag", "hero", "skin", "mount", "toon_handle"]);
    }
    let gd = &mut j["game_description"];
    gd["game_speed"] = num(&gd["game_speed"], &speeds);
    ok &= str_ok(gd, &["game_cache_name", "map_file_name", "map_author_name"]);
    for h in gd["cache_handles"].as_array_mut().unwrap() {
        let b: Vec<u8> = h.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        *h = json!(hex(&b));
    }
    for l in j["lobby_state"]["slots"].as_array_mut().unwrap() {
        l["color_pref"] = l["color_pref"]["color"].take();
        l["race_pref"] = l["race_pref"]["race"].take();
        l["observe"] = num(&l["observe"], &obs);
        ok &= str_ok(l, &["hero", "skin", "mount", "toon_handle", "commander"]);
        ok &= l["artifacts"].as_array().unwrap().iter().all(|a| a.is_string());
        // fields that the older layout does not have
        for n in ["brutal_plus_difficulty", "a_c_enemy_race", "a_c_enemy_wave_type", "selected_commander_prestige"] {
            if l.get(n).is_none() {
                l[n] = json!(0);
            }
        }
        if l.get("retry_mutation_indexes").is_none() {
            l["retry_mutation_indexes"] = json!([]);
        }
    }
    ok.then(|| json!({"ext_fs_id": 0, "ext_fs_sha256": "", "ext_fs_file_name": "", "version": 0, "sync_lobby_state": j}))
}

fn c07_init(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = bit_schema(build);
    let bad_text = g.chance(1, 8);
    let v = s.gen_type(g, "ReplaySInitData", if bad_text { &CFG } else { &TEXT });
    let mut w = BitW::default();
    s.enc_type(&mut w, "ReplaySInitData", &v);
    let a = Files { header: plain_header(build), init: Some(w.bytes), ..Default::default() }.archive();
    let id = g.u64();
    let name = format!("file{}.SC2Replay", g.below(1000));
    let got = with_mpq(&a, |m| s2protocol::InitData::new(&name, id, m, &a))?;
    match (init_json(s, &v), got) {
        (Some(mut want), Ok(got)) => {
            want["version"] = json!(build);
            want["ext_fs_id"] = json!(id);
            want["ext_fs_file_name"] = json!(name);
            let mut gj = to_json(&got);
            let sha = gj["ext_fs_sha256"].as_str().unwrap_or("").to_string();
            ensure!(sha == crate::sha::hex(&a), "SHA-256 of the file: {sha}");
            gj["ext_fs_sha256"] = json!("");
            if same_json(&want, &gj, "init data")? {
                g.known(KNOWN_NUL);
            }
            if g.chance(1, 16) {
                let p = g.dir.join("init.SC2Replay");
                std::fs::write(&p, &a).map_err(|e| e.to_string())?;
                let mut again = s2protocol::InitData::try_from((p.clone(), id)).map_err(|e| format!("{e:?}"))?;
                ensure_eq!(again.ext_fs_file_name, p.to_str().unwrap(), "file name");
                again.ext_fs_file_name = name.clone();
                ensure!(again == got, "the path and its content are read differently");
            }
            let st = &got.sync_lobby_state;
            if st.user_initial_data.is_empty() && st.lobby_state.slots.is_empty() {
                g.trivial();
            }
            g.label(if legacy_build(build) { "older layout" } else { "newer layout" });
            g.label(format!("{} slots", st.lobby_state.slots.len().min(5)));
            g.sample(|| format!("{got:?}"));
        }
        (None, Err(_)) => g.label("invalid text"),
        (w, r) => return Err(format!("expected {}, got {r:?}", w.map(|w| w.to_string()).unwrap_or("an error".into()))),
    }
    g.key(&a);
    Ok(())
}

fn c07_wire(g: &mut Gen) -> Res {
    let old = g.chance(1, 3);
    let s = if old { legacy() } else { modern() };
    let v = s.gen_type(g, "ReplaySInitData", &CFG);
    let mut w = BitW::default();
    let lead = g.idx(8);
    w.bits(g.bits(lead), lead);
    let start = w.pos();
    s.enc_type(&mut w, "ReplaySInitData", &v);
    let end = w.pos();
    let mut b = w.bytes.clone();
    b.extend(g.bytes(3));
    let input = (&b[start / 8..], start % 8);
    let (t, got) = if old {
        s2protocol::versions::protocol75689::bit_packed::ReplaySInitData::parse(input).map(|(t, v)| (t, format!("{v:?}")))
    } else {
        s2protocol::versions::protocol87702::bit_packed::ReplaySInitData::parse(input).map(|(t, v)| (t, format!("{v:?}")))
    }
    .map_err(|e| format!("{v:?}: {e:?}"))?;
    if matches_debug(&s.debug("ReplaySInitData", &v), &got)? {
        g.known(KNOWN_NUL);
    }
    ensure_eq!(b.len() * 8 - t.0.len() * 8 + t.1, end, "position after the lobby data");
    g.key(&b);
    g.sample(|| format!("{} bytes from bit {start}", b.len()));
    Ok(())
}

// ---------------------------------------------------------------- C08

fn c08_messages(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = bit_schema(build);
    let n = 1 + g.idx(30);
    let mut w = BitW::default();
    let mut want = vec![];
    let (mut chats, mut others) = (0, 0);
    let mut skipped = 0i64;
    for _ in 0..n {
        let d = s.gen_type(g, "SVarUint32", &CFG);
        let u = g.below(32) as i64;
        let c = if g.bool() { TEXT } else { CFG };
        let e = if g.bool() { V::Enum(0, Box::new(s.gen_type(g, "GameSChatMessage", &c))) } else { s.gen_type(g, "GameEMessageId", &c) };
        s.enc_type(&mut w, "SVarUint32", &d);
        w.bits(u as u64, 5);
        s.enc_type(&mut w, "GameEMessageId", &e);
        w.align();
        let V::Enum(i, p) = &e else { unreachable!() };
        let delta = delta_of(&d);
        let kept = *i == 0 && text(s.get("GameSChatMessage", p, "m_string").bytes()).is_some();
        if kept {
            chats += 1;
            want.push(json!({"delta": delta + skipped, "user_id": u, "event": {"EChat": s.json_type("GameSChatMessage", p, KEEP)}}));
            skipped = 0;
        } else {
            others += 1;
            skipped += delta;
        }
    }
    let a = Files { header: plain_header(build), message: Some(w.bytes.clone()), ..Default::default() }.archive();
    let got = with_mpq(&a, |m| s2protocol::read_message_events("x", m, &a))?.map_err(|e| format!("{want:?}: {e:?}"))?;
    if same_json(&J::Array(want), &to_json(&got), "messages")? {
        g.known(KNOWN_NUL);
    }
    if chats == 0 || others == 0 {
        g.trivial();
    }
    g.key(&(build, &w.bytes));
    g.sample(|| format!("base build {build}: {got:?}"));
    Ok(())
}

fn c08_wire(g: &mut Gen) -> Res {
    let s = modern();
    let d = s.gen_type(g, "SVarUint32", &CFG);
    let u = g.below(32) as i64;
    let e = s.gen_type(g, "GameEMessageId", &CFG);
    let mut w = BitW::default();
    let lead = g.idx(8);
    w.bits(g.bits(lead), lead);
    let start = w.pos();
    s.enc_type(&mut w, "SVarUint32", &d);
    w.bits(u as u64, 5);
    s.enc_type(&mut w, "GameEMessageId", &e);
    w.align();
    let end = w.pos();
    let mut b = w.bytes.clone();
    b.extend(g.bytes(3));
    let (t, (gd, gu, ge)) = s2protocol::versions::protocol87702::bit_packed::GameEMessageId::parse_event_triplet((&b[start / 8..], start % 8)).map_err(|x| format!("{e:?}: {x:?}"))?;
    ensure_eq!((gd, gu), (delta_of(&d), u), "step and user");
    let want = s.debug("GameEMessageId", &e);
    if matches_debug(&want, &format!("{ge:?}"))? {
        g.known(KNOWN_NUL);
    }
    ensure_eq!(b.len() * 8 - t.0.len() * 8 + t.1, end, "position after {want}");
    g.key(&b);
    g.sample(|| format!("step {gd}, user {gu}, {want}"));
    Ok(())
}

// ---------------------------------------------------------------- C09

/// Wire name of the reported game events; the public name drops the leading E.
pub const REPORTED: [&str; 21] = [
    "EDropUser",
    "ECameraSave",
    "ECmd",
    "ESelectionDelta",
    "EControlGroupUpdate",
    "ESelectionSyncCheck",
    "ETriggerChatMessage",
    "EUnitClick",
    "EUnitHighlight",
    "ETriggerReplySelected",
    "ECameraUpdate",
    "ETriggerMouseClicked",
    "ETriggerMouseMoved",
    "ETriggerHotkeyPressed",
    "ETriggerTargetModeUpdate",
    "ETriggerKeyPressed",
    "ETriggerMouseWheel",
    "ETriggerButtonPressed",
    "ECommandManagerState",
    "ECmdUpdateTargetPoint",
    "ECmdUpdateTargetUnit",
];

/// The public form of a game event, None when it is not one of the reported ones.
pub fn game_json(s: &Schema, e: &V) -> Option<J> {
    let V::Enum(i, p) = e else { unreachable!() };
    let (_, name, ft) = &s.variants("GameEEventId")[*i];
    if !REPORTED.contains(&name.as_str()) {
        return None;
    }
    let mut j = s.json_ft(ft, p, KEEP);
    match name.as_str() {
        "EDropUser" => {
            let r = j["m_reason"].as_str().unwrap()[1..].to_string();
            j["m_reason"] = json!(r);
        }
        "ECmd" => {
            if j["m_abil"].is_object() {
                j["m_abil"]["ability"] = json!("");
            }
            null_variant(&mut j["m_data"]);
        }
        "ETriggerTargetModeUpdate" => j["ability"] = json!(""),
        "ESelectionDelta" => mask(&mut j["m_delta"]["m_remove_mask"]),
        "EControlGroupUpdate" => mask(&mut j["m_mask"]),
        "ETriggerChatMessage" => {
            if let Some(b) = j["m_chat_message"].as_array() {
                let b: Vec<u8> = b.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                j["m_chat_message"] = json!(format!("InvalidUTF8({b:?})"));
            }
        }
        _ => {}
    }
    Some(json!({ &name[1..]: j }))
}
/// `{"None": null}` is the unit variant `"None"`.
fn null_variant(j: &mut J) {
    if j.get("None").is_some() {
        *j = json!("None");
    }
}
fn mask(j: &mut J) {
    null_variant(j);
    if let Some(o) = j.as_object_mut() {
        for (_, v) in o.iter_mut() {
            *v = json!({"value": v.take()});
        }
    }
}

pub fn gen_game_event(g: &mut Gen, s: &Schema, reported: bool) -> V {
    let c = if g.bool() { TEXT } else { CFG };
    if reported {
        let n = *g.pick(&REPORTED);
        let i = s.variant("GameEEventId", n);
        V::Enum(i, Box::new(s.gen_ft(g, &s.variants("GameEEventId")[i].2, &c)))
    } else {
        s.gen_type(g, "GameEEventId", &c)
    }
}
pub fn enc_game_event(s: &Schema, w: &mut BitW, d: &V, user: i64, e: &V) {
    s.enc_type(w, "SVarUint32", d);
    w.bits(user as u64, 5);
    s.enc_type(w, "GameEEventId", e);
    w.align();
}

fn c09_stream(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = bit_schema(build);
    let n = 1 + g.idx(40);
    let mut w = BitW::default();
    let mut want = vec![];
    let mut skipped = 0i64;
    for _ in 0..n {
        let d = s.gen_type(g, "SVarUint32", &CFG);
        let u = g.below(32) as i64;
        let reported = g.chance(3, 4);
        let e = gen_game_event(g, s, reported);
        enc_game_event(s, &mut w, &d, u, &e);
        match game_json(s, &e) {
            Some(j) => {
                if n < 8 {
                    g.label(j.as_object().unwrap().keys().next().unwrap().clone());
                }
                want.push(json!({"delta": delta_of(&d) + skipped, "user_id": u, "event": j}));
                skipped = 0;
            }
            None => skipped += delta_of(&d),
        }
    }
    if want.is_empty() || want.len() == n {
        g.trivial();
    }
    let a = Files { header: plain_header(build), game: Some(w.bytes.clone()), ..Default::default() }.archive();
    let got = with_mpq(&a, |m| s2protocol::read_game_events("x", m, &a))?.map_err(|e| format!("base build {build}: {want:?}: {e:?}"))?;
    if same_json(&J::Array(want), &to_json(&got), "game events")? {
        g.known(KNOWN_NUL);
    }
    g.key(&(build, &w.bytes));
    g.sample(|| format!("base build {build}: {n} events, reported {got:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C10

/// The public form of a tracker event; None when its unit name is not text.
pub fn tracker_json(e: &V) -> Option<J> {
    let s = versioned();
    let V::Enum(i, p) = e else { unreachable!() };
    let (_, name, ft) = &s.variants(TRACKER)[*i];
    let mut j = s.json_ft(ft, p, STRIP);
    match name.as_str() {
        "EPlayerStats" => {
            let st = j["stats"].as_object().unwrap().clone();
            let mut o = serde_json::Map::new();
            for (k, v) in st {
                let k = k.strip_prefix("score_value_").unwrap_or(&k).to_string();
                let v = if k == "food_used" || k == "food_made" { json!(v.as_i64().unwrap() / 4096) } else { v };
                o.insert(k, v);
            }
            j["stats"] = J::Object(o);
        }
        "EPlayerSetup" => {
            let t = j["type"].take();
            j.as_object_mut().unwrap().remove("type");
            j["m_type"] = t;
        }
        "EUpgrade" => {
            if let Some(b) = j["upgrade_type_name"].as_array() {
                let b: Vec<u8> = b.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                j["upgrade_type_name"] = json!(format!("{b:?}"));
            }
            j["player_name"] = J::Null;
        }
        "EUnitBorn" | "EUnitInit" | "EUnitTypeChange" => {
            if !j["unit_type_name"].is_string() || j.get("creator_ability_name").is_some_and(|a| a.is_array()) {
                return None;
            }
        }
        _ => {}
    }
    Some(json!({ &name[1..]: j }))
}

fn c10_stream(g: &mut Gen) -> Res {
    let s = versioned();
    let build = gen_build(g);
    let n = 1 + g.idx(40);
    let mut b = vec![];
    let mut want = vec![];
    let mut skipped = 0u32;
    let mut kinds = std::collections::BTreeSet::new();
    for _ in 0..n {
        let d = s.gen_type(g, "SVarUint32", &CFG);
        let c = if g.chance(1, 4) { CFG } else { TEXT };
        let e = s.gen_type(g, TRACKER, &c);
        s.venc_type(g, &mut b, "SVarUint32", &d);
        s.venc_type(g, &mut b, TRACKER, &e);
        let V::Enum(i, _) = &e else { unreachable!() };
        kinds.insert(*i);
        let delta = delta_of(&d) as u32;
        match tracker_json(&e) {
            Some(j) => {
                want.push(json!({"delta": delta.wrapping_add(skipped), "event": j}));
                skipped = 0;
            }
            None => {
                g.label("invalid text");
                skipped = skipped.wrapping_add(delta);
            }
        }
    }
    if kinds.len() < 2 {
        g.trivial();
    }
    let a = Files { header: plain_header(build), tracker: Some(b.clone()), ..Default::default() }.archive();
    let got = with_mpq(&a, |m| s2protocol::read_tracker_events("x", m, &a))?.map_err(|e| format!("{want:?}: {e:?}"))?;
    same_json(&J::Array(want), &to_json(&got), "tracker events")?;
    g.key(&(build, &b));
    g.sample(|| format!("base build {build}: {got:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C27

/// Events whose layout differs between the protocols, read with the layout the base build selects.
fn c27_dispatch(g: &mut Gen) -> Res {
    let build = match g.below(4) {
        0 => *g.pick(&[75689u32, 75690, 0, 1, 75688, 75691, 80949, 81009, 83830, 84643, 86383, 87702, 88500, 89165, 89634, 89720, 90136, 90779, 90870, 91115, u32::MAX]),
        1 => 75689 - g.bits(8) as u32,
        2 => 75690 + g.bits(8) as u32,
        _ => g.bits(32) as u32,
    };
    let s = if build <= 75689 { legacy() } else { modern() };
    let mut w = BitW::default();
    let n = 1 + g.idx(4);
    let mut want = vec![];
    for _ in 0..n {
        let d = V::Enum(0, Box::new(V::Int(g.below(64) as i64)));
        let i = s.variant("GameEEventId", "ECmd");
        let e = V::Enum(i, Box::new(s.gen_type(g, "GameSCmdEvent", &TEXT)));
        enc_game_event(s, &mut w, &d, 3, &e);
        want.push(json!({"delta": delta_of(&d), "user_id": 3, "event": game_json(s, &e).unwrap()}));
    }
    // the header around the base build varies
    let h = header_value(g, build);
    let init = s.gen_type(g, "ReplaySInitData", &TEXT);
    let mut iw = BitW::default();
    s.enc_type(&mut iw, "ReplaySInitData", &init);
    let vs = versioned();
    let details = vs.gen_type(g, "GameSDetails", &TEXT);
    let mut db = vec![];
    vs.venc_type(g, &mut db, "GameSDetails", &details);
    let (tev, tb) = crate::synth::tracker_stream(g, None, 1 + (n & 1), false, 1);
    let mut mw = BitW::default();
    let chat = g.bits(7) as i64;
    let mi = s.variant("GameEMessageId", "EChat");
    let text = gen_text(g, 3);
    let mut chat_v = s.gen_ft(g, &s.variants("GameEMessageId")[mi].2, &TEXT);
    let ct = match &s.variants("GameEMessageId")[mi].2 {
        FT::T(t) => t.clone(),
        _ => return Err("harness: chat type".into()),
    };
    s.set(&ct, &mut chat_v, "m_string", V::Bytes(text.clone()));
    s.enc_type(&mut mw, "SVarUint32", &V::Enum(1, Box::new(V::Int(chat))));
    mw.bits(5, 5);
    s.enc_type(&mut mw, "GameEMessageId", &V::Enum(mi, Box::new(chat_v)));
    mw.align();
    let a = Files { header: enc_header(g, &h), game: Some(w.bytes.clone()), init: Some(iw.bytes), details: Some(db), tracker: Some(tb.clone()), message: Some(mw.bytes) }.archive();
    with_mpq(&a, |m| -> Res {
        let ctx = |what: &str| format!("base build {build}: {what}");
        let got = s2protocol::read_game_events("x", m, &a).map_err(|e| format!("{}: {want:?}: {e:?}", ctx("game events")))?;
        same_json(&J::Array(want.clone()), &to_json(&got), &ctx("game events"))?;
        let got = s2protocol::InitData::new("x", 3, m, &a).map_err(|e| format!("{}: {e:?}", ctx("lobby data")))?;
        ensure_eq!(got.version, build, "version of the lobby data");
        let iw = init_json(s, &init).ok_or("text")?;
        same_json(&iw["sync_lobby_state"], &to_json(&got.sync_lobby_state), &ctx("lobby data"))?;
        let got = s2protocol::read_details("x", m, &a).map_err(|e| format!("{}: {e:?}", ctx("details")))?;
        same_json(&details_json(&details).ok_or("text")?, &to_json(&got), &ctx("details"))?;
        let tw: Vec<J> = tev.iter().filter_map(|e| e.json.clone()).collect();
        let got = s2protocol::read_tracker_events("x", m, &a).map_err(|e| format!("{}: {e:?}", ctx("tracker events")))?;
        same_json(&J::Array(tw), &J::Array(got.iter().map(|e| to_json(&e.event)).collect()), &ctx("tracker events"))?;
        let got = s2protocol::read_message_events("x", m, &a).map_err(|e| format!("{}: {e:?}", ctx("messages")))?;
        ensure!(got.len() == 1 && got[0].delta == chat && got[0].user_id == 5, "{}: {got:?}", ctx("messages"));
        let t = to_json(&got[0]).to_string();
        ensure!(t.contains(&json!(std::str::from_utf8(&text).unwrap()).to_string()), "{}: {got:?}, text {text:?}", ctx("messages"));
        // event by event
        let mut it = s2protocol::game_events::iterator::GameEventIteratorState::from(w.bytes.clone());
        for x in &want {
            let got = it.get_next_event(build, &Default::default(), &Default::default()).ok_or_else(|| format!("{}: missing {x}", ctx("iterator")))?;
            same_json(&x["event"], &to_json(&got)["Game"]["event"], &ctx("iterator"))?;
        }
        ensure!(it.get_next_event(build, &Default::default(), &Default::default()).is_none(), "{}", ctx("more events"));
        let mut it = s2protocol::tracker_events::iterator::TrackertEventIteratorState::from(tb.clone());
        for x in tev.iter().filter_map(crate::synth::tracker_item) {
            let got = it.get_next_event(build).ok_or_else(|| format!("{}: missing {x}", ctx("tracker iterator")))?;
            same_json(&x, &to_json(&got), &ctx("tracker iterator"))?;
        }
        Ok(())
    })??;
    g.label(if build <= 75689 { "older" } else { "newer" });
    g.key(&(build, &w.bytes));
    g.sample(|| format!("base build {build}: {}", J::Array(want).to_string().chars().take(900).collect::<String>()));
    Ok(())
}
