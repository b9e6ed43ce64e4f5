//! C17: damaged input is read or refused, it never panics or hangs. C18: truncated input.
use crate::c_decode::TRACKER;
use crate::c_replay::{enc_game_event, to_json};
use crate::c_rows::rows;
use crate::engine::*;
use crate::replay::*;
use crate::schema::*;
use crate::synth::*;
use crate::{Property, ensure, ensure_eq};
use s2protocol::arrow_store::{ArrowIpcTypes, WriteArrowIpcProps};
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::details::{Details, PlayerLobbyDetails};
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::game_events::GameEventIteratorState;
use s2protocol::tracker_events::TrackertEventIteratorState;
use s2protocol::{InitData, SC2EventIterator};
use std::collections::HashMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            rule: "synthesized replays of both protocols whose parts are damaged (bits flipped, bytes replaced, inserted, removed, duplicated, cut, or the whole part random), read by every reader, iterated, filtered and turned into rows; random and damaged bytes for each decoder and for the map cache files; real replays with damaged parts; non-trivial: at least one reader still reads something and at least one part is damaged",
            assumptions: &["the container itself is intact (it is read by another crate) and the signature is that of a replay (documented to panic otherwise)", "arithmetic overflows count as panics, as in a debug build"],
            checks: vec![check("parts", c17_parts, 20_000, 20), check("decoders", c17_decoders, 300_000, 20), check("cache_files", c17_cache, 150_000, 20), check("real", c17_real, 60, 20)],
        },
        Property {
            id: "C18",
            rule: "streams of 1..20 random events cut at every kind of place (any byte, at the end of an event, one byte before or after it), and details, lobby data and headers cut anywhere; non-trivial: the cut leaves at least one whole event, or is inside of a part that is not a stream",
            assumptions: &["what the whole stream yields is judged by C08-C11"],
            checks: vec![check("tracker", c18_tracker, 60_000, 20), check("game", c18_game, 60_000, 20), check("messages", c18_messages, 60_000, 20), check("parts", c18_parts, 60_000, 20)],
        },
    ]
}

// ---------------------------------------------------------------- C17
pub fn damage(g: &mut Gen, b: &mut Vec<u8>) {
    if g.chance(1, 12) {
        let n = if g.chance(1, 8) { 400 } else { 40 };
        *b = g.bytes(n);
        return;
    }
    for _ in 0..1 + g.idx(3) {
        if b.is_empty() {
            b.push(0);
        }
        let p = g.idx(b.len());
        match g.below(9) {
            0 | 1 => b[p] ^= 1 << g.idx(8),
            2 => b[p] = *g.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 5, 9]),
            3 => b[p] = g.below(256) as u8,
            4 => b.truncate(p),
            5 => b.insert(p, g.below(256) as u8),
            6 => {
                b.remove(p);
            }
            7 => {
                let n = 1 + g.idx(6);
                let v = *g.pick(&[0, 0xff]);
                for i in p..(p + n).min(b.len()) {
                    b[i] = v;
                }
            }
            _ => {
                let q = (p + 1 + g.idx(12)).min(b.len());
                let x = b[p..q].to_vec();
                b.splice(p..p, x);
            }
        }
    }
}
fn filters(g: &mut Gen) -> SC2ReplayFilters {
    SC2ReplayFilters {
        player_id: if g.bool() { Some(g.below(20) as u8) } else { None },
        unit_tag: if g.chance(1, 4) { Some(g.bits(40) as i64) } else { None },
        min_loop: if g.chance(1, 3) { Some(g.range(-2, 100)) } else { None },
        max_loop: if g.chance(1, 3) { Some(g.range(-2, 200)) } else { None },
        event_type: if g.chance(1, 4) { Some("Cmd".into()) } else { None },
        unit_name: if g.chance(1, 3) { Some("SCV".into()) } else { None },
        max_events: if g.chance(1, 3) { Some(g.idx(10)) } else { None },
        include_stats: g.bool(),
    }
}
/// Reads whatever can be read; returns how many readers succeed.
fn read_all(g: &mut Gen, f: &Files, build: u32, file: &str, all: &Balance) -> Result<(usize, usize), String> {
    let a = f.archive();
    let path = g.dir.join(file);
    std::fs::write(&path, &a).map_err(|e| e.to_string())?;
    let mut ok = 0;
    let mut n = 0;
    let mut step = |what: &str, r: Result<bool, String>| -> Res {
        n += 1;
        ok += r.map_err(|e| format!("base build {build}: {what}: {e}"))? as usize;
        Ok(())
    };
    let (_, m) = s2protocol::parser::parse(&a).map_err(|e| format!("harness: the archive is not read: {e:?}"))?;
    step("read_protocol_header", catch(|| s2protocol::read_protocol_header(&m).is_ok()))?;
    step("read_tracker_events", catch(|| s2protocol::read_tracker_events(file, &m, &a).is_ok()))?;
    step("read_game_events", catch(|| s2protocol::read_game_events(file, &m, &a).is_ok()))?;
    step("read_message_events", catch(|| s2protocol::read_message_events(file, &m, &a).is_ok()))?;
    step("read_details", catch(|| s2protocol::read_details(file, &m, &a).is_ok()))?;
    step("read_init_data", catch(|| s2protocol::read_init_data(file, &m, &a).is_ok()))?;
    step("Details::new", catch(|| Details::new(file, 1, &m, &a).is_ok_and(|d| d.get_player_names().len() <= d.player_list.len())))?;
    // the streams themselves
    let bound = |b: &Option<Vec<u8>>| b.as_ref().map_or(0, |b| b.len() * 8 + 1);
    if let Some(b) = &f.tracker {
        let mut it = TrackertEventIteratorState::from(b.clone());
        let c = catch(|| (0..=bound(&f.tracker)).take_while(|_| it.get_next_event(build).is_some()).count()).map_err(|e| format!("base build {build}: tracker iterator: {e}"))?;
        ensure!(c <= b.len(), "base build {build}: the tracker iterator yields {c} events out of {} bytes", b.len());
        n += 1;
        ok += (c > 0) as usize;
    }
    if let Some(b) = &f.game {
        let mut it = GameEventIteratorState::from(b.clone());
        let c = catch(|| (0..=bound(&f.game)).take_while(|_| it.get_next_event(build, &HashMap::new(), &HashMap::new()).is_some()).count()).map_err(|e| format!("base build {build}: game iterator: {e}"))?;
        ensure!(c <= b.len(), "base build {build}: the game iterator yields {c} events out of {} bytes", b.len());
        n += 1;
        ok += (c > 0) as usize;
    }
    let mut step = |what: &str, r: Result<bool, String>| -> Res {
        n += 1;
        ok += r.map_err(|e| format!("base build {build}: {what}: {e}"))? as usize;
        Ok(())
    };
    let init = catch(|| InitData::try_from((path.clone(), 7)).ok()).map_err(|e| format!("base build {build}: InitData: {e}"))?;
    let Some(init) = init else { return Ok((ok, n)) };
    step("Details of InitData", catch(|| Details::try_from(&init).is_ok()))?;
    step("PlayerLobbyDetails", catch(|| Vec::<PlayerLobbyDetails>::try_from(&init).is_ok()))?;
    let limit = bound(&f.tracker) + bound(&f.game);
    let plain = catch(|| {
        SC2EventIterator::new(&init, all.clone()).map(|mut it| {
            let n = it.by_ref().take(limit + 1).count();
            (n, it.next().is_none())
        })
    });
    match plain.map_err(|e| format!("base build {build}: SC2EventIterator: {e}"))? {
        Ok((c, ended)) => {
            ensure!(c <= limit && ended, "base build {build}: the replay iterator yields {c} events");
            step("events", Ok(c > 0))?;
        }
        Err(_) => step("events", Ok(false))?,
    }
    let fl = filters(g);
    step("filtered events", catch(|| SC2EventIterator::new(&init, all.clone()).is_ok_and(|it| it.with_filters(fl.clone()).take(limit + 1).count() <= limit)))?;
    step("rows", catch(|| rows(&init, all).is_ok()))?;
    Ok((ok, n))
}
fn c17_parts(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 16, max_game: 12, stats: 1, wide: true };
    let r = replay(g, &plan, "whole.SC2Replay")?;
    let (all, _) = gen_balance(g, r.build);
    let mut f = r.files.clone();
    if g.bool() {
        // chat, which the synthesized replay lacks
        let s = bit_schema(r.build);
        f.message = Some(messages(g, s, 4).0);
    }
    let mut what = vec![];
    let only = g.idx(6);
    for k in 0..6 {
        let (n, b) = match k {
            0 => ("tracker events", &mut f.tracker),
            1 => ("game events", &mut f.game),
            2 => ("messages", &mut f.message),
            3 => ("details", &mut f.details),
            4 => ("lobby data", &mut f.init),
            _ => {
                if k == only {
                    // behind the signature
                    let p = f.header.windows(6).position(|w| w == b"\x1b11".as_slice() || w.starts_with(b"\x1b11")).map_or(f.header.len(), |p| p + 3);
                    let mut t = f.header.split_off(p);
                    damage(g, &mut t);
                    f.header.extend(t);
                    what.push("header");
                }
                continue;
            }
        };
        if let Some(b) = b
            && (k == only || g.chance(1, 8))
        {
            damage(g, b);
            what.push(n);
        }
    }
    let (ok, n) = read_all(g, &f, r.build, "damaged.SC2Replay", &all)?;
    if g.chance(1, 12) {
        // exported together with the whole one
        let d = g.dir.join("out");
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        let props = WriteArrowIpcProps { scan_max_files: 100, process_max_files: 100, traverse_max_depth: 1, min_version: None, max_version: None };
        let src = g.dir.clone();
        catch(|| ArrowIpcTypes::handle_arrow_ipc_cmd(src, d, &props, &all, true).is_ok()).map_err(|e| format!("base build {}: export: {e}", r.build))?;
        g.label("exported");
    }
    if ok == 0 || what.is_empty() {
        g.trivial();
    }
    for w in &what {
        g.label(*w);
    }
    g.key(&(f.archive(), r.build));
    g.sample(|| format!("base build {}: damaged {what:?}: {ok} of {n} readers succeed", r.build));
    Ok(())
}
/// The bytes of something that a decoder reads: which, its name, the bytes.
pub fn raw(g: &mut Gen, build: u32) -> (u64, &'static str, Vec<u8>) {
    let s = bit_schema(build);
    let v = versioned();
    let kind = g.below(5);
    let b = match kind {
        0 => {
            let mut b = vec![];
            let e = v.gen_type(g, TRACKER, &CFG);
            v.venc_type(g, &mut b, "SVarUint32", &V::Enum(0, Box::new(V::Int(1))));
            v.venc_type(g, &mut b, TRACKER, &e);
            b
        }
        1 => {
            let mut w = BitW::default();
            let e = s.gen_type(g, "GameEEventId", &CFG);
            enc_game_event(s, &mut w, &V::Enum(0, Box::new(V::Int(1))), 3, &e);
            w.bytes
        }
        2 => messages(g, s, 2).0,
        3 => {
            let mut b = vec![];
            let e = v.gen_type(g, "GameSDetails", &CFG);
            v.venc_type(g, &mut b, "GameSDetails", &e);
            b
        }
        _ => {
            let mut w = BitW::default();
            let e = s.gen_type(g, "ReplaySInitData", &CFG);
            s.enc_type(&mut w, "ReplaySInitData", &e);
            w.bytes
        }
    };
    (kind, ["tracker events", "game events", "messages", "details", "lobby data"][kind as usize], b)
}
fn c17_decoders(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let (kind, what, mut b) = raw(g, build);
    damage(g, &mut b);
    let at = g.idx(8);
    use s2protocol::versions::{protocol75689 as p7, protocol87702 as p8};
    let old = legacy_build(build);
    macro_rules! each {
        ($e:expr) => {
            catch(|| $e).map_err(|e| format!("{what} of build {build} from {}: {e}", hex(&b)))?
        };
    }
    macro_rules! stream {
        ($f:expr) => {
            each!({
                let (mut t, mut n) = ((&b[..], 0usize), 0);
                while let Ok((u, _)) = $f(t) {
                    if u.0.is_empty() || n > b.len() * 8 {
                        break;
                    }
                    t = u;
                    n += 1;
                }
                n
            })
        };
    }
    let n = match kind {
        0 => each!({
            let (mut t, mut n) = (&b[..], 0);
            loop {
                let r = if old { p7::byte_aligned::ReplayTrackerEEventId::parse_event_pair(t).map(|x| x.0) } else { p8::byte_aligned::ReplayTrackerEEventId::parse_event_pair(t).map(|x| x.0) };
                match r {
                    Ok(u) if n <= b.len() => {
                        t = u;
                        n += 1;
                    }
                    _ => break n,
                }
            }
        }),
        1 if old => stream!(p7::bit_packed::GameEEventId::parse_event_triplet),
        1 => stream!(p8::bit_packed::GameEEventId::parse_event_triplet),
        2 if old => stream!(p7::bit_packed::GameEMessageId::parse_event_triplet),
        2 => stream!(p8::bit_packed::GameEMessageId::parse_event_triplet),
        3 => each!(if old { p7::byte_aligned::GameSDetails::parse(&b).is_ok() } else { p8::byte_aligned::GameSDetails::parse(&b).is_ok() }) as usize,
        _ => each!(if old { p7::bit_packed::ReplaySInitData::parse((&b, at)).is_ok() } else { p8::bit_packed::ReplaySInitData::parse((&b, at)).is_ok() }) as usize,
    };
    ensure!(n <= b.len(), "{what} of build {build}: {n} events out of {}", hex(&b));
    if n == 0 {
        g.trivial();
    }
    g.label(what);
    g.key(&(kind, old, &b));
    g.sample(|| format!("{what} of build {build}: {n} decoded from {}", hex(&b[..b.len().min(80)])));
    Ok(())
}
fn c17_cache(g: &mut Gen) -> Res {
    use crate::c_misc::{height_file, info_file};
    let (w, h) = (1 + g.idx(5) as i32, 1 + g.idx(5) as i32);
    let mut info = info_file(g, w, h);
    let mut height = height_file(g, w + 1, h + 1);
    let mut head = crate::c_misc::header_file(g);
    let which = g.below(4);
    for (k, b) in [&mut info, &mut height, &mut head].into_iter().enumerate() {
        if which == k as u64 || which == 3 {
            damage(g, b);
        }
    }
    let ctx = || format!("map info {}, height map {}, document header {}", hex(&info), hex(&height), hex(&head));
    let m = catch(|| MapInfo::parse(&info).map(|x| x.1)).map_err(|e| format!("{}: {e}", ctx()))?;
    let mut ok = m.is_ok() as usize;
    if let Ok(m) = m {
        catch(|| (m.cell_dim_map(), m.terrain_dim_map(), m.cell_dim_playable(), m.terrain_dim_playable(), m.terrain_right_top())).map_err(|e| format!("{}: {e}", ctx()))?;
        ok += catch(|| T3HeightMap::parse(&height, &m).is_ok()).map_err(|e| format!("{}: {e}", ctx()))? as usize;
    }
    ok += catch(|| DocumentHeader::parse(&head).is_ok()).map_err(|e| format!("{}: {e}", ctx()))? as usize;
    if ok == 0 {
        g.trivial();
    }
    g.label(["map info", "height map", "document header", "all"][which as usize]);
    g.key(&(&info, &height, &head));
    g.sample(|| format!("{ok} of 3 files are read"));
    Ok(())
}
fn c17_real(g: &mut Gen) -> Res {
    let reps = crate::c_iter::real_replays()?;
    let b = &std::fs::read(g.pick(&reps)).map_err(|e| e.to_string())?;
    let (_, m) = s2protocol::parser::parse(b).map_err(|e| format!("{e:?}"))?;
    let (_, h) = s2protocol::read_protocol_header(&m).map_err(|e| format!("{e:?}"))?;
    let build = h.m_version.m_base_build;
    let sector = |n: &str| m.read_mpq_file_sector(n, false, b).ok().map(|x| x.1);
    let mut f = Files {
        header: plain_header(build),
        tracker: sector("replay.tracker.events"),
        game: sector("replay.game.events"),
        message: sector("replay.message.events"),
        details: sector("replay.details"),
        init: sector("replay.initData"),
    };
    // the beginning of the long streams
    for x in [&mut f.tracker, &mut f.game].into_iter().flatten() {
        x.truncate(6000);
    }
    let k = g.below(4);
    if let Some(x) = match k {
        0 => &mut f.tracker,
        1 => &mut f.game,
        2 => &mut f.details,
        _ => &mut f.init,
    } {
        for _ in 0..1 + g.idx(4) {
            damage(g, x);
        }
    }
    let (ok, n) = read_all(g, &f, build, "real.SC2Replay", &HashMap::new())?;
    if ok == 0 {
        g.trivial();
    }
    g.key(&f.archive());
    g.sample(|| format!("part {k} of a replay of build {build} is damaged, {ok} of {n} readers succeed"));
    Ok(())
}

// ---------------------------------------------------------------- C18
/// A message sector, and where each message ends and whether it is chat.
pub fn messages(g: &mut Gen, s: &Schema, max: usize) -> (Vec<u8>, Vec<(usize, bool)>) {
    let (mut w, mut ends) = (BitW::default(), vec![]);
    for _ in 0..1 + g.idx(max) {
        let d = s.gen_type(g, "SVarUint32", &CFG);
        let u = g.below(32);
        let e = if g.bool() { V::Enum(0, Box::new(s.gen_type(g, "GameSChatMessage", &TEXT))) } else { s.gen_type(g, "GameEMessageId", &TEXT) };
        s.enc_type(&mut w, "SVarUint32", &d);
        w.bits(u, 5);
        s.enc_type(&mut w, "GameEMessageId", &e);
        w.align();
        let V::Enum(i, p) = &e else { unreachable!() };
        let kept = *i == 0 && text(s.get("GameSChatMessage", p, "m_string").bytes()).is_some();
        ends.push((w.bytes.len(), kept));
    }
    (w.bytes, ends)
}
/// A place to cut a stream of events that end at `ends`.
fn cut(g: &mut Gen, ends: &[usize]) -> usize {
    let all = *ends.last().unwrap();
    let e = *g.pick(ends);
    match g.below(4) {
        0 => g.idx(all + 1),
        1 => e,
        2 => e - 1,
        _ => (e + 1).min(all),
    }
}
fn note(g: &mut Gen, what: &str, cut: usize, ends: &[usize]) {
    let whole = ends.iter().filter(|e| **e <= cut).count();
    if whole == 0 {
        g.trivial();
    }
    g.label(if cut == 0 {
        "empty"
    } else if ends.contains(&cut) {
        "between events"
    } else {
        "inside of an event"
    });
    g.sample(|| format!("{what}: {} events, {} bytes cut at {cut}, {whole} are whole", ends.len(), ends.last().unwrap()));
}
fn c18_tracker(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let n = 1 + g.idx(20);
    let (mut evs, mut b) = tracker_stream(g, None, n, true, 1);
    let mut inner = None;
    if g.chance(1, 4) {
        // the last event has a name that holds what looks like more events, and is cut behind them
        let s = versioned();
        let k = 1 + g.idx(2);
        let (_, more) = tracker_stream(g, None, k, false, 1);
        let i = s.variant(TRACKER, *g.pick(&["EUnitBorn", "EUpgrade", "EUnitTypeChange", "EUnitInit"]));
        let (_, name, ft) = &s.variants(TRACKER)[i];
        let (t, f) = match name.as_str() {
            "EUnitBorn" => ("ReplayTrackerSUnitBornEvent", "m_unit_type_name"),
            "EUpgrade" => ("ReplayTrackerSUpgradeEvent", "m_upgrade_type_name"),
            "EUnitTypeChange" => ("ReplayTrackerSUnitTypeChangeEvent", "m_unit_type_name"),
            _ => ("ReplayTrackerSUnitInitEvent", "m_unit_type_name"),
        };
        let mut p = s.gen_ft(g, ft, &TEXT);
        s.set(t, &mut p, f, V::Bytes(more.clone()));
        let d = step(g, false);
        let start = b.len();
        s.venc_type(g, &mut b, "SVarUint32", &d);
        s.venc_type(g, &mut b, TRACKER, &V::Enum(i, Box::new(p)));
        inner = b[start..].windows(more.len()).position(|w| w == more).map(|at| start + at + more.len());
        evs.push(TrackerEv { end: b.len(), at: 0, wire: V::Null, json: None });
        g.label("what looks like events inside of the cut event");
    }
    let ends: Vec<usize> = evs.iter().map(|e| e.end).collect();
    let cut = match inner {
        Some(i) => (i + g.idx((b.len() - i).max(1))).min(b.len() - 1),
        None => cut(g, &ends),
    };
    let keep = evs.iter().filter(|e| e.end <= cut && e.json.is_some()).count();
    let read = |b: &[u8]| {
        let mut it = TrackertEventIteratorState::from(b.to_vec());
        let mut v = vec![];
        while let Some(e) = it.get_next_event(build) {
            v.push(to_json(&e));
        }
        (v, it.get_next_event(build).is_none())
    };
    let (whole, _) = read(&b);
    let (got, ended) = read(&b[..cut]);
    let ctx = format!("base build {build}: {n} tracker events of {} bytes that end at {ends:?}, cut at {cut}", b.len());
    ensure!(ended, "{ctx}: the iterator goes on after its end");
    ensure!(got.len() == keep, "{ctx}: {} events instead of {keep}: {got:?}", got.len());
    ensure!(got[..] == whole[..keep], "{ctx}: {got:?}, expected the first {keep} of {whole:?}");
    if cut > 0 {
        let f = |x: &[u8]| Files { header: plain_header(build), tracker: Some(x.to_vec()), ..Default::default() }.archive();
        let (a, c) = (f(&b), f(&b[..cut]));
        let all = with_mpq(&a, |m| s2protocol::read_tracker_events("x", m, &a))?.map_err(|e| format!("{ctx}: {e:?}"))?;
        let r = with_mpq(&c, |m| s2protocol::read_tracker_events("x", m, &c))?;
        at_once(&ctx, ends.contains(&cut), keep, &to_json(&all), r.map(|r| to_json(&r)).map_err(|e| format!("{e:?}")))?;
    }
    note(g, "tracker", cut, &ends);
    g.key(&(build, &b, cut));
    Ok(())
}
fn c18_game(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = bit_schema(build);
    let n = 1 + g.idx(20);
    let (mut evs, mut b) = game_stream(g, s, None, n, true);
    let mut inner = None;
    if g.chance(1, 4) {
        // the last event is a text that holds what looks like more events, and is cut behind them
        let k = 1 + g.idx(2);
        let (_, mut more) = game_stream(g, s, None, k, false);
        more.truncate(2000);
        let i = s.variant("GameEEventId", "ETriggerChatMessage");
        let p = V::Struct(vec![V::Bytes(more.clone())]);
        let d = step(g, false);
        let (start, mut w, user) = (b.len(), BitW::default(), g.below(32));
        enc_game_event(s, &mut w, &d, user as i64, &V::Enum(i, Box::new(p)));
        b.extend(w.bytes);
        inner = b[start..].windows(more.len()).position(|w| w == more).map(|at| start + at + more.len() - 1);
        evs.push(GameEv { end: b.len(), at: 0, user: 0, wire: V::Null, json: None });
        g.label("what looks like events inside of the cut event");
    }
    let ends: Vec<usize> = evs.iter().map(|e| e.end).collect();
    let cut = match inner {
        // the text is the last of the event: it lacks a byte of it
        Some(i) => i,
        None => cut(g, &ends),
    };
    let keep = evs.iter().filter(|e| e.end <= cut && e.json.is_some()).count();
    let (nobody, none) = (HashMap::new(), HashMap::new());
    let read = |b: &[u8]| {
        let mut it = GameEventIteratorState::from(b.to_vec());
        let mut v = vec![];
        while let Some(e) = it.get_next_event(build, &nobody, &none) {
            v.push(to_json(&e));
        }
        (v, it.get_next_event(build, &nobody, &none).is_none())
    };
    let (whole, _) = read(&b);
    let (got, ended) = read(&b[..cut]);
    let ctx = format!("base build {build}: {n} game events of {} bytes that end at {ends:?}, cut at {cut}", b.len());
    ensure!(ended, "{ctx}: the iterator goes on after its end");
    ensure!(got.len() == keep, "{ctx}: {} events instead of {keep}: {got:?}", got.len());
    ensure!(got[..] == whole[..keep], "{ctx}: {got:?}, expected the first {keep} of {whole:?}");
    if cut > 0 {
        let f = |x: &[u8]| Files { header: plain_header(build), game: Some(x.to_vec()), ..Default::default() }.archive();
        let (a, c) = (f(&b), f(&b[..cut]));
        let all = with_mpq(&a, |m| s2protocol::read_game_events("x", m, &a))?.map_err(|e| format!("{ctx}: {e:?}"))?;
        let r = with_mpq(&c, |m| s2protocol::read_game_events("x", m, &c))?;
        at_once(&ctx, ends.contains(&cut), keep, &to_json(&all), r.map(|r| to_json(&r)).map_err(|e| format!("{e:?}")))?;
    }
    note(g, "game", cut, &ends);
    g.key(&(build, &b, cut));
    Ok(())
}
fn c18_messages(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = bit_schema(build);
    let (b, evs) = messages(g, s, 12);
    let ends: Vec<usize> = evs.iter().map(|e| e.0).collect();
    let cut = cut(g, &ends).max(1);
    let keep = evs.iter().filter(|e| e.0 <= cut && e.1).count();
    let f = |x: &[u8]| Files { header: plain_header(build), message: Some(x.to_vec()), ..Default::default() }.archive();
    let (a, c) = (f(&b), f(&b[..cut]));
    let ctx = format!("base build {build}: messages that end at {ends:?}, cut at {cut}");
    let all = with_mpq(&a, |m| s2protocol::read_message_events("x", m, &a))?.map_err(|e| format!("{ctx}: {e:?}"))?;
    let r = with_mpq(&c, |m| s2protocol::read_message_events("x", m, &c))?;
    at_once(&ctx, ends.contains(&cut), keep, &to_json(&all), r.map(|r| to_json(&r)).map_err(|e| format!("{e:?}")))?;
    note(g, "messages", cut, &ends);
    g.key(&(build, &b, cut));
    Ok(())
}
/// Reading a cut stream at once.
fn at_once(ctx: &str, between: bool, keep: usize, all: &serde_json::Value, r: Result<serde_json::Value, String>) -> Res {
    match r {
        Ok(j) => {
            let (j, all) = (j.as_array().unwrap(), all.as_array().unwrap());
            ensure!(j.len() == keep && j[..] == all[..keep], "{ctx}: read at once as {j:?}, expected the first {keep} of {all:?}");
        }
        Err(e) => ensure!(!between, "{ctx}: the whole events are refused: {e}"),
    }
    Ok(())
}
fn c18_parts(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let s = bit_schema(build);
    let users = g.idx(3) as i64;
    let tidy = g.bool();
    let cast = gen_cast(g, s, users, tidy);
    let mut f = Files { header: plain_header(build), ..Default::default() };
    cast.write(g, s, &mut f);
    let k = g.below(3);
    let what = ["details", "lobby data", "header"][k as usize];
    let b = match k {
        0 => f.details.as_mut().unwrap(),
        1 => f.init.as_mut().unwrap(),
        _ => &mut f.header,
    };
    let n = b.len();
    let lo = if k == 2 { 0 } else { 1 };
    let cut = if g.chance(1, 4) { n - 1 } else { (lo + g.idx(n)).min(n - 1) };
    b.truncate(cut);
    let a = f.archive();
    let ctx = format!("base build {build}: {what} of {n} bytes cut at {cut}");
    let ok = with_mpq(&a, |m| {
        catch(|| match k {
            0 => s2protocol::read_details("x", m, &a).map(|d| format!("{d:?}")).ok(),
            1 => s2protocol::read_init_data("x", m, &a).map(|d| format!("{d:?}")).ok(),
            _ => s2protocol::read_protocol_header(m).map(|d| format!("{:?}", d.1)).ok(),
        })
    })?
    .map_err(|e| format!("{ctx}: {e}"))?;
    ensure!(ok.is_none(), "{ctx}: read as {ok:?}");
    // the other parts are still there
    if k != 2 {
        let r = with_mpq(&a, |m| if k == 0 { s2protocol::read_init_data("x", m, &a).is_ok() } else { s2protocol::read_details("x", m, &a).is_ok() })?;
        ensure_eq!(r, true, "{ctx}: the other part is read");
    }
    g.label(what);
    g.key(&(build, a, cut));
    g.sample(|| ctx);
    Ok(())
}
