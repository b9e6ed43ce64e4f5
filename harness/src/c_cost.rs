//! C32: the memory and the work that reading takes follow what is read.
use crate::c_log::{READERS, read_part};
use crate::c_decode::TRACKER;
use crate::c_misc::{header_file, height_file, info_file};
use crate::c_replay::to_json;
use crate::c_robust::{damage, messages, raw};
use crate::engine::*;
use crate::replay::*;
use crate::schema::*;
use crate::synth::*;
use crate::{Property, ensure};
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::{InitData, SC2EventIterator};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C32",
        rule: "bytes allocated by the reading thread are counted. Peak: damaged bytes for the decoders, replays whose parts are damaged or declare enormous lengths, map cache files, with a limit of 4 MB and 2 KB for each byte read. Growth: a stream of events repeated 6 and 48 times, read at once, event by event, through the replay iterator and into rows: at most three times the growth of the stream. Events that concern no unit, with few and with many units registered, also behind a short and behind a long beginning of the stream and with few and many unit definitions: no more than twice the work; non-trivial: at least 200 bytes, or at least eight events, are read",
        assumptions: &["the bytes that are allocated follow the work that is done; work that allocates nothing is not seen"],
        checks: vec![check("peak", c32_peak, 60_000, 15), check("declared", c32_declared, 30_000, 15), check("replays", c32_replays, 6_000, 15), check("cache_files", c32_cache, 30_000, 15), check("growth", c32_growth, 1_600, 15), check("bystanders", c32_bystanders, 800, 15), check("far_on", c32_far_on, 800, 15)],
    }]
}

/// Counts what the current thread allocates.
pub struct Counting;
thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn grown(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n as u64)));
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n as i64);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
fn shrunk(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grown(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grown(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrunk(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        shrunk(l.size());
        grown(n);
        unsafe { System.realloc(p, l, n) }
    }
}
/// What `f` allocates in all, and at most at a time. None if it panics, which is judged by C17.
fn cost<T>(f: impl FnOnce() -> T) -> Option<(T, u64, u64)> {
    let (t, l) = (TOTAL.with(|t| t.get()), LIVE.with(|l| l.get()));
    PEAK.with(|p| p.set(l));
    let r = catch(f).ok()?;
    Some((r, TOTAL.with(|x| x.get()) - t, (PEAK.with(|p| p.get()) - l).max(0) as u64))
}
/// The most that reading `n` bytes may hold at a time.
fn limit(n: usize) -> u64 {
    (4 << 20) + 2048 * n as u64
}
fn in_limit(what: &str, n: usize, peak: u64) -> Res {
    ensure!(peak <= limit(n), "{what}: reading {n} bytes takes {peak} bytes of memory at a time");
    Ok(())
}
fn decode(kind: u64, old: bool, b: &[u8], at: usize) -> usize {
    use s2protocol::versions::{protocol75689 as p7, protocol87702 as p8};
    macro_rules! stream {
        ($f:expr) => {{
            let (mut t, mut v) = ((b, 0usize), vec![]);
            while let Ok((u, e)) = $f(t) {
                v.push(e);
                if u.0.is_empty() || v.len() > b.len() {
                    break;
                }
                t = u;
            }
            v.len()
        }};
    }
    macro_rules! pairs {
        ($f:expr) => {{
            let (mut t, mut v) = (b, vec![]);
            while let Ok((u, e)) = $f(t) {
                v.push(e);
                if u.is_empty() || v.len() > b.len() {
                    break;
                }
                t = u;
            }
            v.len()
        }};
    }
    match kind {
        0 if old => pairs!(p7::byte_aligned::ReplayTrackerEEventId::parse_event_pair),
        0 => pairs!(p8::byte_aligned::ReplayTrackerEEventId::parse_event_pair),
        1 if old => stream!(p7::bit_packed::GameEEventId::parse_event_triplet),
        1 => stream!(p8::bit_packed::GameEEventId::parse_event_triplet),
        2 if old => stream!(p7::bit_packed::GameEMessageId::parse_event_triplet),
        2 => stream!(p8::bit_packed::GameEMessageId::parse_event_triplet),
        3 if old => p7::byte_aligned::GameSDetails::parse(b).is_ok() as usize,
        3 => p8::byte_aligned::GameSDetails::parse(b).is_ok() as usize,
        _ if old => p7::bit_packed::ReplaySInitData::parse((b, at)).is_ok() as usize,
        _ => p8::bit_packed::ReplaySInitData::parse((b, at)).is_ok() as usize,
    }
}
fn c32_peak(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let (kind, what, mut b) = raw(g, build);
    if g.chance(3, 4) {
        damage(g, &mut b);
    }
    let (old, at) = (legacy_build(build), g.idx(8));
    let Some((_, _, peak)) = cost(|| decode(kind, old, &b, at)) else {
        g.label("panics");
        g.trivial();
        return Ok(());
    };
    in_limit(&format!("{what} of build {build} from {}", hex(&b[..b.len().min(600)])), b.len(), peak)?;
    if b.len() < 200 {
        g.trivial();
    }
    g.label(what);
    g.key(&(kind, old, &b));
    g.sample(|| format!("{what} of build {build}: {} bytes, at most {peak} at a time", b.len()));
    Ok(())
}
/// Lists and texts that declare more than there is.
fn c32_declared(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let v = versioned();
    let kind = *g.pick(&[0u64, 3, 3]);
    let mut b = vec![];
    let c = if g.bool() { CFG } else { TEXT };
    let t = if kind == 0 { TRACKER } else { "GameSDetails" };
    let mut e = v.gen_type(g, t, &c);
    if kind == 3 {
        // most of what has a length is behind the players
        if g.bool() {
            v.set(t, &mut e, "m_player_list", V::Opt(None));
        }
    } else {
        v.venc_type(g, &mut b, "SVarUint32", &V::Enum(0, Box::new(V::Int(1))));
        let i = v.variant(TRACKER, "EUnitPosition");
        if g.bool() {
            e = V::Enum(i, Box::new(v.gen_ft(g, &v.variants(TRACKER)[i].2, &c)));
        }
    }
    v.venc_type(g, &mut b, t, &e);
    // a tag of what has a length, and behind it another length
    let n = 1u64 << (16 + g.idx(24)) | g.bits(16);
    let mut len = vec![];
    let mut m = n << 1;
    while m > 0x7f {
        len.push(m as u8 | 0x80);
        m >>= 7;
    }
    len.push(m as u8);
    let places: Vec<usize> = (0..b.len().saturating_sub(1)).filter(|p| b[*p] <= 2).collect();
    if places.is_empty() {
        g.trivial();
        return Ok(());
    }
    let p = *g.pick(&places) + 1;
    let end = (p..b.len()).find(|i| b[*i] < 0x80).unwrap_or(b.len() - 1) + 1;
    b.splice(p..end, len);
    let old = legacy_build(build);
    let Some((ok, _, peak)) = cost(|| decode(kind, old, &b, 0)) else {
        g.label("panics");
        g.trivial();
        return Ok(());
    };
    in_limit(&format!("{t} of build {build} that declares {n} of something at byte {p}, from {}", hex(&b[..b.len().min(600)])), b.len(), peak)?;
    g.label(if ok > 0 { "read" } else { "refused" });
    if b.len() < 50 {
        g.trivial();
    }
    g.key(&(kind, old, &b));
    g.sample(|| format!("{t} of build {build}, {n} declared at byte {p} of {}: at most {peak} at a time", b.len()));
    Ok(())
}
fn c32_replays(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 10, max_game: 10, stats: 1, wide: true };
    let r = replay(g, &plan, "whole.SC2Replay")?;
    let mut f = r.files.clone();
    f.message = Some(messages(g, bit_schema(r.build), 4).0);
    for b in [&mut f.tracker, &mut f.game, &mut f.message, &mut f.details, &mut f.init].into_iter().flatten() {
        if g.chance(2, 5) {
            damage(g, b);
        }
    }
    let a = f.archive();
    let path = g.dir.join("cost.SC2Replay");
    std::fs::write(&path, &a).map_err(|e| e.to_string())?;
    let (_, m) = s2protocol::parser::parse(&a).map_err(|e| format!("harness: the archive is not read: {e:?}"))?;
    let mut most = 0;
    for w in READERS {
        // the lobby data is part of every item of these
        let n = a.len() * if ["items", "rows"].contains(&w) { 8 } else { 1 };
        if let Some((_, _, peak)) = cost(|| read_part(w, &path, 7, &m, &a, &Balance::new()).is_ok()) {
            in_limit(&format!("base build {}: {w}", r.build), n, peak)?;
            most = most.max(peak);
        }
    }
    if a.len() < 200 {
        g.trivial();
    }
    g.key(&a);
    g.sample(|| format!("base build {}: {} bytes, at most {most} at a time", r.build, a.len()));
    Ok(())
}
fn c32_cache(g: &mut Gen) -> Res {
    let (w, h) = (1 + g.idx(5) as i32, 1 + g.idx(5) as i32);
    let mut info = info_file(g, w, h);
    let mut height = height_file(g, w + 1, h + 1);
    let mut head = header_file(g);
    for b in [&mut info, &mut height, &mut head] {
        if g.chance(2, 3) {
            damage(g, b);
        }
    }
    let mut n = 0;
    if let Some((m, _, peak)) = cost(|| MapInfo::parse(&info).ok().map(|x| x.1)) {
        in_limit(&format!("map info {}", hex(&info)), info.len(), peak)?;
        if let Some(m) = m
            && let Some((_, _, peak)) = cost(|| T3HeightMap::parse(&height, &m).is_ok())
        {
            in_limit(&format!("height map {} of a map of {} x {}", hex(&height), m.cell_width, m.cell_height), height.len(), peak)?;
            n += 1;
        }
    }
    if let Some((_, _, peak)) = cost(|| DocumentHeader::parse(&head).is_ok()) {
        in_limit(&format!("document header {}", hex(&head[..head.len().min(600)])), head.len(), peak)?;
        n += 1;
    }
    if n < 2 {
        g.trivial();
    }
    g.key(&(&info, &height, &head));
    g.sample(|| format!("{} + {} + {} bytes", info.len(), height.len(), head.len()));
    Ok(())
}
const WAYS: [&str; 5] = ["tracker events", "game events", "messages", "items", "rows"];
/// What the ways of reading the streams allocate.
fn ways(g: &mut Gen, r: &Replay, f: &Files, all: &Balance) -> Result<Vec<Option<u64>>, String> {
    let a = f.archive();
    let path = g.dir.join("cost.SC2Replay");
    std::fs::write(&path, &a).map_err(|e| e.to_string())?;
    let (_, m) = s2protocol::parser::parse(&a).map_err(|e| format!("harness: the archive is not read: {e:?}"))?;
    let init = InitData::try_from((path.clone(), r.id)).map_err(|e| format!("{e:?}"))?;
    Ok(WAYS
        .iter()
        .map(|w| match *w {
            "items" => {
                let mut it = SC2EventIterator::new(&init, all.clone()).ok()?;
                cost(|| it.by_ref().for_each(drop)).map(|c| c.1)
            }
            "rows" => {
                let it = SC2EventIterator::new(&init, all.clone()).ok()?;
                let c = cost(|| it.collect_into_player_stats_flat_rows().len() + 1).map(|c| c.1)?;
                let it = SC2EventIterator::new(&init, all.clone()).ok()?;
                cost(|| it.collect_into_game_cmd_target_points_flat_rows().len()).map(|d| c + d.1)
            }
            w => cost(|| read_part(w, &path, 7, &m, &a, all).is_ok()).map(|c| c.1),
        })
        .collect())
}
fn c32_growth(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 12, max_game: 10, stats: 1, wide: false };
    let r = replay(g, &plan, "whole.SC2Replay")?;
    let (all, _) = gen_balance(g, r.build);
    let mut f = r.files.clone();
    f.message = Some(messages(g, bit_schema(r.build), 4).0);
    let times = |n: usize| {
        let mut x = f.clone();
        for b in [&mut x.tracker, &mut x.game, &mut x.message].into_iter().flatten() {
            *b = b.repeat(n);
        }
        x
    };
    let (few, many) = (ways(g, &r, &times(6), &all)?, ways(g, &r, &times(48), &all)?);
    let n = r.tracker.len() + r.game.len();
    for (k, w) in WAYS.iter().enumerate() {
        if let (Some(a), Some(b)) = (few[k], many[k]) {
            ensure!(b <= 24 * a + (1 << 20), "base build {}: {w}: reading {} tracker and {} game events takes allocations of {a} bytes if they come 6 times, of {b} bytes if they come 48 times", r.build, r.tracker.len(), r.game.len());
        }
    }
    if n < 8 {
        g.trivial();
    }
    g.key(&(r.bytes, 1));
    g.sample(|| format!("base build {}: {n} events, {few:?}, eight times as many: {many:?}", r.build));
    Ok(())
}
/// Events that concern no unit do not depend on how many there are.
fn c32_bystanders(g: &mut Gen) -> Res {
    use s2protocol::state::{SC2EventType, SC2ReplayState, SC2UserState};
    use s2protocol::tracker_events::*;
    let (few, many) = (4 + g.idx(4), 300 + g.idx(300));
    let (mut st, evs) = crate::c_state::events(g, 60);
    let u = SC2UserState::new(Default::default());
    st.user_state.entry(0).or_insert(u);
    st.units.clear();
    let quiet: Vec<&SC2EventType> = evs
        .iter()
        .filter(|e| {
            let SC2EventType::Tracker { event, .. } = e else {
                // no unit is selected that could take a command
                return matches!(e, SC2EventType::Game { event, .. } if !matches!(to_json(event).as_object().and_then(|o| o.keys().next().cloned()).as_deref(), Some("SelectionDelta" | "ControlGroupUpdate")));
            };
            matches!(event, ReplayTrackerEvent::Upgrade(_) | ReplayTrackerEvent::PlayerSetup(_) | ReplayTrackerEvent::PlayerStats(_))
        })
        .collect();
    let run = |n: usize| {
        let mut s: SC2ReplayState = st.clone();
        for i in 0..n as u32 {
            let e = UnitBornEvent { unit_tag_index: i + 1, unit_tag_recycle: 1, unit_type_name: "SCV".into(), control_player_id: 1, upkeep_player_id: 1, x: 1, y: 2, creator_unit_tag_index: None, creator_unit_tag_recycle: None, creator_ability_name: None };
            s.handle_transition_to_next_event(SC2EventType::Tracker { tracker_loop: 0, event: ReplayTrackerEvent::UnitBorn(e) });
        }
        cost(|| {
            for e in &quiet {
                s.handle_transition_to_next_event((*e).clone());
            }
        })
        .map(|c| c.1)
    };
    let (Some(a), Some(b)) = (run(few), run(many)) else {
        g.trivial();
        return Ok(());
    };
    ensure!(b <= 2 * a + (16 << 10), "{} events that concern no unit: allocations of {a} bytes with {few} units, of {b} bytes with {many} units", quiet.len());
    if quiet.len() < 8 {
        g.trivial();
    }
    g.key(&format!("{quiet:?}"));
    g.sample(|| format!("{} events: {a} bytes with {few} units, {b} with {many}", quiet.len()));
    Ok(())
}

/// Nor on what came before them, nor on how many unit definitions there are.
fn c32_far_on(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 2, max_game: 2, stats: 0, wide: false };
    let r = replay(g, &plan, "whole.SC2Replay")?;
    let v = versioned();
    let event = |g: &mut Gen, b: &mut Vec<u8>, k: &str, tag: Option<i64>| {
        let i = v.variant(TRACKER, k);
        let mut p = v.gen_ft(g, &v.variants(TRACKER)[i].2, &TEXT);
        if let Some(tag) = tag {
            v.set("ReplayTrackerSUnitBornEvent", &mut p, "m_unit_tag_index", V::Int(tag));
            v.set("ReplayTrackerSUnitBornEvent", &mut p, "m_unit_type_name", V::Bytes(b"SCV".to_vec()));
        }
        v.venc_type(g, b, "SVarUint32", &V::Enum(0, Box::new(V::Int(1))));
        v.venc_type(g, b, TRACKER, &V::Enum(i, Box::new(p)));
    };
    let (few, many) = (4 + g.idx(4), 200 + g.idx(200));
    let mut tail = vec![];
    let n = 8 + g.idx(30);
    let kind = *g.pick(&["EUpgrade", "EPlayerSetup", "EUpgrade", "EPlayerStats"]);
    for _ in 0..n {
        event(g, &mut tail, kind, None);
    }
    let (small, _) = gen_balance(g, r.build);
    let mut large = small.clone();
    if let Some(d) = small.values().next() {
        for k in 0..300 {
            large.insert((r.build, format!("Unit{k}")), d.clone());
        }
    }
    let mut run = |k: usize, all: &Balance| -> Result<Option<(usize, u64)>, String> {
        let mut b = vec![];
        for i in 0..k {
            event(g, &mut b, "EUnitBorn", Some(i as i64));
        }
        b.extend(&tail);
        let mut f = r.files.clone();
        f.tracker = Some(b);
        f.game = Some(vec![]);
        let path = g.dir.join("far.SC2Replay");
        std::fs::write(&path, f.archive()).map_err(|e| e.to_string())?;
        let init = InitData::try_from((path.clone(), r.id)).map_err(|e| format!("{e:?}"))?;
        let Ok(mut it) = SC2EventIterator::new(&init, all.clone()) else { return Ok(None) };
        for _ in 0..k {
            if catch(|| it.next().is_some()) != Ok(true) {
                return Ok(None);
            }
        }
        Ok(cost(|| it.by_ref().count()).map(|c| (c.0, c.1)))
    };
    let (Some(a), Some(b)) = (run(few, &small)?, run(many, &large)?) else {
        g.trivial();
        return Ok(());
    };
    if a.0 < n || b.0 < n {
        g.trivial();
    } else {
        ensure!(b.1 <= 2 * a.1 + (16 << 10), "base build {}: iterating over {n} events ({kind}) takes allocations of {} bytes behind {few} births, of {} bytes behind {many} births and with 300 more unit definitions", r.build, a.1, b.1);
    }
    g.label(kind);
    g.key(&(tail, few, many));
    g.sample(|| format!("{n} events ({kind}): {} bytes behind {few} births, {} behind {many}", a.1, b.1));
    Ok(())
}
