//! C28: logging does not change what is reported. C29: what is reported survives being saved.
//! C31: what is reported depends on what is read alone.
use crate::c_iter::{item_json, real_replays, state_json};
use crate::c_misc::{header_file, height_file, info_file};
use crate::c_replay::to_json;
use crate::c_robust::{damage, messages, raw};
use crate::c_rows::rows;
use crate::engine::*;
use crate::replay::*;
use crate::synth::*;
use crate::{Property, ensure, ensure_eq};
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::details::{Details, PlayerLobbyDetails};
use s2protocol::state::{SC2EventIteratorItem, SC2ReplayState};
use s2protocol::{InitData, SC2EventIterator};
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Write as _};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;
use tracing::field::{Field, Visit};
use tracing::level_filters::LevelFilter;
use tracing::span;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C28",
            rule: "everything is read twice, with nobody listening to the library's log and with a listener that formats every field of every message at level error, warn or info (the library is built without the more detailed ones: its dependency nom-mpq disables them): synthesized replays of both protocols, whole or with damaged parts (every reader, the replay iterator, rows), damaged bytes for the decoders, map cache files, beginnings of recorded replays; non-trivial: the listener received something and something was read",
            assumptions: &["what is read without a listener is judged by the other properties"],
            checks: vec![check("replays", c28_replays, 8_000, 15), check("decoders", c28_decoders, 80_000, 15), check("cache_files", c28_cache, 40_000, 15), check("real", c28_real, 16, 10)],
        },
        Property {
            id: "C29",
            rule: "synthesized replays of both protocols: header-dependent parts (lobby data, details, players, messages, tracker and game events), the items of the replay iterator and its state are written as JSON and read back; non-trivial: at least five kinds of events",
            assumptions: &["Debug output shows every field"],
            checks: vec![check("parts", c29_parts, 8_000, 20), check("histories", c29_histories, 8_000, 20)],
        },
        Property {
            id: "C31",
            rule: "two to four synthesized replays, unrelated or sharing all but some of their parts (also those of another base build, or with as many bytes), and map cache files are read in one process: in any order, by any of the readers, repeatedly, from one path that is overwritten or from many, with iterators that are abandoned or advanced in turns, by several threads at once, under a random time zone, language, working directory and number of workers; a process of its own for each of them, that does nothing else, is the reference; non-trivial: at least two different replays of which at least four readers succeed, and at least three steps",
            assumptions: &["what a process of its own reads is judged by the other properties"],
            checks: vec![check("histories", c31, 1_600, 20)],
        },
    ]
}

// ---------------------------------------------------------------- C28
/// Listens to everything up to a level, and formats it.
struct Listener {
    level: LevelFilter,
}
thread_local!(static HEARD: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
fn hear() -> u64 {
    HEARD.with(|h| {
        h.set(h.get() + 1);
        h.get()
    })
}
struct Text(String);
impl Visit for Text {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        write!(self.0, "{}={v:?}", f.name()).unwrap();
    }
}
impl tracing::Subscriber for Listener {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("s2protocol") && *m.level() <= self.level
    }
    fn register_callsite(&self, m: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        if m.target().starts_with("s2protocol") { tracing::subscriber::Interest::sometimes() } else { tracing::subscriber::Interest::never() }
    }
    fn max_level_hint(&self) -> Option<LevelFilter> {
        Some(LevelFilter::TRACE)
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let mut t = Text(String::new());
        a.record(&mut t);
        span::Id::from_u64(hear())
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Text(String::new()));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        hear();
        e.record(&mut Text(String::new()));
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
/// What `f` reports must not depend on a listener. Returns what it reports.
fn both<T>(g: &mut Gen, what: &str, show: impl Fn(T) -> String, f: impl Fn() -> Option<T>) -> Result<bool, String> {
    static L: OnceLock<Vec<tracing::Dispatch>> = OnceLock::new();
    let ls = L.get_or_init(|| [LevelFilter::ERROR, LevelFilter::WARN, LevelFilter::INFO].map(|level| tracing::Dispatch::new(Listener { level })).into());
    // panics are judged by C17
    let Ok(a) = catch(|| f().map(&show)) else {
        g.label("panics without a listener");
        return Ok(false);
    };
    let k = if g.idx(4) > 0 { 2 } else { g.idx(3) };
    let b = catch(|| tracing::dispatcher::with_default(&ls[k], || f().map(&show))).map_err(|e| format!("{what}: read without a listener to the log, with one: {e}"))?;
    ensure!(
        a == b,
        "{what}: without a listener to the log {}, with one {}",
        a.as_deref().map_or("it is refused".to_string(), |s| s.chars().take(1500).collect::<String>()),
        b.as_deref().map_or("it is refused".to_string(), |s| {
            // where they part
            let p = a.as_deref().map_or(0, |a| a.bytes().zip(s.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(60));
            s.chars().skip(p).take(1500).collect()
        })
    );
    Ok(a.is_some())
}
fn bare(j: &J) -> String {
    j.to_string()
}
fn read_twice(g: &mut Gen, f: &Files, build: u32, file: &str, all: &Balance) -> Result<usize, String> {
    let a = f.archive();
    let path = g.dir.join(file);
    std::fs::write(&path, &a).map_err(|e| e.to_string())?;
    let (_, m) = s2protocol::parser::parse(&a).map_err(|e| format!("harness: the archive is not read: {e:?}"))?;
    let mut ok = 0;
    let ctx = |w: &str| format!("base build {build}: {w}");
    for w in READERS {
        ok += both(g, &ctx(w), |j: J| bare(&j), || read_part(w, &path, 7, &m, &a, all).ok())? as usize;
    }
    Ok(ok)
}
/// All that can be read of a replay.
pub const READERS: [&str; 10] = ["header", "tracker events", "game events", "messages", "details", "lobby data", "details of the lobby data", "players", "items", "rows"];
pub fn read_part(what: &str, path: &Path, id: u64, m: &s2protocol::MPQ, a: &[u8], all: &Balance) -> Result<J, String> {
    let file = path.to_str().unwrap();
    fn no<T, E: Debug>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| format!("{e:?}"))
    }
    fn js<T: serde::Serialize, E: Debug>(r: Result<T, E>) -> Result<J, String> {
        no(r).map(|x| to_json(&x))
    }
    let init = || no(InitData::try_from((path.to_path_buf(), id)));
    match what {
        "header" => no(s2protocol::read_protocol_header(m)).map(|x| J::String(format!("{:?}", x.1))),
        "tracker events" => js(s2protocol::read_tracker_events(file, m, a)),
        "game events" => js(s2protocol::read_game_events(file, m, a)),
        "messages" => js(s2protocol::read_message_events(file, m, a)),
        "details" => js(s2protocol::read_details(file, m, a)),
        "lobby data" => js(init()),
        "details of the lobby data" => js(Details::try_from(&init()?)),
        "players" => js(Vec::<PlayerLobbyDetails>::try_from(&init()?)),
        "items" => {
            let mut i = no(SC2EventIterator::new(&init()?, all.clone()))?;
            let v: Vec<J> = i
                .by_ref()
                .map(|x| {
                    x.emit_info_log();
                    item_json(&x)
                })
                .collect();
            Ok(J::Array(vec![J::Array(v), state_json(&i.sc2_state)]))
        }
        "rows" => rows(&init()?, all).map(|x| to_json(&x)),
        _ => unreachable!(),
    }
}
fn heard(g: &mut Gen, before: u64, ok: usize) {
    if ok == 0 || HEARD.with(|h| h.get()) == before {
        g.trivial();
    }
}
fn c28_replays(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 12, max_game: 10, stats: 1, wide: true };
    let r = replay(g, &plan, "whole.SC2Replay")?;
    let (all, _) = gen_balance(g, r.build);
    let mut f = r.files.clone();
    if g.bool() {
        f.message = Some(messages(g, bit_schema(r.build), 4).0);
    }
    let mut what = vec![];
    if g.chance(2, 3) {
        for (n, b) in [("tracker events", &mut f.tracker), ("game events", &mut f.game), ("messages", &mut f.message), ("details", &mut f.details), ("lobby data", &mut f.init)] {
            if let Some(b) = b
                && g.chance(1, 3)
            {
                damage(g, b);
                what.push(n);
            }
        }
    }
    let at = HEARD.with(|h| h.get());
    let ok = read_twice(g, &f, r.build, "twice.SC2Replay", &all)?;
    heard(g, at, ok);
    for w in &what {
        g.label(*w);
    }
    if what.is_empty() {
        g.label("whole");
    }
    g.key(&(f.archive(), r.build));
    g.sample(|| format!("base build {}: damaged {what:?}: {ok} of 10 readers succeed", r.build));
    Ok(())
}
fn c28_decoders(g: &mut Gen) -> Res {
    let build = gen_build(g);
    let (kind, what, mut b) = raw(g, build);
    if g.bool() {
        damage(g, &mut b);
    }
    let at = g.idx(8);
    use s2protocol::versions::{protocol75689 as p7, protocol87702 as p8};
    let old = legacy_build(build);
    macro_rules! stream {
        ($f:expr) => {{
            let (mut t, mut v) = ((&b[..], 0usize), vec![]);
            while let Ok((u, e)) = $f(t) {
                v.push(format!("{} {} {e:?}", u.0.len(), u.1));
                if u.0.is_empty() || v.len() > b.len() * 8 {
                    break;
                }
                t = u;
            }
            v
        }};
    }
    macro_rules! pairs {
        ($f:expr) => {{
            let (mut t, mut v) = (&b[..], vec![]);
            while let Ok((u, e)) = $f(t) {
                v.push(format!("{} {e:?}", u.len()));
                if u.is_empty() || v.len() > b.len() {
                    break;
                }
                t = u;
            }
            v
        }};
    }
    let start = HEARD.with(|h| h.get());
    let ctx = format!("{what} of build {build} from {}", hex(&b));
    let ok = both(g, &ctx, |v: Vec<String>| v.join("\n"), || {
        let v = match kind {
            0 if old => pairs!(p7::byte_aligned::ReplayTrackerEEventId::parse_event_pair),
            0 => pairs!(p8::byte_aligned::ReplayTrackerEEventId::parse_event_pair),
            1 if old => stream!(p7::bit_packed::GameEEventId::parse_event_triplet),
            1 => stream!(p8::bit_packed::GameEEventId::parse_event_triplet),
            2 if old => stream!(p7::bit_packed::GameEMessageId::parse_event_triplet),
            2 => stream!(p8::bit_packed::GameEMessageId::parse_event_triplet),
            3 if old => p7::byte_aligned::GameSDetails::parse(&b).map(|x| format!("{} {:?}", x.0.len(), x.1)).into_iter().collect(),
            3 => p8::byte_aligned::GameSDetails::parse(&b).map(|x| format!("{} {:?}", x.0.len(), x.1)).into_iter().collect(),
            _ if old => p7::bit_packed::ReplaySInitData::parse((&b, at)).map(|x| format!("{} {} {:?}", x.0.0.len(), x.0.1, x.1)).into_iter().collect(),
            _ => p8::bit_packed::ReplaySInitData::parse((&b, at)).map(|x| format!("{} {} {:?}", x.0.0.len(), x.0.1, x.1)).into_iter().collect(),
        };
        (!v.is_empty()).then_some(v)
    })?;
    heard(g, start, ok as usize);
    g.label(what);
    g.key(&(kind, old, &b));
    g.sample(|| format!("{what} of build {build} from {}", hex(&b[..b.len().min(80)])));
    Ok(())
}
fn c28_cache(g: &mut Gen) -> Res {
    let (w, h) = (1 + g.idx(5) as i32, 1 + g.idx(5) as i32);
    let mut info = info_file(g, w, h);
    let mut height = height_file(g, w + 1, h + 1);
    let mut head = header_file(g);
    for b in [&mut info, &mut height, &mut head] {
        if g.chance(1, 3) {
            damage(g, b);
        }
    }
    let at = HEARD.with(|h| h.get());
    let mut ok = both(g, &format!("map info {}", hex(&info)), |s: String| s, || MapInfo::parse(&info).ok().map(|x| format!("{} {:?}", x.0.len(), x.1)))? as usize;
    if let Ok(Ok((_, m))) = catch(|| MapInfo::parse(&info)) {
        ok += both(g, &format!("height map {}", hex(&height)), |s: String| s, || T3HeightMap::parse(&height, &m).ok().map(|x| format!("{:?}", x)))? as usize;
    }
    // the order of a map's entries is free
    ok += both(g, &format!("document header {}", hex(&head)), |s: String| tokens(&s), || DocumentHeader::parse(&head).ok().map(|x| format!("{:?}", x)))? as usize;
    heard(g, at, ok);
    g.key(&(&info, &height, &head));
    g.sample(|| format!("{ok} of 3 files are read"));
    Ok(())
}
fn c28_real(g: &mut Gen) -> Res {
    let reps = real_replays()?;
    let b = &std::fs::read(g.pick(&reps)).map_err(|e| e.to_string())?;
    let (_, m) = s2protocol::parser::parse(b).map_err(|e| format!("{e:?}"))?;
    let (_, h) = s2protocol::read_protocol_header(&m).map_err(|e| format!("{e:?}"))?;
    let build = h.m_version.m_base_build;
    let sector = |n: &str| m.read_mpq_file_sector(n, false, b).ok().map(|x| x.1);
    let mut f = Files {
        header: plain_header(build),
        tracker: sector("replay.tracker.events"),
        game: sector("replay.game.events"),
        message: sector("replay.message.events"),
        details: sector("replay.details"),
        init: sector("replay.initData"),
    };
    let n = 500 + g.idx(4000);
    for x in [&mut f.tracker, &mut f.game].into_iter().flatten() {
        x.truncate(n);
    }
    let at = HEARD.with(|h| h.get());
    let ok = read_twice(g, &f, build, "real.SC2Replay", &HashMap::new())?;
    heard(g, at, ok);
    g.key(&f.archive());
    g.sample(|| format!("{n} bytes of the streams of a replay of build {build}: {ok} of 10 readers succeed"));
    Ok(())
}

// ---------------------------------------------------------------- C29
/// The words of a text, without their order.
fn tokens(s: &str) -> String {
    let mut n: BTreeMap<&str, usize> = BTreeMap::new();
    for w in s.split([' ', ',', '(', ')', '[', ']', '{', '}']) {
        *n.entry(w).or_default() += 1;
    }
    format!("{n:?}")
}
fn saved<T: serde::Serialize + serde::de::DeserializeOwned + Debug>(what: &str, t: &T) -> Result<T, String> {
    let s = serde_json::to_string(t).map_err(|e| format!("{what}: not written: {e}: {t:?}"))?;
    let b: T = serde_json::from_str(&s).map_err(|e| format!("{what}: not read back: {e}: {s}"))?;
    let (x, y) = (format!("{t:?}"), format!("{b:?}"));
    ensure!(x == y || tokens(&x) == tokens(&y), "{what}: {x} is read back as {y}");
    Ok(b)
}
fn c29_parts(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 14, max_game: 12, stats: 1, wide: true };
    let r = replay(g, &plan, "saved.SC2Replay")?;
    let (all, own) = gen_balance(g, r.build);
    let s = bit_schema(r.build);
    let mut f = r.files.clone();
    f.message = Some(messages(g, s, 4).0);
    let a = f.archive();
    let ctx = |e: String| format!("base build {}: {e}", r.build);
    let (_, m) = s2protocol::parser::parse(&a).map_err(|e| format!("harness: the archive is not read: {e:?}"))?;
    let mut kinds = std::collections::BTreeSet::new();
    let mut kind = |d: String| {
        kinds.insert(d.chars().take_while(|c| c.is_alphanumeric()).collect::<String>());
    };
    if let Ok(v) = s2protocol::read_tracker_events("x", &m, &a) {
        for e in &v {
            saved("tracker event", e).map_err(ctx)?;
            kind(format!("{:?}", e.event));
        }
    }
    if let Ok(v) = s2protocol::read_game_events("x", &m, &a) {
        for e in &v {
            saved("game event", e).map_err(ctx)?;
            kind(format!("{:?}", e.event));
        }
    }
    if let Ok(v) = s2protocol::read_message_events("x", &m, &a) {
        for e in &v {
            saved("message", e).map_err(ctx)?;
        }
    }
    saved("lobby data", &r.init).map_err(ctx)?;
    if let Ok(d) = Details::try_from(&r.init) {
        saved("details", &d).map_err(ctx)?;
    }
    for p in Vec::<PlayerLobbyDetails>::try_from(&r.init).unwrap_or_default() {
        saved("player", &p).map_err(ctx)?;
    }
    // items, and a state that is saved between them
    let mut it = SC2EventIterator::new(&r.init, all).map_err(|e| ctx(format!("{e:?}")))?;
    let mut st = SC2ReplayState::try_from(&r.init).map_err(|e| ctx(format!("{e:?}")))?.with_balance_units(own);
    for item in it.by_ref() {
        let i: SC2EventIteratorItem = saved("item", &item).map_err(ctx)?;
        if g.chance(1, 6) {
            st = saved("state", &st).map_err(ctx)?;
        }
        st.handle_transition_to_next_event(i.event_type);
    }
    ensure_eq!(state_json(&st), state_json(&it.sc2_state), "{}", ctx("the state after the items were saved and handled".into()));
    if kinds.len() < 5 {
        g.trivial();
    }
    for k in kinds {
        g.label(k);
    }
    g.key(&a);
    g.sample(|| format!("base build {}: {} tracker and {} game events", r.build, r.tracker.len(), r.game.len()));
    Ok(())
}
fn c29_histories(g: &mut Gen) -> Res {
    let n = 4 + g.idx(40);
    let (mut st, evs) = crate::c_state::events(g, n);
    let mut twin = st.clone();
    let mut kinds = std::collections::BTreeSet::new();
    for (k, e) in evs.iter().enumerate() {
        let item = st.handle_transition_to_next_event(e.clone());
        kinds.insert(crate::c_state::kind(e));
        let back = saved("item", &item)?;
        twin = if g.chance(1, 8) { saved("state", &twin)? } else { twin };
        let again = twin.handle_transition_to_next_event(saved("event", e)?);
        ensure_eq!(item_json(&back), item_json(&again), "event {k}, {e:?}: a state that was saved answers otherwise");
    }
    ensure_eq!(state_json(&st), state_json(&twin), "a state that was saved ends otherwise");
    if kinds.len() < 5 {
        g.trivial();
    }
    g.key(&format!("{evs:?}"));
    g.sample(|| format!("{n} events of {} kinds", kinds.len()));
    Ok(())
}

// ---------------------------------------------------------------- C31
/// One of the things to read: a replay, or map cache files.
fn read_text(what: &str, dir: &Path, path: &Path, k: usize, all: &Balance) -> String {
    let r = catch(|| -> Result<J, String> {
        let a = std::fs::read(path).map_err(|e| e.to_string())?;
        let dbg = |x: String| J::String(tokens(&x));
        match what {
            "map info" => MapInfo::parse(&a).map(|x| dbg(format!("{x:?}"))).map_err(|e| format!("{e:?}")),
            "document header" => DocumentHeader::parse(&a).map(|x| dbg(format!("{x:?}"))).map_err(|e| format!("{e:?}")),
            _ => {
                let (_, m) = s2protocol::parser::parse(&a).map_err(|e| format!("{e:?}"))?;
                read_part(what, path, 7 + k as u64, &m, &a, all)
            }
        }
    });
    let s = match r {
        Ok(Ok(j)) => j.to_string(),
        Ok(Err(e)) => format!("refused: {e}"),
        Err(e) => format!("panics: {e}"),
    };
    let d = dir.to_str().unwrap();
    s.replace(&format!("{d}/{k}/"), "@/").replace(&format!("{d}/"), "@/")
}
/// What is asked of a process: runs the steps of a plan, writes what they report.
pub fn reading(plan: &Path) {
    let p: J = serde_json::from_slice(&std::fs::read(plan).unwrap()).unwrap();
    let dir = PathBuf::from(p["dir"].as_str().unwrap());
    let from = PathBuf::from(p["from"].as_str().unwrap());
    let mut all = Balance::new();
    for b in p["balance"].as_array().unwrap() {
        all.insert((b[0].as_u64().unwrap() as u32, b[1].as_str().unwrap().into()), crate::c_balance::unit_of(&b[2]));
    }
    let all = &all;
    let place = |k: usize, own: bool| {
        let d = if own { dir.join(k.to_string()) } else { dir.clone() };
        std::fs::create_dir_all(&d).unwrap();
        let f = d.join("r.SC2Replay");
        std::fs::write(&f, std::fs::read(from.join(k.to_string())).unwrap()).unwrap();
        f
    };
    let init = |k: usize, f: &Path| catch(|| SC2EventIterator::new(&InitData::try_from((f.to_path_buf(), 7 + k as u64)).ok()?, all.clone()).ok()).ok().flatten();
    let mut out: Vec<(usize, String, String, usize)> = vec![];
    for (nth, s) in p["steps"].as_array().unwrap().iter().enumerate() {
        let ks: Vec<usize> = s["of"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap() as usize).collect();
        let own = s["own"].as_bool().unwrap();
        let parts: Vec<&str> = s["parts"].as_array().unwrap().iter().map(|k| k.as_str().unwrap()).collect();
        match s["do"].as_str().unwrap() {
            "read" => {
                for &k in &ks {
                    let f = place(k, own);
                    for w in &parts {
                        out.push((k, w.to_string(), read_text(w, &dir, &f, k, all), nth));
                    }
                }
            }
            // iterators in turns, then dropped
            "turns" => {
                let mut its: Vec<_> = ks.iter().map(|&k| (k, init(k, &place(k, own)), vec![])).collect();
                let n = s["n"].as_u64().unwrap() as usize;
                let mut left = n;
                while left > 0 && its.iter().any(|i| i.1.is_some()) {
                    for (_, i, v) in &mut its {
                        let x = catch(|| i.as_mut().and_then(|i| i.next())).unwrap_or_default();
                        match x {
                            Some(x) => v.push(item_json(&x).to_string()),
                            None => *i = None,
                        }
                    }
                    left -= 1;
                }
                for (k, i, v) in its {
                    out.push((k, if i.is_none() && left > 0 { "first items, all".into() } else { format!("first items, {}", v.len()) }, v.join(","), nth));
                }
            }
            "threads" => {
                let files: Vec<PathBuf> = ks.iter().map(|&k| place(k, true)).collect();
                let start = std::sync::Barrier::new(ks.len() * 2);
                let (dir, parts, start) = (&dir, &parts, &start);
                let all_out: Vec<Vec<_>> = std::thread::scope(|sc| {
                    let mut hs = vec![];
                    for i in 0..ks.len() * 2 {
                        let (k, f) = (ks[i % ks.len()], &files[i % ks.len()]);
                        let run = move || {
                            start.wait();
                            parts.iter().map(|w| (k, w.to_string(), read_text(w, dir, f, k, all), nth)).collect::<Vec<_>>()
                        };
                        hs.push(std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, run).unwrap());
                    }
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                out.extend(all_out.concat());
            }
            _ => unreachable!(),
        }
    }
    std::fs::write(dir.join("out"), serde_json::to_vec(&out).unwrap()).unwrap();
}
type Read = Vec<(usize, String, String, usize)>;
fn process(g: &mut Gen, name: &str, plan: &J, home: bool) -> Option<Read> {
    let dir = g.dir.join(name);
    std::fs::create_dir_all(&dir).unwrap();
    let mut p = plan.clone();
    p["dir"] = json!(dir);
    p["from"] = json!(g.dir.join("from"));
    let f = dir.join("plan");
    std::fs::write(&f, p.to_string()).unwrap();
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("--reading").arg(&f).env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    if home {
        c.env("TZ", "UTC").env("LC_ALL", "C").env("RAYON_NUM_THREADS", "1").current_dir(&dir);
    } else {
        c.env("TZ", *g.pick(&["UTC", "<+0545>-5:45", "<-11>11", "Asia/Kathmandu", "America/Los_Angeles", "<+14>-14"]));
        c.env("LC_ALL", *g.pick(&["C", "tr_TR.UTF-8", "de_DE.UTF-8"])).env("LANG", "tr_TR.UTF-8");
        c.env("RAYON_NUM_THREADS", *g.pick(&["1", "2", "5"])).env("RUST_LOG", *g.pick(&["trace", "off"]));
        c.current_dir(if g.bool() { Path::new("/") } else { g.dir.as_path() });
    }
    let mut kid = c.spawn().unwrap();
    let t = std::time::Instant::now();
    let ok = loop {
        if let Some(s) = kid.try_wait().unwrap() {
            break s.success();
        }
        if t.elapsed().as_secs() > 60 {
            let _ = kid.kill();
            let _ = kid.wait();
            break false;
        }
        std::thread::sleep(std::time::Duration::from_micros(500));
    };
    let r = ok.then(|| serde_json::from_slice(&std::fs::read(dir.join("out")).unwrap()).unwrap());
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn c31(g: &mut Gen) -> Res {
    let plan = Plan { max_tracker: 10, max_game: 9, stats: 1, wide: true };
    let from = g.dir.join("from");
    std::fs::create_dir_all(&from).map_err(|e| e.to_string())?;
    // the replays
    let n = 2 + g.idx(3);
    let mut all = Balance::new();
    let mut reps: Vec<(u32, Files, String)> = vec![];
    for k in 0..n {
        let r = replay(g, &plan, "made.SC2Replay")?;
        let mut f = r.files.clone();
        if g.chance(1, 3) {
            f.message = Some(messages(g, bit_schema(r.build), 4).0);
        }
        all.extend(gen_balance(g, r.build).0);
        let (mut build, mut how) = (r.build, "new");
        if k > 0 && g.chance(3, 4) {
            // mostly another one
            let (b, o, _) = g.pick(&reps).clone();
            if legacy_build(b) == legacy_build(build) {
                how = "parts of another";
                let mut x = o.clone();
                for (to, other) in [(&mut x.tracker, f.tracker), (&mut x.game, f.game), (&mut x.message, f.message), (&mut x.details, f.details), (&mut x.init, f.init)] {
                    if g.chance(1, 3) {
                        *to = other;
                    }
                }
                if g.bool() {
                    x.header = plain_header(build);
                } else {
                    build = b;
                }
                f = x;
            } else {
                how = "another with changed bytes";
                build = b;
                f = o;
                for x in [&mut f.tracker, &mut f.game, &mut f.details, &mut f.init].into_iter().flatten() {
                    if g.bool() && !x.is_empty() {
                        let at = g.idx(x.len());
                        x[at] ^= 1 << g.idx(8);
                    }
                }
            }
        } else if g.chance(1, 8) {
            how = "damaged";
            for b in [&mut f.tracker, &mut f.game, &mut f.details, &mut f.init].into_iter().flatten() {
                if g.bool() {
                    damage(g, b);
                }
            }
        }
        std::fs::write(from.join(k.to_string()), f.archive()).map_err(|e| e.to_string())?;
        reps.push((build, f, how.into()));
    }
    let made = reps.len();
    let mut cache = vec![];
    if g.chance(1, 3) {
        for k in made..made + 2 + g.idx(2) {
            let (w, h) = (1 + g.idx(5) as i32, 1 + g.idx(5) as i32);
            let (b, what) = if g.bool() { (info_file(g, w, h), "map info") } else { (header_file(g), "document header") };
            std::fs::write(from.join(k.to_string()), b).map_err(|e| e.to_string())?;
            cache.push((k, what));
        }
    }
    // the steps
    let mut steps = vec![];
    for _ in 0..2 + g.idx(7) {
        let of: Vec<usize> = (0..1 + g.idx(3)).map(|_| g.idx(made)).collect();
        let mut parts: Vec<&str> = if g.bool() { READERS.to_vec() } else { (0..1 + g.idx(4)).map(|_| *g.pick(&READERS)).collect() };
        for i in (1..parts.len()).rev() {
            parts.swap(i, g.idx(i + 1));
        }
        let own = g.bool();
        steps.push(match g.below(8) {
            0 | 1 => {
                let most = if g.bool() { 4 } else { 40 };
                json!({"do": "turns", "of": of, "own": own, "parts": [], "n": 1 + g.idx(most)})
            }
            2 => {
                // each of a place of its own
                let mut of = of;
                of.sort();
                of.dedup();
                json!({"do": "threads", "of": of, "own": true, "parts": parts})
            }
            3 if !cache.is_empty() => {
                let (k, what) = *g.pick(&cache);
                json!({"do": "read", "of": [k], "own": own, "parts": [what]})
            }
            _ => json!({"do": "read", "of": of, "own": own, "parts": parts}),
        });
    }
    let balance: Vec<J> = all.iter().map(|((b, n), u)| json!([b, n, to_json(u)])).collect();
    let asked = json!({"balance": balance, "steps": steps});
    // the reference
    let used: std::collections::BTreeSet<usize> = steps.iter().flat_map(|s| s["of"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap() as usize)).collect();
    let mut alone: BTreeMap<(usize, String), String> = BTreeMap::new();
    let (mut good, mut died) = (0, false);
    for &k in &used {
        let own: Vec<&str> = cache.iter().filter(|c| c.0 == k).map(|c| c.1).collect();
        let p = json!({"balance": asked["balance"], "steps": [{"do": "read", "of": [k], "own": false, "parts": if own.is_empty() { READERS.to_vec() } else { own }}]});
        match process(g, "alone", &p, true) {
            Some(r) => {
                good += (r.iter().filter(|x| !x.2.starts_with("refused") && !x.2.starts_with("panics")).count() >= 4) as usize;
                alone.extend(r.into_iter().map(|(k, w, s, _)| ((k, w), s)));
            }
            None => died = true,
        }
    }
    if died {
        // judged by C17
        g.label("the process dies or does not end");
        g.trivial();
        return Ok(());
    }
    let Some(got) = process(g, "together", &asked, false) else {
        return Err(format!("each of {} replays is read by a process of its own; the process that carries out {} does not end as it should", used.len(), J::Array(steps)));
    };
    let from_where = |k: usize| reps.get(k).map_or("a cache file".to_string(), |r| format!("base build {}, {}", r.0, r.2));
    for (k, w, s, nth) in &got {
        let ctx = || format!("replay {k} ({}): {w} at step {nth} of {}", from_where(*k), J::Array(steps.clone()));
        if let Some(c) = w.strip_prefix("first items, ") {
            let whole = &alone[&(*k, "items".to_string())];
            let inner = format!("[[{s}");
            let fits = if whole.starts_with("refused") || whole.starts_with("panics") {
                true
            } else if c == "all" {
                whole.starts_with(&format!("{inner}],"))
            } else {
                whole.starts_with(&inner)
            };
            ensure!(fits, "{}: reported {s}, by a process of its own {whole}", ctx());
            continue;
        }
        let want = &alone[&(*k, w.clone())];
        let p = want.bytes().zip(s.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(80);
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[p.min(s.len())..]).chars().take(700).collect::<String>();
        ensure!(want == s, "{}: from byte {p}: {}, by a process of its own {}", ctx(), cut(s), cut(want));
    }
    let different: std::collections::BTreeSet<Vec<u8>> = used.iter().filter(|k| **k < made).map(|k| std::fs::read(from.join(k.to_string())).unwrap()).collect();
    if different.len() < 2 || good < 2 || steps.len() < 3 {
        g.trivial();
    }
    for s in &steps {
        g.label(s["do"].as_str().unwrap());
    }
    for r in &reps {
        g.label(r.2.as_str());
    }
    g.key(&(different, format!("{steps:?}")));
    g.sample(|| format!("replays {:?}: {}", reps.iter().map(|r| (r.0, &r.2)).collect::<Vec<_>>(), J::Array(steps)));
    Ok(())
}
