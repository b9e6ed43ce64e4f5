//! C33: a file operation that fails is reported, and what is reported as done is complete.
use crate::c_balance::{Map, cmp, gen_map, unit_of, xml};
use crate::c_log::read_part;
use crate::c_misc::{Tree, grow};
use crate::c_rows::{KINDS, compare, read_arrow, rewrite};
use crate::engine::*;
use crate::replay::*;
use crate::schema::V;
use crate::synth::*;
use crate::{Property, ensure};
use s2protocol::arrow_store::ArrowIpcTypes;
use s2protocol::generator::ProtoMorphist;
use serde_json::Value as J;
use std::collections::BTreeSet;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C33",
        rule: "a replay read by the readers that open its file, folders of unit definitions written and read, folder trees listed, folders of replays exported to Arrow, protocol descriptions turned into code: once as they are (the operations on the files are counted), once with reads and writes that transfer a few bytes at a time or are interrupted (the first 400 of them), and a few times with one operation (open, read, write, list; the first, the last, any) or it and all that follow failing with an error of the system; non-trivial: the failing operation is reached",
        assumptions: &["operations go through read, write, open64, opendir and readdir64 of the C library"],
        checks: vec![check("replays", c33_replays, 1_600, 15), check("definitions", c33_definitions, 1_600, 15), check("folders", c33_folders, 1_600, 15), check("exports", c33_exports, 800, 15), check("generator", c33_generator, 400, 15)],
    }]
}

// ---------------------------------------------------------------- the operations
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Open,
    Read,
    Write,
    List,
}
#[derive(Debug, Default)]
struct Faults {
    under: Vec<u8>,
    /// the operation that fails, counted from 0, with which error, and whether those after it fail, too
    fail: Option<(Op, i64, c_int, bool)>,
    /// how many bytes a read or write transfers, and how many of them are interrupted
    short: Option<(usize, i64)>,
    seen: [AtomicI64; 4],
    all: AtomicI64,
    hit: AtomicI64,
}
impl Faults {
    /// How many bytes are transferred, or which error there is.
    fn decide(&self, op: Op, n: usize) -> Result<usize, c_int> {
        let k = self.seen[op as usize].fetch_add(1, Relaxed);
        if let Some((o, at, e, on)) = self.fail
            && o == op
            && (k == at || on && k > at)
        {
            self.hit.fetch_add(1, Relaxed);
            return Err(e);
        }
        if let Some((len, every)) = self.short
            && matches!(op, Op::Read | Op::Write)
        {
            let k = self.all.fetch_add(1, Relaxed);
            if k >= 400 {
                return Ok(n);
            }
            if every > 1 && k % every == 1 {
                return Err(4);
            }
            return Ok(n.min(len));
        }
        Ok(n)
    }
}
static ARMED: AtomicUsize = AtomicUsize::new(0);
static ALL: Mutex<Vec<Arc<Faults>>> = Mutex::new(Vec::new());
/// What the file that is open under a number is told.
static FILES: [AtomicPtr<Faults>; 1024] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 1024];
fn find(path: &[u8]) -> Option<Arc<Faults>> {
    // what waits for the lock may set errno
    let errno = unsafe { *__errno_location() };
    let f = ALL.lock().unwrap_or_else(|e| e.into_inner()).iter().find(|f| path.starts_with(&f.under)).cloned();
    fails(errno);
    f
}
fn decide_fd(fd: c_int, op: Op, n: usize) -> Result<usize, c_int> {
    match FILES.get(fd as usize).map(|f| f.load(Relaxed)) {
        Some(f) if !f.is_null() => unsafe { &*f }.decide(op, n),
        _ => Ok(n),
    }
}
fn decide_dir(fd: c_int, op: Op, n: usize) -> Result<usize, c_int> {
    let mut link = *b"/proc/self/fd/\0\0\0\0\0\0\0\0\0\0\0\0";
    let (mut d, mut k, mut at) = ([0u8; 10], 0, 14);
    let mut v = fd.max(0);
    while v > 0 || k == 0 {
        d[k] = b'0' + (v % 10) as u8;
        (v, k) = (v / 10, k + 1);
    }
    while k > 0 {
        k -= 1;
        link[at] = d[k];
        at += 1;
    }
    let mut path = [0u8; 4096];
    let errno = unsafe { *__errno_location() };
    let r = unsafe { readlink(link.as_ptr() as *const c_char, path.as_mut_ptr() as *mut c_char, path.len()) };
    fails(errno);
    if r <= 0 { Ok(n) } else { find(&path[..r as usize]).map_or(Ok(n), |f| f.decide(op, n)) }
}
unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dirfd(d: *mut c_void) -> c_int;
    fn __errno_location() -> *mut c_int;
}
fn fails(e: c_int) {
    unsafe { *__errno_location() = e };
}
#[unsafe(no_mangle)]
extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let n = if ARMED.load(Relaxed) == 0 { Ok(n) } else { decide_fd(fd, Op::Read, n) };
    match n {
        Ok(n) => unsafe { syscall(0, fd as c_long, b, n) as isize },
        Err(e) => {
            fails(e);
            -1
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let n = if ARMED.load(Relaxed) == 0 { Ok(n) } else { decide_fd(fd, Op::Write, n) };
    match n {
        Ok(n) => unsafe { syscall(1, fd as c_long, b, n) as isize },
        Err(e) => {
            fails(e);
            -1
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    let f = if ARMED.load(Relaxed) > 0 { find(unsafe { CStr::from_ptr(p) }.to_bytes()) } else { None };
    if let Some(f) = &f
        && let Err(e) = f.decide(Op::Open, 0)
    {
        fails(e);
        return -1;
    }
    // AT_FDCWD, O_LARGEFILE
    let fd = unsafe { syscall(257, -100 as c_long, p, (flags | 0o100000) as c_long, mode as c_long) as c_int };
    if fd >= 0
        && let (Some(f), Some(t)) = (f, FILES.get(fd as usize))
    {
        // never given back: it may be in use still
        t.store(Arc::into_raw(f) as *mut Faults, Relaxed);
    }
    fd
}
#[unsafe(no_mangle)]
extern "C" fn close(fd: c_int) -> c_int {
    if let Some(t) = FILES.get(fd as usize) {
        t.store(std::ptr::null_mut(), Relaxed);
    }
    unsafe { syscall(3, fd as c_long) as c_int }
}
fn next(name: &CStr) -> *mut c_void {
    // RTLD_NEXT
    unsafe { dlsym(-1isize as *mut c_void, name.as_ptr()) }
}
#[unsafe(no_mangle)]
extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if ARMED.load(Relaxed) > 0
        && let Some(f) = find(unsafe { CStr::from_ptr(p) }.to_bytes())
        && let Err(e) = f.decide(Op::Open, 0)
    {
        fails(e);
        return std::ptr::null_mut();
    }
    let f: extern "C" fn(*const c_char) -> *mut c_void = unsafe { std::mem::transmute(next(c"opendir")) };
    f(p)
}
#[unsafe(no_mangle)]
extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    if ARMED.load(Relaxed) > 0
        && let Err(e) = decide_dir(unsafe { dirfd(d) }, Op::List, 0)
    {
        fails(e);
        return std::ptr::null_mut();
    }
    let f: extern "C" fn(*mut c_void) -> *mut c_void = unsafe { std::mem::transmute(next(c"readdir64")) };
    f(d)
}
/// Runs `f` while the operations on what is under `dir` go as they are told.
fn with<T>(dir: &Path, mut faults: Faults, f: impl FnOnce() -> T) -> (Arc<Faults>, Result<T, String>) {
    faults.under = dir.as_os_str().as_bytes().to_vec();
    let faults = Arc::new(faults);
    ALL.lock().unwrap().push(faults.clone());
    ARMED.fetch_add(1, Relaxed);
    let r = catch(f);
    ARMED.fetch_sub(1, Relaxed);
    ALL.lock().unwrap().retain(|x| !Arc::ptr_eq(x, &faults));
    (faults, r)
}
/// `run` works on files under `dir` and tells what came of it, or that it did not succeed.
/// With operations that fail it may not succeed; if it does, nothing has changed.
fn faulty<T>(g: &mut Gen, what: &str, dir: &Path, ops: &[Op], run: impl Fn() -> Result<T, String>, same: impl Fn(&T) -> Res) -> Res {
    let (count, first) = with(dir, Faults::default(), &run);
    let Ok(Ok(first)) = first else {
        g.label("does not succeed as it is");
        g.trivial();
        return Ok(());
    };
    same(&first).map_err(|e| format!("{what}, twice: {e}"))?;
    let short = (*g.pick(&[1usize, 3, 17, 100, 4096]), 1 + g.idx(5) as i64);
    let (many, r) = with(dir, Faults { short: Some(short), ..Default::default() }, &run);
    let ctx = format!("{what}, with at most {} bytes at a time at first{}", short.0, if short.1 > 1 { format!(", one of {} calls interrupted", short.1) } else { String::new() });
    match r {
        Ok(Ok(t)) => same(&t).map_err(|e| format!("{ctx}: {e}"))?,
        Ok(Err(e)) | Err(e) => return Err(format!("{ctx}: fails: {e}")),
    }
    let (mut hits, mut refused) = (0, 0);
    for _ in 0..4 {
        let op = *g.pick(ops);
        let few = g.bool();
        let n = if few { &many } else { &count }.seen[op as usize].load(Relaxed);
        if n == 0 {
            continue;
        }
        let at = match g.below(6) {
            0 => 0,
            1 => n - 1,
            2 => (n - 2).max(0),
            _ => g.idx(n as usize) as i64,
        };
        // EIO, ENOSPC or EMFILE
        let e = match op {
            Op::Open => *g.pick(&[5, 24, 13]),
            Op::Write => *g.pick(&[5, 28]),
            _ => 5,
        };
        let on = g.bool();
        let (f, r) = with(dir, Faults { fail: Some((op, at, e, on)), short: few.then_some(short), ..Default::default() }, &run);
        let hit = f.hit.load(Relaxed);
        hits += (hit > 0) as u32;
        let ctx = format!("{what}: {op:?} {at} of {n}{} fails with error {e}{}, {}", if on { " and what follows" } else { "" }, if few { format!(" ({} bytes at a time at first)", short.0) } else { String::new() }, if hit > 0 { "and yet it succeeds" } else { "(not reached)" });
        match r {
            Ok(Ok(t)) => same(&t).map_err(|e| format!("{ctx}: {e}"))?,
            // an error, or at least it does not go on
            _ if hit > 0 => refused += 1,
            Ok(Err(e)) | Err(e) => return Err(format!("{ctx}: does not succeed: {e}")),
        }
        g.label(format!("{op:?}"));
    }
    if hits == 0 {
        g.trivial();
    }
    g.sample(|| format!("{what}: {:?} operations; {hits} failing ones, {refused} reported", count.seen));
    Ok(())
}
fn no<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}
fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("harness: {e}"))
}
fn fresh(d: &Path) -> Res {
    let _ = std::fs::remove_dir_all(d);
    io(std::fs::create_dir_all(d))
}

// ---------------------------------------------------------------- what is done
fn c33_replays(g: &mut Gen) -> Res {
    let dir = g.dir.join("io");
    fresh(&dir)?;
    let plan = Plan { max_tracker: 10, max_game: 8, stats: 1, wide: true };
    let r = replay(g, &plan, "io/faulty.SC2Replay")?;
    let (all, _) = gen_balance(g, r.build);
    let path = r.path.clone();
    let a = r.bytes.clone();
    let (_, m) = no(s2protocol::parser::parse(&a))?;
    let what = *g.pick(&["file", "archive", "init data", "lobby data", "details of the lobby data", "players", "items", "rows"]);
    let run = || -> Result<J, String> {
        Ok(match what {
            "file" => serde_json::json!(no(s2protocol::read_file(&path))?),
            "archive" => serde_json::json!(no(s2protocol::read_mpq(path.to_str().unwrap()))?.1),
            "init data" => crate::c_replay::to_json(&no(s2protocol::dir_stats::try_read_init_data(&path, 7))?),
            w => read_part(w, &path, 7, &m, &a, &all)?,
        })
    };
    let Ok(want) = run() else {
        g.trivial();
        return Ok(());
    };
    let same = |j: &J| {
        ensure!(*j == want, "something else is read");
        Ok(())
    };
    faulty(g, &format!("{what} of a replay of base build {}", r.build), &dir, &[Op::Open, Op::Read, Op::Read], run, same)?;
    g.label(what);
    g.key(&(a, what));
    Ok(())
}
fn c33_definitions(g: &mut Gen) -> Res {
    let dir = g.dir.join("io");
    fresh(&dir)?;
    let m = gen_map(g, true);
    let data: Map = m.iter().map(|(k, v)| (k.clone(), unit_of(v))).collect();
    use s2protocol::game_events::{read_balance_data_from_json_dir, traverse_versioned_balance_abilities, write_balance_data_to_json};
    let what = *g.pick(&["writing", "reading", "reading the XML of"]);
    let ctx = format!("{what} {} unit definitions", m.len());
    let ops = [Op::Open, Op::Read, Op::List];
    match what {
        "writing" => {
            let run = || {
                let _ = std::fs::remove_dir_all(dir.join("out"));
                write_balance_data_to_json(dir.join("out"), data.clone()).map_err(|e| format!("{e:?}"))
            };
            let same = |_: &()| cmp(&m, &read_balance_data_from_json_dir(dir.join("out")).map_err(|e| format!("what is written is not read: {e}"))?);
            faulty(g, &ctx, &dir, &[Op::Open, Op::Write, Op::Write], run, same)?;
        }
        "reading" => {
            write_balance_data_to_json(&dir, data).map_err(|e| format!("write: {e}"))?;
            faulty(g, &ctx, &dir, &ops, || read_balance_data_from_json_dir(&dir).map_err(|e| format!("{e:?}")), |got| cmp(&m, got))?;
        }
        _ => {
            for ((v, n), u) in &m {
                let d = dir.join(v.to_string()).join("BalanceData");
                io(std::fs::create_dir_all(&d))?;
                let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
                xml("unit", u, &mut s);
                io(std::fs::write(d.join(format!("{n}.xml")), s))?;
            }
            faulty(g, &ctx, &dir, &ops, || no(traverse_versioned_balance_abilities(&dir)), |got| cmp(&m, got))?;
        }
    }
    g.label(what);
    Ok(())
}
fn c33_folders(g: &mut Gen) -> Res {
    let dir = g.dir.join("io");
    let aside = g.dir.join("aside.bin");
    io(std::fs::write(&aside, b""))?;
    fresh(&dir)?;
    let mut t = Tree { replays: vec![], other: 0 };
    grow(g, &dir, 1, &mut t, &aside)?;
    let all: BTreeSet<PathBuf> = t.replays.iter().map(|r| r.0.clone()).collect();
    let same = |v: &Vec<PathBuf>| {
        let got: BTreeSet<PathBuf> = v.iter().cloned().collect();
        ensure!(got == all, "{} of {} replays are listed: {got:?}", got.len(), all.len());
        Ok(())
    };
    faulty(g, &format!("listing {} replays and {} other files", all.len(), t.other), &dir, &[Op::Open, Op::List], || s2protocol::get_matching_files(dir.clone(), 1_000_000, 10).map_err(|e| format!("{e:?}")), same)?;
    g.key(&all);
    Ok(())
}
fn c33_exports(g: &mut Gen) -> Res {
    let (src, dir) = (g.dir.join("in"), g.dir.join("io"));
    fresh(&src)?;
    fresh(&dir)?;
    let mut inits = vec![];
    let mut all = Balance::new();
    for k in 0..1 + g.idx(3) {
        let plan = Plan { max_tracker: 20, max_game: 14, stats: g.below(3), wide: false };
        let mut r = replay(g, &plan, &format!("in/r{k}.SC2Replay"))?;
        let s = crate::schema::versioned();
        let t = 116_444_736_000_000_000 + g.below(1 << 54) as i64;
        s.set("GameSDetails", &mut r.cast.details, "m_time_utc", V::Int(t));
        s.set("GameSDetails", &mut r.cast.details, "m_time_local_offset", V::Int(0));
        rewrite(g, &mut r)?;
        all.extend(gen_balance(g, r.build).0);
        inits.push(r.init);
    }
    let serial = g.bool();
    let once = g.chance(1, 8);
    let run = || -> Res {
        match once {
            true => ArrowIpcTypes::Details.handle_read_once_write_all(inits.clone(), dir.join("details.arrow")),
            false => ArrowIpcTypes::handle_write_snapshot(inits.clone(), dir.clone(), &all, serial),
        }
        .map_err(|e| format!("{e:?}"))
    };
    if run().is_err() {
        g.trivial();
        return Ok(());
    }
    let kinds: Vec<&str> = if once { vec!["details"] } else { KINDS.iter().copied().chain(["details"]).collect() };
    let mut want = vec![];
    for k in &kinds {
        want.push(read_arrow(&dir.join(format!("{k}.arrow")))?);
    }
    let same = |_: &()| {
        for (k, w) in kinds.iter().zip(&want) {
            let got = read_arrow(&dir.join(format!("{k}.arrow")))?;
            compare(&format!("{k}: "), serial, w.clone(), got)?;
        }
        Ok(())
    };
    let n = want.iter().map(|w| w.len()).sum::<usize>();
    faulty(g, &format!("{} export of {n} rows of {} replays", if serial { "serial" } else { "parallel" }, inits.len()), &dir, &[Op::Open, Op::Write, Op::Write, Op::Write], run, same)?;
    if n < 5 {
        g.trivial();
    }
    g.label(if once { "read once" } else if serial { "serial" } else { "parallel" });
    Ok(())
}
fn c33_generator(g: &mut Gen) -> Res {
    let dir = g.dir.join("io");
    fresh(&dir)?;
    let j = crate::c_gen::description(g);
    let js = dir.join("protocol70000.json");
    io(std::fs::write(&js, j.to_string()))?;
    let rs = dir.join("out.rs");
    let run = || no(ProtoMorphist::r#gen(js.to_str().unwrap(), rs.to_str().unwrap()));
    let (a, b) = (catch(run), std::fs::read(&rs).unwrap_or_default());
    if a != Ok(Ok(())) || catch(run) != Ok(Ok(())) || io(std::fs::read(&rs))? != b {
        g.trivial();
        return Ok(());
    }
    let same = |_: &()| {
        let got = io(std::fs::read(&rs))?;
        ensure!(got == b, "{} bytes are generated, expected {}", got.len(), b.len());
        Ok(())
    };
    faulty(g, &format!("generating {} bytes", b.len()), &dir, &[Op::Open, Op::Read, Op::Write, Op::Write], run, same)?;
    g.key(&b);
    Ok(())
}
