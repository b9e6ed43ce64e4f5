//! C21: balance data files and the ability names derived from them.
use crate::c_replay::to_json;
use crate::engine::*;
use crate::{Property, ensure, ensure_eq};
use s2protocol::game_events::{VersionedBalanceUnit, VersionedBalanceUnits, get_indexed_ability_command_name};
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, HashMap};

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C21",
        rule: "unit definitions with random optional parts, abilities, trained and built units and researches (identifiers and indexes from small pools so that they collide), of 1..6 units in 1..3 versions, written to and read from a scratch folder as JSON and as XML, with other files and folders next to them; ability names of every identifier and index of the pool; non-trivial: at least one ability, trained or built unit or research",
        assumptions: &["unit names are file names without a .json ending"],
        checks: vec![
            check("names", c21_names, 150_000, 20),
            check("json", c21_json, 6_000, 20),
            check("xml", c21_xml, 4_000, 20),
            check("included", c21_included, 1, 1),
        ],
    }]
}

fn f(g: &mut Gen) -> J {
    json!(g.below(4000) as f64 / 64.0)
}
fn opt(g: &mut Gen, o: &mut J, k: &str, v: impl FnOnce(&mut Gen) -> J) {
    if g.bool() {
        let x = v(g);
        o[k] = x;
    } else {
        o[k] = J::Null;
    }
}
fn word(g: &mut Gen) -> String {
    g.pick(&["Attack", "Move", "Stop", "Cancel", "Burrow", "a b", "Lift&Land", "x<y", "Zürich", "quo\"te"]).to_string()
}
fn meta(g: &mut Gen) -> J {
    let mut m = json!({"@name": word(g), "@tooltip": word(g)});
    opt(g, &mut m, "@icon", |g| json!(word(g)));
    opt(g, &mut m, "@race", |g| json!(word(g)));
    opt(g, &mut m, "@hotkey", |g| json!(word(g)));
    opt(g, &mut m, "@source", |g| json!(word(g)));
    opt(g, &mut m, "@index", |g| json!(g.bits(32)));
    opt(g, &mut m, "@type", |g| json!(word(g)));
    m
}
fn cost(g: &mut Gen) -> J {
    let mut m = json!({});
    opt(g, &mut m, "@minerals", |g| json!(g.bits(32)));
    opt(g, &mut m, "@vespene", |g| json!(g.bits(32)));
    opt(g, &mut m, "@supply", f);
    opt(g, &mut m, "@time", f);
    opt(g, &mut m, "@energy", |g| json!(g.bits(32)));
    opt(g, &mut m, "@cooldown", f);
    opt(g, &mut m, "@life", |g| json!(g.bits(32)));
    m
}
pub fn ability_id(g: &mut Gen) -> u64 {
    *g.pick(&[0u64, 1, 2, 3, 65535])
}
pub fn command_index(g: &mut Gen) -> i64 {
    *g.pick(&[0i64, 1, 2, 31])
}
fn list(g: &mut Gen, max: usize, mut one: impl FnMut(&mut Gen) -> J) -> J {
    let n = g.idx(max + 1);
    J::Array((0..n).map(|_| one(g)).collect())
}
fn short(g: &mut Gen) -> J {
    json!({"@id": word(g), "@name": word(g)})
}
fn unit_ref(g: &mut Gen) -> J {
    let mut u = json!({"@id": word(g)});
    opt(g, &mut u, "@name", |g| json!(word(g)));
    if g.chance(3, 4) {
        u["@ability"] = json!(ability_id(g));
    } else {
        u["@ability"] = J::Null;
    }
    if g.chance(3, 4) {
        u["@index"] = json!(command_index(g));
    } else {
        u["@index"] = J::Null;
    }
    opt(g, &mut u, "meta", meta);
    opt(g, &mut u, "cost", cost);
    u["requires"] = json!({"unit": list(g, 1, short)});
    u
}
pub fn abilities(g: &mut Gen) -> J {
    let l = list(g, 3, |g| {
        let mut a = json!({"@id": word(g)});
        if g.chance(4, 5) {
            a["@index"] = json!(ability_id(g));
        } else {
            a["@index"] = J::Null;
        }
        a["command"] = list(g, 2, |g| {
            let mut c = json!({"@index": command_index(g), "meta": {"@name": "n", "@tooltip": "t"}});
            opt(g, &mut c, "@id", |g| json!(word(g)));
            c
        });
        a
    });
    json!({"ability": l})
}
/// A small definition: what the replay state uses.
pub fn plain_unit(id: &str, radius: Option<f64>) -> J {
    json!({"@id": id, "meta": {"@name": "n", "@tooltip": "t"}, "life": {"@start": 1, "@max": 2}, "armor": {"@start": 0, "@max": 1},
        "shieldArmor": {"@start": 0, "@max": 1}, "score": {}, "misc": {"@radius": radius}})
}
pub fn command_tables(g: &mut Gen, u: &mut J) {
    u["abilities"] = abilities(g);
    u["trains"] = json!({"unit": list(g, 2, unit_ref)});
    u["builds"] = json!({"unit": list(g, 2, unit_ref)});
    if g.bool() {
        u["researches"] = json!({"upgrade": list(g, 2, |g| json!({"@id": word(g), "@ability": ability_id(g), "@index": command_index(g), "meta": meta(g), "cost": cost(g)}))});
    } else {
        u["researches"] = J::Null;
    }
}
fn full_unit(g: &mut Gen, id: &str) -> J {
    let mut u = json!({"@id": id, "meta": meta(g)});
    u["life"] = json!({"@start": g.bits(32), "@max": g.bits(32)});
    opt(g, &mut u["life"], "@regenRate", f);
    opt(g, &mut u, "shields", |g| {
        let mut s = json!({"@start": g.bits(32), "@max": g.bits(32), "@regenRate": f(g)});
        opt(g, &mut s, "@delay", f);
        s
    });
    u["armor"] = json!({"@start": g.bits(32), "@max": g.bits(32)});
    u["shieldArmor"] = json!({"@start": g.bits(32), "@max": g.bits(32)});
    u["requires"] = json!({"unit": list(g, 2, short)});
    opt(g, &mut u, "cost", cost);
    opt(g, &mut u, "movement", |g| {
        let mut m = json!({"@type": word(g), "@speed": f(g), "@acceleration": f(g), "@deceleration": f(g)});
        opt(g, &mut m, "@turnRate", f);
        m
    });
    let mut s = json!({});
    opt(g, &mut s, "@build", |g| json!(g.bits(32)));
    opt(g, &mut s, "@kill", |g| json!(g.bits(32)));
    u["score"] = s;
    let mut m = json!({});
    for k in ["@radius", "@sightRadius", "@supply", "@range", "@speed"] {
        opt(g, &mut m, k, f);
    }
    for k in ["@cargoSize", "@count", "@cargoCapacity"] {
        opt(g, &mut m, k, |g| json!(g.bits(32)));
    }
    for k in ["@footprint", "@targets"] {
        opt(g, &mut m, k, |g| json!(word(g)));
    }
    u["misc"] = m;
    opt(g, &mut u, "producer", short);
    u["attributes"] = json!({"attribute": list(g, 2, |g| json!({"@type": word(g)}))});
    u["strengths"] = json!({"unit": list(g, 2, short)});
    u["weaknesses"] = json!({"unit": list(g, 2, short)});
    u["weapons"] = json!({"weapon": list(g, 1, |g| json!({"@id": word(g), "@index": g.bits(32), "meta": meta(g), "misc": J::Null, "score": J::Null}))});
    command_tables(g, &mut u);
    u["upgrades"] = json!({"upgrade": list(g, 1, |g| json!({"@id": word(g), "level": []}))});
    u
}
pub fn unit_of(j: &J) -> VersionedBalanceUnit {
    serde_json::from_value(j.clone()).unwrap_or_else(|e| panic!("harness: balance unit {e}: {j}"))
}

/// The name of a command of a unit: its abilities, then what it trains, builds and researches.
pub fn ability_name(u: Option<&J>, ability: u64, command: i64) -> String {
    let Some(u) = u else { return String::new() };
    let arr = |o: &J, a: &str, b: &str| -> Vec<J> { o.get(a).and_then(|x| x.get(b)).and_then(|x| x.as_array()).cloned().unwrap_or_default() };
    for a in arr(u, "abilities", "ability") {
        if a["@index"].as_u64() == Some(ability) {
            for c in a["command"].as_array().unwrap() {
                if c["@index"].as_i64() == Some(command) {
                    return format!("{}.{}", a["@id"].as_str().unwrap(), c["@id"].as_str().unwrap_or(""));
                }
            }
        }
    }
    for (tag, what, ab) in [("trains", "unit", "Train"), ("builds", "unit", "Build"), ("researches", "upgrade", "Research")] {
        for t in arr(u, tag, what) {
            if t["@ability"].as_u64() == Some(ability) && t["@index"].as_i64() == Some(command) {
                return format!("{ab}.{}", t["@id"].as_str().unwrap());
            }
        }
    }
    String::new()
}

fn c21_names(g: &mut Gen) -> Res {
    let mut defs = BTreeMap::new();
    let n = 1 + g.idx(2);
    for i in 0..n {
        let id = format!("Unit{i}");
        let mut u = plain_unit(&id, None);
        command_tables(g, &mut u);
        defs.insert(id, u);
    }
    let units: VersionedBalanceUnits = defs.iter().map(|(k, v)| (k.clone(), unit_of(v))).collect();
    let mut named = 0;
    for name in ["Unit0", "Unit1", "Unit2", ""] {
        for a in [0u64, 1, 2, 3, 65535] {
            for c in [0i64, 1, 2, 31, -1] {
                let got = get_indexed_ability_command_name(&units, name, a as u16, c);
                let want = ability_name(defs.get(name), a, c);
                named += (!want.is_empty()) as u32;
                ensure!(got == want, "ability {a} command {c} of {name:?} is {got:?}, expected {want:?}: {:?}", defs.get(name));
            }
        }
    }
    if named == 0 {
        g.trivial();
    }
    g.label(format!("{} names", if named > 4 { "more than 4".to_string() } else { named.to_string() }));
    g.sample(|| format!("{named} named commands in {:?}", defs.values().next()));
    Ok(())
}

pub type Map = HashMap<(u32, String), VersionedBalanceUnit>;
pub fn cmp(want: &BTreeMap<(u32, String), J>, got: &Map) -> Res {
    let a: Vec<_> = want.keys().cloned().collect();
    let mut b: Vec<_> = got.keys().cloned().collect();
    b.sort();
    ensure_eq!(b, a, "units");
    for (k, w) in want {
        let g = to_json(&got[k]);
        let r = unit_of(w);
        let j = to_json(&r);
        ensure!(g == j, "unit {k:?}: got {g}, expected {j}");
        // also what is not written
        ensure_eq!(format!("{:?}", got[k]), format!("{r:?}"), "unit {k:?}");
        if let Err(e) = holds(w, &g) {
            return Err(format!("unit {k:?}: {e}: got {g}, expected {w}"));
        }
    }
    Ok(())
}
/// Every value of the definition is reported.
fn holds(w: &J, g: &J) -> Res {
    match (w, g) {
        (J::Null, _) => Ok(()),
        (J::Object(a), J::Object(b)) => {
            for (k, v) in a {
                if !v.is_null() && !v.as_array().is_some_and(|v| v.is_empty()) {
                    let x = b.get(k).ok_or(format!("{k} is lost"))?;
                    holds(v, x).map_err(|e| format!("{k}: {e}"))?;
                }
            }
            Ok(())
        }
        (J::Array(a), J::Array(b)) => {
            ensure_eq!(b.len(), a.len(), "elements");
            a.iter().zip(b).try_for_each(|(a, b)| holds(a, b))
        }
        (J::Number(a), J::Number(b)) if (a.is_f64() || b.is_f64()) && a.as_f64().unwrap() as f32 == b.as_f64().unwrap() as f32 => Ok(()),
        _ if w == g => Ok(()),
        _ => Err(format!("is {g}, expected {w}")),
    }
}
pub fn gen_map(g: &mut Gen, full: bool) -> BTreeMap<(u32, String), J> {
    let mut m = BTreeMap::new();
    for _ in 0..1 + g.idx(6) {
        let v = *g.pick(&[94137u32, 0, u32::MAX]);
        let mut name = g.pick(&["Marine", "SCV", "Zürich", "A B", "x.y", "Drone2", "-1"]).to_string();
        if g.chance(1, 4) {
            name = (0..1 + g.idx(12)).map(|_| *g.pick(&['a', 'Z', '_', '.', '-', ' ', '@', '#', '(', '\'', 'é', '0'])).collect();
        }
        let u = if full { full_unit(g, &name) } else { plain_unit(&name, Some(1.5)) };
        m.insert((v, name), u);
    }
    m
}

fn c21_json(g: &mut Gen) -> Res {
    let dir = g.dir.join("json");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let m = gen_map(g, true);
    // what is next to the units is left out
    let junk = g.below(4);
    if junk & 1 == 1 {
        std::fs::write(dir.join("README"), "x").unwrap();
        std::fs::create_dir_all(dir.join("not a version")).unwrap();
        std::fs::write(dir.join("not a version").join("Marine.json"), "{").unwrap();
    }
    if junk & 2 == 2 {
        std::fs::create_dir_all(dir.join("94137").join("folder")).unwrap();
        std::fs::write(dir.join("94137").join("folder").join("Marine.json"), "{").unwrap();
    }
    // files of the same name are replaced
    if g.chance(1, 3) {
        for (v, n) in m.keys() {
            let p = dir.join(v.to_string()).join(format!("{n}.json"));
            std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
            let len = 1 << g.idx(16);
            std::fs::write(p, "x".repeat(len)).map_err(|e| e.to_string())?;
        }
    }
    let data: Map = m.iter().map(|(k, v)| (k.clone(), unit_of(v))).collect();
    s2protocol::game_events::write_balance_data_to_json(&dir, data).map_err(|e| format!("write: {e}"))?;
    let got = s2protocol::game_events::read_balance_data_from_json_dir(&dir).map_err(|e| format!("read: {e}"))?;
    cmp(&m, &got)?;
    // written again over the same folder
    s2protocol::game_events::write_balance_data_to_json(&dir, got).map_err(|e| format!("second write: {e}"))?;
    let again = s2protocol::game_events::read_balance_data_from_json_dir(&dir).map_err(|e| format!("second read: {e}"))?;
    cmp(&m, &again)?;
    let _ = std::fs::remove_dir_all(&dir);
    g.label(format!("{} units", m.len()));
    g.sample(|| format!("{:?}", m.keys().collect::<Vec<_>>()));
    Ok(())
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}
/// The XML of a definition: `@` keys are attributes, others are elements.
pub fn xml(tag: &str, j: &J, out: &mut String) {
    let o = j.as_object().unwrap();
    out.push('<');
    out.push_str(tag);
    for (k, v) in o {
        if let (Some(k), false) = (k.strip_prefix('@'), v.is_null()) {
            let t = v.as_str().map(esc).unwrap_or_else(|| v.to_string());
            out.push_str(&format!(" {k}=\"{t}\""));
        }
    }
    out.push('>');
    for (k, v) in o {
        if k.starts_with('@') {
            continue;
        }
        match v {
            J::Array(a) => a.iter().for_each(|x| xml(k, x, out)),
            J::Object(_) => xml(k, v, out),
            _ => {}
        }
    }
    out.push_str(&format!("</{tag}>"));
}

fn c21_xml(g: &mut Gen) -> Res {
    let dir = g.dir.join("xml");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let m = gen_map(g, true);
    for ((v, n), u) in &m {
        let d = dir.join(v.to_string()).join("BalanceData");
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
        xml("unit", u, &mut s);
        std::fs::write(d.join(format!("{n}.xml")), s).unwrap();
    }
    let junk = g.below(4);
    if junk & 1 == 1 {
        std::fs::create_dir_all(dir.join("94138")).unwrap();
        std::fs::create_dir_all(dir.join("text").join("BalanceData")).unwrap();
        std::fs::write(dir.join("text").join("BalanceData").join("Marine.xml"), "<unit").unwrap();
    }
    if junk & 2 == 2 {
        let d = dir.join("5").join("BalanceData");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("Broken.xml"), "<unit id=\"Broken\"").unwrap();
        std::fs::write(d.join("Other.txt"), "text").unwrap();
    }
    let got = s2protocol::game_events::traverse_versioned_balance_abilities(&dir).map_err(|e| format!("read: {e}"))?;
    cmp(&m, &got)?;
    let _ = std::fs::remove_dir_all(&dir);
    g.sample(|| format!("{:?}", m.keys().collect::<Vec<_>>()));
    Ok(())
}

/// What is included in the crate is what is in its assets.
fn c21_included(g: &mut Gen) -> Res {
    let got = s2protocol::game_events::read_balance_data_from_included_assets().map_err(|e| format!("{e}"))?;
    let mut want = BTreeMap::new();
    for v in std::fs::read_dir("/repo/assets/BalanceData").map_err(|e| e.to_string())?.filter_map(|e| e.ok()) {
        let Ok(version) = v.file_name().to_string_lossy().parse::<u32>() else { continue };
        for u in std::fs::read_dir(v.path()).map_err(|e| e.to_string())?.filter_map(|e| e.ok()) {
            let j: J = serde_json::from_slice(&std::fs::read(u.path()).unwrap()).map_err(|e| e.to_string())?;
            want.insert((version, u.file_name().to_string_lossy().trim_end_matches(".json").to_string()), j);
        }
    }
    cmp(&want, &got)?;
    g.sample(|| format!("{} units", want.len()));
    Ok(())
}
