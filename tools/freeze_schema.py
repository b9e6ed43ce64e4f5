#!/usr/bin/env python3
"""Turns the output of extract_schema.py (written to DIR) into the frozen wire schemas the
harness uses as its reference (harness/schema/*.json). Run once, by hand; no check runs it: the
frozen files are the specification, and they were reviewed against the published layout."""
import json, sys, os
src = sys.argv[1]; out = os.path.join(os.path.dirname(__file__), '..', 'harness', 'schema')
def ld(n): return json.load(open(os.path.join(src, n + '.json')))
bit, old, byt = ld('bit87702'), ld('bit75689'), ld('byte87702')
def fixfield(d, ty, name, new):
    for f in d[ty]['f']:
        if f[0] == name: f[2] = new; return
    raise SystemExit((ty, name))
byt['Smd5']['f'] = [["m_data_deprecated", 0, {"opt": {"arr": {"vlq": "u8"}}}], ["m_data", 1, "blob"]]
fixfield(byt, 'GameSPlayerDetails', 'm_working_set_slot_id', {"opt": {"vlq": "u8"}})
for t in ('tag_index', 'tag_recycle'):
    fixfield(byt, 'ReplayTrackerSUnitBornEvent', 'm_creator_unit_' + t, {"opt": {"vlq": "u32"}})
    fixfield(byt, 'ReplayTrackerSUnitDiedEvent', 'm_killer_unit_' + t, {"opt": {"vlq": "u32"}})
fixfield(byt, 'ReplayTrackerSUnitDiedEvent', 'm_killer_player_id', {"opt": {"vlq": "u8"}})
fixfield(byt, 'ReplayTrackerSPlayerSetupEvent', 'm_user_id', {"opt": {"vlq": "u32"}})
fixfield(byt, 'ReplayTrackerSPlayerSetupEvent', 'm_slot_id', {"opt": {"vlq": "u32"}})
fixfield(byt, 'ReplayTrackerSUnitPositionsEvent', 'm_items', {"arr": {"vlq": "i32"}})
for n in ('m_time_utc', 'm_time_local_offset'):
    fixfield(byt, 'GameSDetails', n, {"vlq": "i64"})
for d in (bit, old, byt):
    for v in d.values(): v.pop('_decl', None)
legacy = dict(bit); legacy.update(old)
os.makedirs(out, exist_ok=True)
def dump(n, d):
    with open(os.path.join(out, n), 'w') as f:
        f.write('{\n' + ',\n'.join(json.dumps(k) + ': ' + json.dumps(v) for k, v in d.items()) + '\n}\n')
dump('bit_modern.json', bit); dump('bit_legacy_overrides.json', old); dump('versioned.json', byt)
rest = json.dumps(byt)
assert '"vlq": null' not in rest and '"tagged_vlq_int"' not in rest, rest
