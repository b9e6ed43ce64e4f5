#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The tests decode a few fixed byte strings and three recorded replays; "
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state, note=note, technique=technique))

p("C01", "Bit-packed primitives read exactly the bits that were written",
  "Reading booleans, unsigned and biased integers of any width up to 64 bits, fixed four byte codes, bit arrays and byte strings from a bit-packed buffer, at any bit position and in any sequence, returns the values that were written there and advances the position by exactly the bits they take. Byte strings start at the next byte boundary. A read beyond the end of the buffer is reported as incomplete and never yields a value.",
  ["inputs"], "every buffer, bit position, width and sequence of reads",
  TESTS + "widths, offsets and their combinations are unbounded.",
  ["src/bit_packed_decoder.rs"],
  [("rtake_n_bits, parse_packed_int, parse_bool, byte_align, take_* readers", "src/bit_packed_decoder.rs")],
  observe=["s2protocol::bit_packed_decoder public functions"],
  technique="property-based testing: random read sequences against an independent bit reader",
  note="random buffers, positions, widths and read sequences; the oracle is an independent bit reader")
p("C02", "Tagged values and variable length numbers decode to what was encoded",
  "Every signed 64-bit number survives being written as a variable length number and read back, consuming exactly its bytes. Tagged scalars, byte strings, optionals and arrays decode to what was encoded, a wrong tag is an error, and a value of any kind that is not needed is skipped to exactly its end. Truncated values are reported as incomplete and numbers that do not fit 64 bits are an error instead of a wrong number.",
  ["inputs"], "every 64-bit number and every byte string",
  TESTS + "only a handful of numbers are decoded.",
  ["src/versioned_decoder.rs"],
  [("parse_vlq_int, validate_*_tag, tagged_* readers", "src/versioned_decoder.rs")],
  observe=["s2protocol::versioned_decoder public functions"],
  technique="property-based testing: round trip and differential against an independent codec",
  note="boundary-biased numbers, arbitrary bytes, tagged values with right and wrong tags")
p("C03", "Game events of the current protocol decode field by field",
  "A game event of any kind encoded for the current protocol, at any bit position, is decoded to the time step, user, kind and field values that were encoded: field order, widths, biases, optional parts, choices, arrays and alignment all match the format. Decoding ends exactly where the encoding ends. An unknown event kind or a truncated event is an error.",
  ["inputs"], "all event kinds, all values of all fields, all start bits",
  TESTS + "about a dozen recorded events are decoded at byte positions, a few of the 120 kinds.",
  ["src/versions/protocol87702/mod.rs", "src/bit_packed_decoder.rs", "src/game_events/iterator.rs"],
  [("generated parsers of the protocol", "src/versions/protocol87702/mod.rs"), ("primitives", "src/bit_packed_decoder.rs")],
  observe=["s2protocol::versions::protocol87702::bit_packed::GameEEventId::parse_event_triplet and its Debug rendering"],
  technique="property-based testing: generate from a frozen schema, encode, decode, compare",
  note="every field random over its full range (boundary-biased); the frozen schema is the specification. Known finding: an empty string or bit array decodes as one NUL byte")
p("C04", "Game events of the older protocol decode field by field",
  "A game event of any kind encoded for replays up to base build 75689, at any bit position, is decoded to the time step, user, kind and field values that were encoded with that protocol, including the fields and widths in which it differs from the current one. Decoding ends exactly where the encoding ends. An unknown event kind or a truncated event is an error.",
  ["inputs"], "all event kinds of the older protocol, all values of all fields, all start bits",
  TESTS + "only one recorded replay uses the older protocol.",
  ["src/versions/protocol75689/mod.rs", "src/bit_packed_decoder.rs"],
  [("generated parsers of the protocol", "src/versions/protocol75689/mod.rs")],
  observe=["s2protocol::versions::protocol75689::bit_packed::GameEEventId::parse_event_triplet"],
  technique="property-based testing: generate from a frozen schema, encode, decode, compare",
  note="as C03 with the schema of the older protocol")
p("C05", "Tracker events decode whatever the order of their fields",
  "A tracker event of any kind, in both protocols, is decoded to the time step, kind and field values that were encoded, whatever the order in which the tagged fields are written, and with optional fields that are left out reported as absent. Unknown fields are skipped. A missing required field, a value that does not fit its field, an unknown event kind or a truncated event is an error instead of a wrong event.",
  ["inputs"], "all event kinds, field orders, field values and defects",
  TESTS + "their fields are always in the usual order and complete.",
  ["src/versions/protocol75689/mod.rs", "src/versions/protocol87702/mod.rs", "src/versioned_decoder.rs"],
  [("generated parsers of the protocols", "src/versions/*/mod.rs"), ("tagged readers", "src/versioned_decoder.rs")],
  observe=["ReplayTrackerEEventId::parse_event_pair of both protocols"],
  technique="property-based testing: generate from a frozen schema, encode with shuffled fields and defects, decode, compare",
  note="fields shuffled, optionals left out, one defect injected")
p("C06", "Replay header and details report what the file says",
  "The header of a replay and its details (players, their colours, teams, results, handicaps, map, times, cache handles, mod paths) are reported with exactly the values in the file, whatever the order of the tagged fields and for every base build. Text that is not valid UTF-8 is an error and never altered text.",
  ["inputs"], "all headers and details",
  "The tests read three recorded replays.",
  ["src/details.rs", "src/versions/protocol87702/events/details.rs", "src/versions/mod.rs", "src/protocol_version_decoder.rs"],
  [("read_protocol_header", "src/versions/mod.rs"), ("read_details and the conversion into Details", "src/versions/mod.rs, src/details.rs")],
  observe=["read_protocol_header, read_details"],
  technique="property-based testing: synthesized archives, expected values from the generator",
  note="archives are synthesized by an independent writer")
p("C07", "Lobby data reports what the file says, for both layouts",
  "The lobby data of a replay (users, game description and options, cache handles, lobby slots, observers, handicaps, licences) is reported with exactly the values in the file, for replays of both layouts. Parts that the older layout does not have are reported as zero or empty, never as values of other fields.",
  ["inputs"], "all lobby data of both layouts",
  "The tests read three recorded replays and one byte string.",
  ["src/init_data/mod.rs", "src/versions/protocol87702/events/init_data.rs", "src/versions/protocol75689/mod.rs", "src/versions/protocol87702/mod.rs"],
  [("read_init_data and the conversions into InitData", "src/versions/mod.rs, src/init_data/mod.rs")],
  observe=["read_init_data, InitData"],
  technique="property-based testing: synthesized archives, expected values from the generator",
  note="every field random; both layouts")
p("C08", "The message stream reports every chat message and ping in order",
  "Reading the messages of a replay returns each message that the library reports, in file order, with its user, recipient and content as written. The time step of a message includes the time of the messages between it and the previous reported one, so that absolute times are right.",
  ["inputs"], "all sequences of messages, base builds and field values",
  "The tests read the messages of recorded replays without comparing them.",
  ["src/message_events.rs", "src/versions/mod.rs", "src/versions/protocol87702/events/message/mod.rs"],
  [("read_message_events", "src/versions/mod.rs")],
  observe=["read_message_events"],
  technique="property-based testing: synthesized message streams, expected values from the generator",
  note="all kinds of messages; invalid text")
p("C09", "Reading all game events returns each reported event with its absolute time",
  "Reading the game events of a replay returns every event of a kind that the library reports, in file order, with its user and field values as written. The sum of the time steps up to an event is its absolute time even when events that are not reported lie between.",
  ["inputs"], "all sequences of game events, base builds and field values",
  "The tests count the events of recorded replays.",
  ["src/versions/mod.rs", "src/versions/protocol75689/mod.rs", "src/versions/protocol87702/events/game/mod.rs", "src/game_events/mod.rs"],
  [("read_game_events", "src/versions/mod.rs")],
  observe=["read_game_events"],
  technique="property-based testing: synthesized event streams, expected values from the generator",
  note="all kinds of events, both protocols")
p("C10", "Reading all tracker events returns each event with its absolute time",
  "Reading the tracker events of a replay returns every event (unit births, deaths, changes, positions, player statistics, upgrades, player set-ups) in file order with its field values as written. The sum of the time steps up to an event is its absolute time even when events that cannot be reported lie between.",
  ["inputs"], "all sequences of tracker events, base builds and field values",
  "The tests count the events of recorded replays.",
  ["src/versions/mod.rs", "src/versions/protocol87702/events/tracker/mod.rs", "src/tracker_events/mod.rs"],
  [("read_tracker_events", "src/versions/mod.rs")],
  observe=["read_tracker_events"],
  technique="property-based testing: synthesized event streams, expected values from the generator",
  note="all kinds of events, both protocols")
p("C14", "The unit registry follows births, changes, moves and deaths",
  "After any history of events the registered units are exactly those that were born, initialized or changed and have not died, each with the name, owner, owner name, position, size, colour, construction state and times of its latest events, and dead units are gone from it. Each tracker event reports exactly the units it registered, changed, moved or removed, with their state after the event, together with the creator, former state or killer where these are known. Player set-ups link a tracker player to the user that owns it, and names of owners and upgrades follow that link.",
  ["histories"], "all histories of tracker and game events",
  "No test looks at the state; correctness depends on histories (rebirth, morphs while selected, deaths of killers).",
  ["src/tracker_events/state.rs", "src/state/mod.rs", "src/state/unit_props.rs"],
  [("handle_tracker_event and its handlers", "src/tracker_events/state.rs"), ("set_unit_props", "src/state/mod.rs")],
  state=[("units", "registered units by index", "src/state/mod.rs SC2ReplayState"), ("user_state", "per user link to the tracker player", "src/state/mod.rs SC2ReplayState")],
  observe=["SC2ReplayState::handle_transition_to_next_event, units, user_state"],
  technique="stateful model-based testing against a reference model",
  note="histories of up to 80 events; a unit that already exists and is initialized again keeps size and colour; a change of owner is not judged")
p("C15", "Selections and control groups follow the player's actions",
  "After any history of events each user's control groups and current selection hold exactly the units that set, append, steal, clear, recall and selection changes of that user put there, dead units are in no group of any user, and other users' groups are untouched. A unit is marked as selected, and drawn twice as big, exactly from the selection that added it until it leaves that selection. Each selection change or recall reports exactly the units whose selection it touched, once, in their state after the event; other group changes report none and unknown groups are ignored.",
  ["histories"], "all histories of selection, control group and tracker events of several users",
  "No test looks at selections; correctness depends on histories of several events.",
  ["src/game_events/state.rs", "src/tracker_events/state.rs", "src/state/mod.rs"],
  [("handle_selection_delta, update_control_group, mark/unmark", "src/game_events/state.rs"), ("handle_unit_died", "src/tracker_events/state.rs")],
  state=[("control_groups", "ten groups and the current selection of a user", "src/state/mod.rs SC2UserState"), ("is_selected, radius", "selection mark of a unit", "src/state/mod.rs SC2Unit")],
  observe=["SC2ReplayState::handle_transition_to_next_event, units, user_state"],
  technique="stateful model-based testing against a reference model",
  note="selection replacement semantics as implemented (remove masks are not modelled); a unit is selected by one user at a time; clearing the current selection as a group is not generated")
p("C16", "Commands reach exactly the selected units and resolve their target",
  "A command is recorded on every registered unit that is selected by the user who gave it, and on no other unit, with its flags, ability, ability name, data, sequence and target as given; the event reports those units and, for a targeted unit, that unit. Updates of a target point or target unit change the target of exactly those units. Camera events move the camera of their user only, and all other events are passed on unchanged and change nothing.",
  ["histories"], "all histories of commands, selections and tracker events of several users",
  "No test looks at commands; correctness depends on what is selected and registered at that time.",
  ["src/game_events/state.rs", "src/state/unit_cmd.rs", "src/game_events/ability/mod.rs"],
  [("handle_cmd, handle_update_target_point, handle_update_target_unit, camera handlers", "src/game_events/state.rs"), ("conversions of commands", "src/state/unit_cmd.rs"), ("get_indexed_ability_command_name", "src/game_events/ability")],
  state=[("cmd", "latest command of a unit", "src/state/mod.rs SC2Unit"), ("camera_pos", "camera of a user", "src/state/mod.rs SC2UserState")],
  observe=["SC2ReplayState::handle_transition_to_next_event, units, user_state"],
  technique="stateful model-based testing against a reference model",
  note="the ability name of the returned event is judged leniently: that of one of the selected units")
p("C21", "Unit definitions survive reading and writing and name the right abilities",
  "Unit definitions read from their files report every value as written, for each version and each unit in it, and survive being written and read back. The name of an ability command of a unit is found by its ability and command index among the unit's abilities, then what it trains, builds and researches; an unknown unit, ability or command has an empty name. Files that are not unit definitions do not disturb the others.",
  ["inputs", "configurations"], "all folders of unit definitions and all ability and command indexes",
  "The tests read the bundled files only.",
  ["src/game_events/ability/mod.rs", "src/game_events/ability/balance_data"],
  [("read_balance_data_from_*, get_indexed_ability_command_name", "src/game_events/ability")],
  observe=["public functions of the ability module"],
  technique="property-based testing: round trip through files and a reference look-up",
  note="folders in scratch space; JSON and XML")
p("C27", "The base build of a replay selects the protocol it is read with",
  "Replays up to and including base build 75689 are read with the layout of that protocol, later ones with the current layout, whatever the build, for game events, tracker events, messages, details and lobby data alike.",
  ["inputs", "configurations"], "all base builds",
  "The tests cover the builds of three recorded replays.",
  ["src/versions/mod.rs", "src/game_events/iterator.rs", "src/tracker_events/iterator.rs"],
  [("dispatch on the base build", "src/versions/mod.rs"), ("dispatch of the iterators", "src/game_events/iterator.rs, src/tracker_events/iterator.rs")],
  observe=["read_game_events, read_tracker_events, read_init_data, read_details, read_message_events"],
  technique="property-based testing: content that differs between the layouts, over base builds",
  note="biased to the boundary and to listed builds")

exec(open(os.path.join(V, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta_more.py")) else None
P.sort(key=lambda q: q["id"])
NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
        if q["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]]
        if q["observe"]:
            a["observe_at"] = q["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [], "not_applicable": []}
ids = {q["id"] for q in P}
for q in P:
    if q.get("note") is None:
        continue
    m["checks"].append({"property": q["id"], "quick_cmd": f"./run.sh {q['id']} quick", "thorough_cmd": f"./run.sh {q['id']} thorough", "evidence_file": f"evidence/{q['id']}.json", "technique": q["technique"], "level": "exploration", "level_note": q["note"]})
for i, r in NA:
    if i in ids:
        m["not_applicable"].append({"property": i, "reason": r})
m["notes"] = "One harness crate (harness/) holds all checks; run.sh rebuilds it when /repo's sources change. './run.sh replay <file>' replays a violation."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import sys
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(P), "properties", len(m["checks"]), "checks")
except ImportError:
    print("jsonschema missing")
