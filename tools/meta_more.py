p("C11", "Streaming iterators report what reading at once reports",
  "Reading game events or tracker events one by one reports the same events, in the same order, as reading them all at once, each with its absolute time: the sum of all the time steps up to it, including those of events that are not reported. Events that are not reported or whose text is invalid are skipped without ending the stream, game events carry the name of the player of their user if that user is known, and an iterator saved and restored at any point goes on where it was.",
  ["inputs", "histories"], "all event streams and all points at which the iterator is saved",
  TESTS + "the streams that mix skipped events, large time steps and restored iterators are not among them.",
  ["src/game_events/iterator.rs", "src/tracker_events/iterator.rs", "src/versions/mod.rs"],
  [("GameEventIteratorState::get_next_event", "src/game_events/iterator.rs"), ("TrackertEventIteratorState::get_next_event", "src/tracker_events/iterator.rs")],
  state=[("event_loop, byte_index, bit_index", "position in the stream", "src/game_events/iterator.rs, src/tracker_events/iterator.rs")],
  observe=["GameEventIteratorState, TrackertEventIteratorState, read_game_events, read_tracker_events"],
  technique="property-based testing: generated streams against their generator and against eager reading; save and restore",
  note="random streams of both protocols and the recorded replays; saved as JSON and restored at random points")
p("C12", "The replay iterator merges both streams in time order and keeps the state",
  "Iterating a replay yields every reported tracker event and game event exactly once, in order of their time, tracker events first at the same time and otherwise each stream in its own order, each with the change that it makes to the state at that moment, and then ends for good. Only unit definitions of the version of the replay are used. Saving the iterator and restoring it at any point does not change what follows, and the state at the end is that after all events.",
  ["inputs", "histories"], "all pairs of streams, all interleavings and ties, all points at which the iterator is saved",
  "The tests take no look at the merged order; it depends on the interleaving of two streams.",
  ["src/state/mod.rs", "src/game_events/iterator.rs", "src/tracker_events/iterator.rs"],
  [("SC2EventIterator::next", "src/state/mod.rs"), ("SC2EventIterator::new", "src/state/mod.rs")],
  state=[("next_tracker_event, next_game_event", "the event of each stream that comes next", "src/state/mod.rs"), ("sc2_state", "state after the events returned so far", "src/state/mod.rs")],
  observe=["SC2EventIterator, SC2EventIteratorItem, sc2_state"],
  technique="stateful model-based testing: a reference merge of generated streams; save and restore",
  note="synthesized replays with ties, empty streams, large steps; the state handlers themselves are judged by C14-C16")
p("C13", "Filters select exactly the matching events and do not disturb the state",
  "With filters, the iterator yields exactly the events that match all of them, in order: those within the loop range (both ends included); for a player, the game events of that user, the upgrades, setups and statistics of that player, and the units born, initialized or given to that player or killed by it; for a unit name, the units born, initialized or changed into it; statistics only when asked for; kinds a filter says nothing about pass it. At most the given number of events is returned, and events that are filtered out still change the state. The player set from a name is the working slot of the player of that name.",
  ["inputs", "configurations"], "all replays and all combinations of filter values",
  "No test uses filters; their combinations with the events are unbounded.",
  ["src/filters.rs", "src/state/mod.rs", "src/tracker_events/mod.rs"],
  [("shoud_skip_event, should_skip of every event", "src/state/mod.rs, src/tracker_events/*.rs, src/game_events/mod.rs"), ("event limit", "src/filters.rs")],
  state=[("max_events", "events that may still be returned", "src/filters.rs")],
  observe=["SC2EventIterator::with_filters, SC2ReplayFilters"],
  technique="property-based testing: a reference predicate over the unfiltered items",
  note="filter values are taken from the events that occur; the unit_tag and event_type filters have no effect today and are not judged")
p("C20", "Players are joined with their lobby slots and keep all their data",
  "The players of a replay are those of its details, in order, joined with the first lobby slot of the same working slot; players without one are left out. Each carries its details, lobby slot, map title, game description, times, cache handles, the name and clan tag of the user at the position of the lobby slot, and the identifier, file name and hash of the replay; the state starts with exactly the joined players that have a user. The flat row of a player and of a lobby user reports these values unchanged (a date before 1678 or after 2261 excepted), with the kind and region of the first valid cache handle and all their hashes; observers are not listed as players.",
  ["inputs"], "all details and lobby data, including those that do not match",
  "The tests look at recorded replays in which everybody matches.",
  ["src/details.rs", "src/init_data/mod.rs", "src/init_data/arrow_store.rs", "src/state/mod.rs"],
  [("TryFrom<&InitData> for Vec<PlayerLobbyDetails>", "src/details.rs"), ("PlayerLobbyDetailsFlatRow::from", "src/details.rs"), ("UserInitDataFlatRow", "src/init_data/arrow_store.rs"), ("TryFrom<&InitData> for SC2ReplayState", "src/state/mod.rs")],
  observe=["Vec<PlayerLobbyDetails>, PlayerLobbyDetailsFlatRow, UserInitDataFlatRow, SC2ReplayState::user_state, Details::get_player_names"],
  technique="property-based testing: a reference join over synthesized archives",
  note="working slots out of a small set so that players match, collide or miss")
p("C19", "Flat rows and exported Arrow files carry exactly the reported events",
  "The flat rows of a replay follow its reported events, in order: one row for each statistic and upgrade event; one birth row for each unit born, done or changed in type that is registered; one death row for each death of a registered unit, with the victim, the killer and their names; one row for each selected unit of each command aimed at a point or a unit. Rows carry the event's own fields, the event's loop, its time as loop times 68.58391 ms cut to whole seconds, and the identifier of the replay. An exported Arrow file holds exactly these rows of the chosen replays (readable, build within the asked range with both ends included, at most the asked number), the same serially and in parallel, in the order of the replays when serial.",
  ["inputs", "configurations"], "all replays, all folders of replays, all export options",
  TESTS + "no test exports anything.",
  ["src/arrow_store/mod.rs", "src/arrow_store/ipc_writer.rs", "src/tracker_events/arrow_store", "src/game_events/arrow_store"],
  [("ArrowIpcTypes::handle_arrow_ipc_cmd", "src/arrow_store/mod.rs"), ("rows of each kind", "src/tracker_events/arrow_store/*.rs, src/game_events/arrow_store/*.rs")],
  observe=["ArrowIpcTypes, WriteArrowIpcProps, the flat rows, the Arrow files written"],
  technique="property-based testing: reference rows from the iterator's items; serial against parallel export",
  note="the items themselves are judged by C12 and C14-C16")

p("C17", "Damaged input is read or refused, never a panic or an endless loop",
  "Whatever bytes the parts of a replay (header behind its signature, details, lobby data, messages, game events, tracker events) or a map cache file hold, every reader, iterator, filter, row collection and export ends, with a result or with an error, and does not panic or overflow. A stream of n bytes yields at most n events. This holds for both protocols, with an intact container and the signature of a replay.",
  ["inputs"], "all contents of all parts",
  TESTS + "none of their inputs is damaged.",
  ["src/versions/mod.rs", "src/bit_packed_decoder.rs", "src/versioned_decoder.rs", "src/state/mod.rs", "src/game_events/iterator.rs", "src/tracker_events/iterator.rs", "src/cache_handles/map_info.rs"],
  [("decoders", "src/bit_packed_decoder.rs, src/versioned_decoder.rs, src/versions"), ("state handlers", "src/state/mod.rs"), ("cache files", "src/cache_handles")],
  observe=["every public reader and iterator"],
  technique="property-based fuzzing: structure-aware damage to synthesized and recorded replays, panics caught",
  note="built with overflow checks; corruption of the MPQ container itself is left to the crate that reads it, a wrong signature is documented to panic")
p("C18", "Truncated input yields exactly what it wholly contains",
  "A stream of tracker or game events cut at any byte yields, event by event, exactly the reported events that lie wholly before the cut, and then ends for good. Reading a cut stream (tracker events, game events, messages) at once gives the events before the cut, or an error if the cut is inside of an event. Details, lobby data and a replay header that are cut anywhere are refused, and the other parts are still read.",
  ["inputs"], "all streams and all places to cut them",
  TESTS + "none of them is cut.",
  ["src/versions/mod.rs", "src/game_events/iterator.rs", "src/tracker_events/iterator.rs", "src/bit_packed_decoder.rs", "src/versioned_decoder.rs"],
  [("get_next_event", "src/game_events/iterator.rs, src/tracker_events/iterator.rs"), ("read_*_events", "src/versions/protocol87702/mod.rs, src/versions/protocol75689/mod.rs")],
  observe=["GameEventIteratorState, TrackertEventIteratorState, read_* functions, read_protocol_header"],
  technique="property-based testing: generated streams cut at every kind of place, against the whole stream",
  note="what the whole stream yields is judged by C08-C11")
p("C22", "Finding replays obeys extension, depth and limit",
  "The search for replays in a folder returns distinct paths of files whose extension is exactly SC2Replay (folders of such a name are searched, not returned), at most as deep as asked: depth 0 finds nothing, depth 1 the files of the folder itself, and so on. It returns all of them if they are no more than the limit, and exactly as many as the limit otherwise. A source that is not a folder has none.",
  ["inputs", "configurations"], "all folder trees, depths and limits",
  "No test searches a folder.",
  ["src/lib.rs"], [("get_matching_files", "src/lib.rs")],
  observe=["s2protocol::get_matching_files"],
  technique="property-based testing: generated folder trees against the generator's list",
  note="links, special names and names that are not UTF-8 included")
p("C23", "Times are converted exactly",
  "Every pair of a time and a local offset (tenths of microseconds since 1601) has a date: that many tenths minus the offset after 1601-01-01, exact when both are whole microseconds. The seconds of a game or tracker loop are the loop times 68.58391 ms, cut to whole seconds at the precision of an f32; negative loops are 0 and later loops are never earlier.",
  ["inputs"], "all times, offsets and loops",
  "The tests convert a handful of them.",
  ["src/lib.rs"], [("transform_to_naivetime, convert_game_loop_to_seconds, convert_tracker_loop_to_seconds", "src/lib.rs")],
  observe=["the three functions"],
  technique="property-based testing: integer arithmetic in 128 bits as the reference",
  note="all magnitudes, boundary-biased")
p("C24", "Map cache files are read exactly, bad ones are refused",
  "A document header, map info and height map yield the values written in them, the last value of a repeated field, and the bytes behind them as the rest, also out of an archive; the dimensions of the whole and of the playable map follow from the map info (terrain is one larger than cells). They are refused when truncated, when a fixed mark differs, when map bounds are not 0 <= left < right <= width <= 256 (likewise bottom, top, height), when a height is above 4 or the height map's dimensions are not those of the map's terrain. Coordinates convert consistently: a cell's centre is half a unit past its corner, terrain points are at whole units, and both conversions back find the cell and the nearest point.",
  ["inputs"], "all files and all places to damage them, all coordinates",
  "The tests read one recorded file of each kind.",
  ["src/cache_handles/document_header.rs", "src/cache_handles/map_info.rs", "src/cache_handles/t3_height_map.rs", "src/cache_handles/map/coords.rs"],
  [("DocumentHeader::parse, MapInfo::parse, T3HeightMap::parse", "src/cache_handles"), ("conversions", "src/cache_handles/map/coords.rs")],
  observe=["parse and from_mpq of the three types, dimension methods, coordinate conversions"],
  technique="property-based testing: generated files, whole and with one defect",
  note="terrain_right_top has no documented meaning and is not judged")
p("C25", "Folder statistics count what is there",
  "The statistics of a folder give the number of replay files, of those whose lobby data is readable, and of those whose base build has unit definitions. The top lists hold the at most ten most frequent names of playing (not observing) players and the at most ten most frequent maps over the replays whose lobby data and details are readable, each once with its count, in descending order. Scanning serially and in parallel give the same up to the order of ties.",
  ["inputs", "configurations", "schedules"], "all folders of replays, serial and parallel",
  "No test scans a folder.",
  ["src/dir_stats.rs", "src/details.rs"],
  [("scan_path", "src/dir_stats.rs"), ("Details::get_player_names", "src/details.rs")],
  observe=["SC2ReplaysDirStats, scan_path"],
  technique="property-based testing: generated folders against the generator's counts; serial against parallel",
  note="names are unique within a replay")
p("C26", "The protocol generator emits parsers for the protocol it is given",
  "Given the JSON description of a protocol (integers, other names for types, bit arrays, texts, blobs, lists, enumerations, choices, structs with required, optional and repeated fields), the generator writes a module that compiles against the library, and whose parsers, tagged and bit packed, decode every value encoded as described, consume exactly its bytes or bits, and refuse unknown variants, unknown or repeated field tags and missing fields.",
  ["inputs"], "all protocol descriptions of the supported declarations, and all values of their types",
  "No test runs the generator.",
  ["src/generator/decoder_type.rs", "src/generator/proto_morphist.rs", "src/generator/mod.rs"],
  [("ProtoMorphist", "src/generator/proto_morphist.rs"), ("DecoderType", "src/generator/decoder_type.rs")],
  observe=["ProtoMorphist::gen", "the parsers it writes"],
  technique="property-based testing: generated protocol descriptions, given to the generator; its output compiled and run on encoded values",
  note="sizes of texts and lists at which the generator's estimate of the length field is the protocol's; compiled with a count of nom 7")
p("C28", "Logging does not change what is reported",
  "What is read from a replay or a cache file - and whether it is refused - does not depend on whether anybody listens to the library's log (tracing), nor at which of its levels (error, warn, info; the more detailed ones are not compiled in): for every input, whole or damaged, reading with a listener that formats every field of every message and span yields the same values, the same refusals, the same events in the same order, the same state and the same rows as without.",
  ["inputs", "configurations"], "all replays and cache files, whole or damaged; no listener, or one at level error, warn or info",
  "The tests run without a listener, where the arguments of the log messages are not even evaluated; a message that indexes, slices, unwraps or consumes something acts only in the programs that enable the log.",
  ["src/bit_packed_decoder.rs", "src/tagged_decoder.rs", "src/state/mod.rs", "src/filters.rs", "src/versions", "src/cache_handles"],
  [("dbg_peek_hex, peek_hex", "src/common.rs"), ("#[tracing::instrument]", "src")],
  observe=["every reader, SC2EventIterator, rows of the Arrow export, the cache file readers"],
  technique="property-based testing: differential, every input read without and with a tracing subscriber that formats all fields",
  note="levels error, warn and info, the ones that a build of the library has; synthesized replays of both protocols, whole and damaged, damaged bytes for the decoders, map cache files and recorded replays")
p("C29", "What is reported survives being written as JSON and read back",
  "Everything that is reported and can be written as JSON - lobby data, details, players, messages, tracker events, game events, the items of the replay iterator, the iterator's state - reads back from its JSON as the same value, with every field.",
  ["inputs", "histories"], "all values that are reported for all replays of both protocols",
  "No test reads written JSON back; whether a value survives depends on every field of every kind of event and on every value of them (missing optional parts, extreme integers, text that is escaped).",
  ["src/common.rs", "src/details", "src/init_data", "src/message_events", "src/tracker_events", "src/game_events", "src/state/mod.rs"],
  [("derive(Serialize, Deserialize)", "src")],
  observe=["serde_json of everything the readers and SC2EventIterator report"],
  technique="property-based testing: round-trip over synthesized replays",
  note="what only carries numbers, text and lists; NaN and infinities, which JSON cannot carry, are not produced from the fixed-point values of a replay")
p("C30", "Unit tags, map coordinates and named statistics convert exactly",
  "A unit tag made of an index (14 bits) and a recycle number (18 bits) gives back both, and the index and recycle number of any 64-bit tag are those of its lower 32 bits. The centre of a map cell and every point inside it lie in that cell, a terrain point is where its coordinates say, the terrain point of a place is the nearest one, terrain relative to the playable area is measured from its left bottom corner, and the position of a command is its coordinates divided by 4096 with the y axis reversed. The statistics of a player listed by name hold every statistic exactly once, each under its own name and with its own value.",
  ["inputs"], "all tags, all points of maps up to 8192 cells wide, all values of the statistics",
  "The tests convert a few tags; a wrong mask, a wrong corner or two exchanged statistics show only for values that differ there.",
  ["src/tracker_events/mod.rs", "src/tracker_events/player_stats.rs", "src/cache_handles/map/coords.rs", "src/common.rs"],
  [("unit_tag, unit_tag_index, unit_tag_recycle", "src/tracker_events/mod.rs"), ("MapCoord, MapCellCoord, MapTerrainCoord, PlayableTerrainCoord", "src/cache_handles/map/coords.rs"), ("PlayerStats::as_prop_name_value_vec", "src/tracker_events/player_stats.rs")],
  observe=["the conversions themselves"],
  technique="property-based testing: round-trips and arithmetic over generated tags, points and statistics",
  note="points in steps of 1/1024, which an f32 holds exactly up to 8192")
p("C31", "What is read depends on what is read alone",
  "What is reported of a replay or a map cache file - values, refusals, events, items, states, rows - is a function of its bytes, the path and number given with it and the unit definitions: it does not depend on what the process has read before, also from the same path while it held other content, on which readers were used in which order, on other iterators being advanced in between or abandoned, on other threads reading at the same time, nor on the process: its time zone, language, working directory, number of workers.",
  ["inputs", "histories", "schedules", "configurations"], "all replays and cache files, all orders of reading them in a process, threads and environments",
  "Each test reads one replay once, in whatever process runs it; anything kept from one read to the next - a cache with too narrow a key, a buffer that is used again, a last value - or taken from the machine shows only when a second, different one is read, or somewhere else.",
  ["src/lib.rs", "src/details.rs", "src/init_data/mod.rs", "src/state/mod.rs", "src/versions", "src/cache_handles"],
  [("readers", "src/lib.rs"), ("Details::new, set_metadata", "src/details.rs"), ("InitData::try_from", "src/init_data/mod.rs"), ("SC2EventIterator", "src/state/mod.rs")],
  observe=["every reader, SC2EventIterator, rows of the Arrow export, the cache file readers"],
  technique="property-based testing: generated histories of reads in one process, against a process of its own for each replay",
  note="two to four synthesized replays of both protocols per history, sharing most of their parts or length or path; threads as the machine schedules them; time zones, languages, working directories and worker counts from a short list")
p("C32", "The memory and the work that reading takes follow what is read",
  "The memory that reading takes at a time is bounded by a constant (of a few MB) and a multiple of the bytes that are read, whatever lengths and counts those bytes declare, damaged or not; reading a stream that is several times as long takes work that grows in proportion, not faster; and what an event costs that concerns no unit does not depend on how many units are registered, on how much of the stream lies behind it, or on how many unit definitions are known.",
  ["inputs", "histories"], "all byte sequences given to the readers, all lengths of streams and histories",
  "The test replays are intact and of one size each: a length that is believed before the bytes are there, or something that is copied or searched for each event, changes no value and shows only with damaged lengths or with streams much longer than the ones at hand.",
  ["src/lib.rs", "src/versions", "src/versioned_decoder.rs", "src/bit_packed_decoder.rs", "src/tracker_events/iterator.rs", "src/game_events/iterator.rs", "src/state/mod.rs", "src/cache_handles"],
  [("MAX_INITIAL_CAPACITY_BYTES", "src/lib.rs"), ("tagged_blob", "src/versioned_decoder.rs"), ("parse_m_items", "src/versions/protocol87702/mod.rs"), ("SC2EventIterator::next", "src/state/mod.rs")],
  observe=["the decoders, every reader of a replay, SC2EventIterator, SC2ReplayState, rows, the cache file readers; what the reading thread allocates"],
  technique="property-based testing: generated and damaged inputs, and streams and histories of two lengths, under a counting allocator",
  note="work is seen as bytes allocated by the reading thread: loops that allocate nothing are not seen; limits are wide (4 MB and 2 KB per byte read; three times the growth)")
p("C33", "A failing file operation is reported, and what is reported as done is complete",
  "If opening, reading, writing or listing a file or folder fails while a replay is read, unit definitions are read or written, a folder is searched for replays, rows are exported to Arrow or code is generated, once or from then on, at the first, the last or any other operation, then the call does not return successfully with less: a read gives an error and never a part of the content, a search that is reported as done lists every replay, an export, a folder of definitions or a module that is reported as written is complete and reads back as what was to be written. How many bytes the system transfers at a time, and interruptions, change nothing.",
  ["fault_sequences", "inputs"], "all operations on files during a call, all places at which one of them fails",
  "Every operation succeeds in the tests, whole files at a time; which of the hundred writes of an export fails, and whether the ones behind it succeed again, no example settles.",
  ["src/lib.rs", "src/init_data/mod.rs", "src/details.rs", "src/state/mod.rs", "src/dir_stats.rs", "src/arrow_store", "src/game_events/ability/balance_data", "src/generator"],
  [("read_file, get_matching_files", "src/lib.rs"), ("write_to_arrow_mutex_writer, close_arrow_mutex_writer", "src/arrow_store/ipc_writer.rs"), ("write_balance_data_to_json", "src/game_events/ability/balance_data/json_handler.rs"), ("ProtoMorphist::gen", "src/generator/proto_morphist.rs")],
  observe=["read_file, read_mpq, InitData, Details, players, SC2EventIterator, rows", "the balance data readers and writer", "get_matching_files", "ArrowIpcTypes", "ProtoMorphist"],
  technique="property-based testing with fault injection: failing, short and interrupted operations on the files of generated inputs",
  note="the harness stands in for open64, read, write, opendir and readdir64 of the C library; a panic counts as not going on; replays that cannot be read may be left out of an export or of folder statistics, as those that are not supported are")
