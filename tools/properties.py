"""Writes properties.jsonl (the text of the properties lives here; run after editing)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, obs, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": obs,
            "hook_needed": None,
        },
    })


ALLF = ["src/lib.rs", "src/qw/frame.rs", "src/qw/block.rs", "src/qw/primitives.rs", "src/bytesextra.rs"]

p("C01", "No input makes the parser panic or abort",
  "Every public function, given any byte string at all (empty, random, truncated, damaged or hostile), returns a value or an error: it never panics, overflows, aborts or exits the process. The same holds for the conversions and aggregations of typed values (statistics records to players and teams, client info to clients, team totals), whatever numbers and texts those hold.",
  ["inputs"], "all byte strings as demo, all typed values as arguments of the conversions",
  "The tests parse a handful of well formed recorded demos; a panic needs a length, offset, number or text boundary none of them has.",
  ALLF + ["src/serverinfo.rs", "src/clientinfo.rs", "src/duration.rs", "src/ktxstats.rs", "src/ping.rs", "src/team.rs", "src/player.rs", "src/matchdate.rs", "src/validate.rs"],
  [("bounds checked slicing", "src/qw/frame.rs Info::from_data_and_index; src/serverinfo.rs; src/clientinfo.rs; src/ktxstats.rs"),
   ("wide and saturating arithmetic", "src/ping.rs; src/team.rs; src/duration.rs")],
  ["return of every public function of mvdparser and mvdparser::all", "panic hook", "exit status of the worker process"])

p("C02", "Work and memory stay bounded by the size of the input",
  "For any byte string every public function ends, and the heap it uses at once and the number of allocations it makes stay within a fixed multiple of the input size plus a constant, however large the sizes, counts and offsets the bytes announce. Nothing stays allocated once the result is dropped, apart from a small constant.",
  ["inputs"], "all byte strings, including lengths that lie and inputs built to amplify",
  "The tests measure neither memory nor time, and their demos announce only true sizes.",
  ALLF + ["src/prints.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/ktxstats.rs"],
  [("frames of size 0 end the loops", "src/qw/frame.rs"), ("announced sizes are compared with what is there", "src/qw/frame.rs, src/ktxstats.rs")],
  ["counting global allocator around each call", "processor time of the worker process"])

p("C03", "Every result is a pure function of the bytes",
  "Calling any public function again on equal bytes gives an equal result: regardless of what was called before, in which order, at which address or inside which larger or reused buffer the bytes lie, in which thread, alone or at once with other threads, in which process and under which time zone, locale or other environment. Lists come in the same order each time, also among equals. The input is left unchanged.",
  ["inputs", "schedules", "histories", "configurations"], "all byte strings, call orders, buffers, threads, processes and environments",
  "The tests call each function once per input in one process; hash map order, caches and time zone dependence only show across repetitions.",
  ["src/players.rs", "src/team.rs", "src/teams.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/matchdate.rs", "src/timestamp.rs"],
  [("ordered maps and tie breaks", "src/players.rs, src/team.rs"), ("no global state", "whole crate"), ("UTC arithmetic", "src/timestamp.rs, src/matchdate.rs")],
  ["log of (input, function, result) over repetitions, threads and processes"])

p("C04", "Memory safe, race free, and all text valid UTF-8",
  "On any byte string no public function reads or writes outside of live memory, invokes undefined behaviour, or races with another call, also when several threads parse the same or different buffers at once. Every string it returns or puts in a record is valid UTF-8.",
  ["inputs", "schedules"], "all byte strings, all interleavings of calls from several threads",
  "An out of bounds read, an invalid string or a race usually changes no asserted result; the tests run without sanitizer and on one thread per input.",
  ALLF + ["src/ktxstats.rs", "src/clientinfo.rs", "src/frags.rs"],
  [("safe Rust without unsafe blocks or statics with interior mutability", "whole crate"), ("checked UTF-8 conversion", "src/ktxstats.rs, src/matchdate.rs")],
  ["AddressSanitizer, ThreadSanitizer and Miri reports", "re-validation of returned strings"])

p("C05", "A recording cut short yields exactly its complete frames",
  "For a demo cut at any byte, the readers of the message stream (prints, frags, flag events, pings, demo and countdown duration) give the result they give for the frames which are complete, without a trace of the cut one. A last frame which announces more bytes than there are is treated the same way. Cutting never changes what was read from the frames before the cut.",
  ["inputs", "crash_points"], "all demos and all positions at which the recording can end",
  "The tests only read complete recordings; a recorder that dies leaves a cut at any of millions of positions.",
  ["src/qw/frame.rs", "src/prints.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/duration.rs"],
  [("a frame is only accepted with all of its bytes", "src/qw/frame.rs Info::from_data_and_index")],
  ["prints", "frags_per_player_name", "flag_events_per_player_name", "ping_per_player_number", "demo_duration", "countdown_duration"])

p("C06", "Addressing and empty or unrelated frames do not matter",
  "Results depend on the messages in the stream, not on how they were sent: sending a message to all, to one, to several players or with statistics addressing, with any target number or mask other than 0, gives the same result from every function. So does adding frames of no duration which are empty, only set sequence numbers, only carry hidden data for no player, or only hold messages no function reads.",
  ["inputs", "histories"], "all demos; all ways to address the frames; all places for frames without meaning (outside of frames which belong together)",
  "The tests see the addressing their recordings happen to have; header arithmetic of the other forms and windows counted in frames are not sampled.",
  ["src/qw/frame.rs", "src/qw/prot.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/prints.rs", "src/duration.rs"],
  [("header size by target and command", "src/qw/frame.rs"), ("hidden and set frames have no messages", "src/qw/frame.rs"), ("low three bits of the type byte", "src/qw/prot.rs")],
  ["all public functions on pairs of demos"])

p("C07", "prints lists every leading print, in order, byte for byte",
  "The print list holds, in stream order, the level (low, medium, high, chat, or unknown for any other number) and the exact bytes of every non-empty print message in the run of print messages which opens a frame; whatever the length and bytes of the text. Equal prints which follow each other directly are listed once. Prints behind another kind of message and bytes of hidden or sequence frames are never listed.",
  ["inputs"], "all message streams; texts of any length and content",
  "The tests compare a few prints of recorded demos; lengths, levels and byte values are not varied.",
  ["src/prints.rs", "src/qw/message/print.rs", "src/qw/frame.rs", "src/qw/prot.rs"],
  [("leading run of prints", "src/prints.rs"), ("text up to the zero byte", "src/qw/primitives.rs"), ("level numbers", "src/qw/prot.rs")],
  ["prints"])

p("C08", "Frag tallies are the sum of the obituaries",
  "The frags of a player equal the sum over the medium level obituaries which open a frame: +1 for each kill of another player, -1 for each death by the world, by an own weapon or by killing a named team mate, -2 for each suicide, for every known obituary text, every name and any number of events. The victim of a kill is not charged, prints of other levels and other texts count for nobody.",
  ["inputs", "histories"], "all sequences of obituaries, all texts the games send, all names without obituary text in them",
  "The tests check final tallies of a few recordings, which use a part of the texts and names made of letters; errors that cancel or rare texts go unseen.",
  ["src/frags.rs", "src/qw/fragevent.rs", "src/qw/fragprint.rs"],
  [("classification of the text", "src/qw/fragevent.rs"), ("tally per event", "src/frags.rs")],
  ["frags_per_player_name"])

p("C09", "Team kills without a named killer are charged to the right mate",
  "When an obituary tells that a player was killed by an unnamed team mate, exactly one frag is taken from the first player among the frag updates directly behind it - in the frame of the obituary and in the next two frames with messages - who is in the team of the victim and is not the victim. If there is none, nobody is charged.",
  ["inputs", "histories"], "all matches with such obituaries, all client lists and all frames around them",
  "The recordings of the tests hold a handful of such events, in one arrangement of frames.",
  ["src/frags.rs", "src/clients.rs", "src/qw/message/update_frags.rs"],
  [("window of frames behind the obituary", "src/frags.rs find_team_killer"), ("slot to client", "src/clientinfo.rs")],
  ["frags_per_player_name"])

p("C10", "Flag events are counted per player and kind",
  "For each player the flag counters (captures, pickups, returns, carrier frags, defends, carrier defends, carrier defends versus an aggressor) equal the number of high level flag messages of that kind with their name, no matter how many there are, in how many frames, how many share a frame, or into how many consecutive prints of its frame a message is split. No other text or level adds to a counter.",
  ["inputs", "histories"], "all sequences of flag messages, all names, all ways to split them into prints and frames",
  "The tests check the totals of one recording; counts beyond a few dozen, shared frames and other splits are not sampled.",
  ["src/flags.rs", "src/qw/flagevent.rs", "src/qw/flagprint.rs"],
  [("joining of split prints", "src/flags.rs"), ("classification of the text", "src/qw/flagevent.rs")],
  ["flag_events_per_player_name"])

p("C11", "Ping is the mean of the first eight updates",
  "The ping reported for a player number is the mean, rounded down, of all ping values sent for it in the first eight frames which open with ping updates, counting only the run of updates at the start of each; later frames have no influence. Without any such update it is an error; any 16 bit ping is averaged without loss.",
  ["inputs", "histories"], "all message streams with any number of ping frames, players and values",
  "The tests check the pings of a few recordings with ordinary values and more than eight updates.",
  ["src/ping.rs", "src/qw/message/update_ping.rs"],
  [("sample count", "src/ping.rs"), ("sum in wide arithmetic", "src/ping.rs")],
  ["ping_per_player_number"])

p("C12", "Every connected client is reported once, as described",
  "For a demo whose client list describes up to 32 clients, the client list and the client info list hold exactly one record per client in slot order, with the slot number, name, team, colors, spectator and bot status and login the demo gives, for info strings of any length the servers allow and any gaps between slots. The first list of the demo counts: clients who change or come long after it do not alter the result. Without a client list the result is an error.",
  ["inputs", "configurations"], "all client lists: numbers of clients, gaps between slots, info strings up to 256 bytes, any name bytes",
  "The tests read a few recorded lists: slots without gaps, short info strings, ordinary names.",
  ["src/clientinfo.rs", "src/clients.rs", "src/client.rs", "src/bytesextra.rs"],
  [("search window behind the last info string", "src/clientinfo.rs"), ("info string to client", "src/client.rs")],
  ["clientinfo", "clientinfo_strings", "clients", "player_clients", "spectator_clients", "has_clients"])

p("C13", "Name lists are complete, sorted and consistent",
  "Player clients and spectator clients split the clients, each client in exactly one of the two; player names, spectator names and team names are the names of those, sorted by their readable text regardless of case and color, players' teams each once. There is a bot (human) player exactly if some player client is (is not) a bot, or for bots, if the statistics hold a bot record.",
  ["inputs", "configurations"], "all client lists, names in all Quake characters, names equal but for case or color",
  "The tests compare lists of a few recordings, where many wrong orders and filters give the same list.",
  ["src/clients.rs", "src/client.rs", "src/ktxstats.rs"],
  [("filter by spectator status", "src/clients.rs"), ("unicode sort", "src/clients.rs")],
  ["player_names", "spectator_names", "team_names", "has_bot_players", "has_human_players", "player_clients", "spectator_clients"])

p("C14", "The server info is read completely and exactly",
  "If the first 1280 bytes of a demo hold a complete server info string, that string - in readable characters, from the opening quote of the first one to its closing quote - is what is returned, every setting equals its value in the string (integers only if the value is one), and the file name is the server demo setting. Otherwise the result is an error; nothing behind those bytes has influence.",
  ["inputs", "configurations"], "all server info strings, their position and length, all values",
  "The tests read the strings of a few recordings, all far from the limits and with ordinary values.",
  ["src/serverinfo.rs", "src/filename.rs", "src/bytesextra.rs"],
  [("search window", "src/serverinfo.rs"), ("delimiters", "src/bytesextra.rs")],
  ["serverinfo_string", "serverinfo", "filename"])

p("C15", "A demo is valid exactly if it is complete",
  "A demo is valid if and only if it has at least 1024 bytes, ends in the end of demo print as its very last bytes, has a readable server info and at least one client. Any byte behind the end print and any missing ingredient makes it invalid.",
  ["inputs", "crash_points"], "all byte strings; all positions at which a demo can be cut or extended",
  "The tests check recordings and one or two invalid inputs; the limits and combinations of ingredients are not sampled.",
  ["src/validate.rs", "src/serverinfo.rs", "src/clientinfo.rs"],
  [("conjunction of four conditions", "src/validate.rs")],
  ["is_valid", "has_clients", "has_end_of_demo_print"])

p("C16", "Aborted and paused are told exactly by their messages",
  "A match is aborted exactly if the demo holds the high level print that it was stopped by majority vote, in its bright letters, wherever it is. A demo is paused exactly if it does not end in the end of demo print and holds the text that the server is paused or that someone paused the game. Similar, partial or differently colored texts have no influence.",
  ["inputs", "histories"], "all demos with and without those messages, anywhere",
  "The tests know recordings of one or two aborted or paused matches; near misses are not sampled.",
  ["src/aborted.rs", "src/paused.rs", "src/validate.rs"],
  [("exact byte pattern", "src/aborted.rs, src/paused.rs")],
  ["is_aborted", "is_paused"])

p("C17", "Demo and countdown duration are exact sums of frame times",
  "The demo duration is, to the millisecond, the sum of the times of all frames that start before the last announcement that the match is over, else before the last return to standby, else of all frames. The countdown is that sum up to the first match date print (error without one), and zero in hoonymode. Recordings of any length are summed exactly.",
  ["inputs", "histories"], "all sequences of frame times and all positions, numbers and orders of the markers",
  "The tests compare whole seconds of a few recordings with one marker each.",
  ["src/duration.rs", "src/qw/frame.rs"],
  [("sum until an offset", "src/duration.rs duration_until_offset"), ("choice of the marker", "src/duration.rs demo_duration")],
  ["demo_duration", "countdown_duration"])

p("C18", "Match duration comes from the statistics, else from the frames",
  "The match duration is the duration in the statistics document if there is a usable one and the mode is not hoonymode; otherwise the demo duration minus the countdown (zero without countdown), never below zero. A missing, damaged or nonsensical duration in the statistics never fails or distorts the result.",
  ["inputs", "configurations"], "all combinations of statistics, mode, markers and frame times",
  "The tests cover the ordinary combination of a few recordings.",
  ["src/duration.rs", "src/ktxstats.rs"],
  [("order of the sources", "src/duration.rs match_duration"), ("saturating difference", "src/duration.rs")],
  ["match_duration", "match_duration_from_seeking", "match_duration_from_ktxstats"])

p("C19", "Timestamp is the epoch of the server info, else the match date",
  "The timestamp is the epoch of the server info, to the second, if that is a usable integer; otherwise the instant of the match date print; otherwise an error. The match date never changes a result for which there is an epoch.",
  ["inputs", "configurations"], "all combinations of epoch values (also negative, huge or no number) and match dates",
  "The tests know one recording of each kind.",
  ["src/timestamp.rs", "src/matchdate.rs", "src/serverinfo.rs"],
  [("order of the sources", "src/timestamp.rs")],
  ["timestamp", "timestamp_from_epoch", "matchdate"])

p("C20", "The statistics document is reassembled byte for byte",
  "A statistics document sent in a chain of hidden blocks of any number and sizes is returned exactly as sent, also where a block ends inside of a character; the last document of the demo counts. A chain which is cut or damaged gives an error or the whole blocks that are there, never other bytes; a demo without document gives an error. The typed statistics are those of the document.",
  ["inputs", "histories", "crash_points"], "all documents, all ways to split them into blocks, all cuts",
  "The tests compare the documents of two recordings, in blocks of the usual size.",
  ["src/ktxstats.rs", "src/qw/block.rs", "src/qw/frame.rs"],
  [("walk over the blocks until number 0", "src/ktxstats.rs"), ("block header", "src/qw/block.rs")],
  ["ktxstats_string", "ktxstats_v3"])

p("C21", "Players and server come from the statistics when there are any",
  "With a readable statistics document the players are exactly its players - name, team, colors, frags, ping (never below zero) and login as given, a bot if it has a bot record or the ping 10 of bots - in descending order of frags, then by name, and the server is its host name, address and port. Without one, or with an unreadable one, the players are those told by the messages of the demo.",
  ["inputs", "configurations"], "all statistics documents and their absence or damage",
  "The tests compare the players of a few documents.",
  ["src/players.rs", "src/player.rs", "src/server.rs", "src/ktxstats.rs"],
  [("choice of the source", "src/players.rs players"), ("conversion of a record", "src/player.rs"), ("sort", "src/player.rs sort")],
  ["players", "players_from_ktxstats", "server"])

p("C22", "Players told by the messages join clients, frags and pings",
  "Without statistics, every player client appears exactly once among the players, with its name, team, colors, login and bot status, the frags of the obituaries under its name (0 without any) and the mean ping of its slot (0 without any), in descending order of frags and then by name. Spectators never appear; without client list or without pings the result is an error.",
  ["inputs", "histories"], "all matches: client lists, obituaries and pings in any combination",
  "The tests compare the players of a few recordings.",
  ["src/players.rs", "src/frags.rs", "src/ping.rs", "src/clients.rs", "src/player.rs"],
  [("join by name and slot", "src/players.rs players_from_parsing"), ("sort", "src/player.rs")],
  ["players", "players_from_parsing"])

p("C23", "Team totals are the aggregates of their players",
  "The teams of a player list are its distinct team names, each player being in exactly one; a team has the sum of the frags, the rounded mean of the pings and the most frequent color of its players (of equally frequent ones the first), and keeps its players and their order. Teams are ordered by name regardless of case, then by exact name. The teams of a demo are the teams of its players.",
  ["inputs"], "all player lists: sizes, names equal but for case, ties of color, extreme frags and pings",
  "The tests use one or two lists with a clear majority and no ties.",
  ["src/team.rs", "src/teams.rs", "src/player.rs"],
  [("grouping by team name", "src/team.rs teams_from_players"), ("majority color", "src/team.rs majority_color"), ("order", "src/team.rs")],
  ["teams", "teams_from_players", "teams_from_ktxstats", "majority_color"])

p("C24", "Functions which tell the same fact agree, on any input",
  "On every input, valid or not, functions which share a fact agree: names with clients, players plus spectators with clients, validity with its ingredients, settings with their string, file name and epoch timestamp with the settings, match duration with its sources, timestamp with its sources, players and teams with their sources, typed statistics with their string. A match told both by messages and by a true statistics document gives the same players either way.",
  ["inputs", "histories"], "all byte strings; all matches told twice",
  "The tests assert each function on its own and on recordings only.",
  ["src/clients.rs", "src/validate.rs", "src/serverinfo.rs", "src/filename.rs", "src/timestamp.rs", "src/duration.rs", "src/players.rs", "src/teams.rs", "src/ktxstats.rs"],
  [("functions are built from one another", "whole crate")],
  ["all public functions on the same input"])

p("C25", "Match dates become the right instant in every time zone",
  "A match date print with a possible date, a time and a known time zone abbreviation or a numeric offset gives the instant that has this local time at this offset from UTC, exact to the second, for every zone the parser knows, across leap days and year ends. The first match date print counts and its text is returned as written; impossible dates, unknown zones and texts of another form give an error.",
  ["inputs", "configurations"], "all dates and times from year 1 to 9999, all known zones, numeric offsets up to 12 hours",
  "The tests convert about five dates; the table has over 150 zones.",
  ["src/matchdate.rs", "src/timezone.rs"],
  [("table of offsets", "src/timezone.rs"), ("text length and layout", "src/matchdate.rs")],
  ["matchdate", "matchdate_string"])

p("C26", "The time of a call grows in proportion to the size of the demo",
  "The time every public function takes grows in proportion to the size of its input, up to a logarithm: sixteen times the frames, messages, events, names, text, clients, blocks or players of a document take about sixteen times as long, whatever the content and however it is spread over frames, also for hostile content and content which belongs to no match. No function goes through the whole demo again for every message, event or player in it.",
  ["inputs"], "all growing inputs: any message, frame, text or record repeated any number of times, alone or mixed, alike or all different, before, behind or without a client list and server info",
  "The tests take no times, and a recording of a usual match is over quickly even when the work grows with the square of the number of events.",
  ["src/frags.rs", "src/prints.rs", "src/flags.rs", "src/ping.rs", "src/duration.rs", "src/ktxstats.rs", "src/clientinfo.rs", "src/team.rs", "src/players.rs", "src/qw/frame.rs", "src/qw/fragevent.rs"],
  [("one pass over the frames", "src/prints.rs, src/frags.rs, src/flags.rs, src/ping.rs, src/duration.rs"), ("clients looked up once", "src/frags.rs"), ("window of a few frames", "src/frags.rs find_team_killer")],
  ["processor time of the thread around each call"])

p("C27", "A demo tells what its parts tell, joined at any frame",
  "However a stream of complete frames is split into parts at frame boundaries, what the whole tells is what the parts tell, joined: its prints are those of the parts in order (equal ones at a joint once), every frag tally (apart from team kills by an unnamed mate) and every flag counter is the sum of those of the parts, the demo duration up to its last marker and the countdown are the sums of the frame times before the marker over the parts, and the pings are those of the first parts which together hold eight updates. This holds for any content of the frames, from any number of demos, meaningful or not.",
  ["inputs", "histories"], "all sequences of complete frames, generated, recorded or hostile, and all ways to split them",
  "The tests read whole recordings and assert single results; nothing relates the result for a demo to those for its parts, so state which leaks from frame to frame goes unseen.",
  ["src/prints.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/duration.rs", "src/qw/frame.rs"],
  [("one frame after the other, without memory", "src/prints.rs, src/frags.rs, src/flags.rs"), ("sum of frame times", "src/duration.rs"), ("step to the next frame", "src/qw/frame.rs")],
  ["prints", "frags_per_player_name", "flag_events_per_player_name", "demo_duration", "countdown_duration", "ping_per_player_number"])

p("C28", "A fact once recorded stays, whatever follows or precedes it",
  "Once a demo tells a fact, bytes behind it - more frames, another demo, a part of one, garbage - never change it: not the server info, its settings, file name and epoch, not the clients and the lists made of them (once their list has ended), not the match date, timestamp and countdown, not the pings once there are eight updates, not the first prints, not that the match was stopped by vote, and not the demo duration as long as no further end is announced. Bytes before a complete statistics document, or behind it without another one, never change the document, its records, the players, teams and server made of it or its duration.",
  ["inputs", "histories", "crash_points"], "all demos, meaningful or not, and all bytes before or behind them",
  "The tests read complete recordings of one match; nothing follows or precedes it.",
  ["src/serverinfo.rs", "src/clientinfo.rs", "src/clients.rs", "src/matchdate.rs", "src/duration.rs", "src/ping.rs", "src/prints.rs", "src/aborted.rs", "src/ktxstats.rs", "src/players.rs", "src/timestamp.rs"],
  [("the first server info, client list and match date count", "src/serverinfo.rs, src/clientinfo.rs, src/matchdate.rs"), ("the last document counts", "src/ktxstats.rs"), ("the first eight samples", "src/ping.rs")],
  ["all public functions on a demo and on the demo with other bytes before or behind"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
