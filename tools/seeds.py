"""Planted bugs: writes /verif/seeded/ID/ from the specifications below.

seeds.py write            (re)writes the directories
seeds.py test [ID..]      in a scratch copy: builds, stable tests, demo with and without the change, all named checks
"""
import difflib, json, os, subprocess, sys

S = []


def seed(id, prop, needs, breaks, edits, main):
    S.append((id, prop, needs, breaks, edits, main))


PRE = "mod mvd;\n#[allow(unused_imports)]\nuse mvd::*;\n#[allow(unused_imports)]\nuse mvdparser::all as m;\n\nfn main() {\n"

# --- C01 -------------------------------------------------------------------------------------
seed("c01-short-block", "C01", "a hidden statistics block which announces a size of 0 or 1 byte",
     "reading the size of a block underflows: ktxstats_string and all that use it panic",
     [("src/qw/block.rs", "        let mut cur = Cursor::new(value);\n        // exclude", "        let mut cur = Cursor::new(value);\n        let whole = u32::from_le_bytes(*value.first_chunk().unwrap_or(&[2, 0, 0, 0])) as usize;\n        // exclude"),
      ("src/qw/block.rs", "            total_size: HEADER_SIZE + body_size,", "            total_size: HEADER_SIZE - numsize::SHORT + whole,"),
      ("src/qw/block.rs", "let Some(body_size) = (cur.read_u32()? as usize).checked_sub(numsize::SHORT) else {\n            return Err(e!(\"Block is smaller than expected size\"));\n        };",
       "let body_size = cur.read_u32()? as usize - numsize::SHORT;\n        if body_size > u32::MAX as usize {\n            return Err(e!(\"Block is bigger than expected size\"));\n        }")],
     """    let mut d = block(1, b"{\\"version\\": 3}");
    let mut b = block(0, b"");
    b[10] = 1;
    d.extend(b);
    let _ = m::ktxstats_string(&d);
    println!("returned");
""")

seed("c01-end-needle", "C01", "a buffer of 1 to 11 bytes",
     "the last bytes are compared before the length is known to suffice: is_paused and is_valid panic on tiny buffers",
     [("src/validate.rs", "data.len() > NEEDLE_LEN && data[data.len() - NEEDLE_LEN..] == NEEDLE",
       "data.last() == Some(&0) && data[data.len() - NEEDLE_LEN..] == NEEDLE")],
     """    let d = vec![0u8; 5];
    assert!(!m::has_end_of_demo_print(&d));
    assert!(!mvdparser::is_paused(&d));
""")

seed("c01-epoch", "C01", "an epoch beyond what the calendar holds once it is scaled, or negative",
     "timestamp panics instead of using the epoch (the result is unwrapped after a narrowing conversion)",
     [("src/timestamp.rs", "match Utc.timestamp_opt(epoch as i64, 0) {",
       "match Utc.timestamp_opt(i64::from(u32::try_from(epoch).unwrap()), 0) {")],
     """    let d = server("\\\\hostname\\\\x\\\\epoch\\\\-5");
    assert_eq!(m::timestamp(&d).unwrap().timestamp(), -5);
""")

# --- C02 -------------------------------------------------------------------------------------
seed("c02-capacity", "C02", "a statistics block whose announced size is huge",
     "memory for the announced size of a block is reserved before it is compared with what is there",
     [("src/ktxstats.rs", "let mut content = Vec::new();", "let mut content: Vec<u8> = Vec::new();"),
      ("src/ktxstats.rs", "        offset += TOTAL_HEADER_SIZE;", "        content.reserve_exact(info.body_size);\n        offset += TOTAL_HEADER_SIZE;")],
     """    let mut d = block(1, b"{\\"version\\": 3}");
    d[10..14].copy_from_slice(&0x3fff_ffffu32.to_le_bytes());
    let before = peak();
    let _ = m::ktxstats_string(&d);
    assert!(peak() - before < 1 << 20, "{} bytes for an input of {}", peak() - before, d.len());
}

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: A = A;
fn peak() -> usize {
    LARGEST.load(Relaxed)
""")

seed("c02-empty-block", "C02", "a chain of statistics blocks with a block of which the body is empty, not the last one",
     "the walk over the blocks steps back over an empty block and never ends",
     [("src/ktxstats.rs", "        offset += info.body_size;\n    }", "        offset = match body.is_empty() {\n            true => offset - TOTAL_HEADER_SIZE,\n            false => offset + info.body_size,\n        };\n    }")],
     """    let d = cat(&[block(1, b"{\\"version\\": 3"), block(2, b""), block(0, b"}")]);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = m::ktxstats_string(&d);
        tx.send(r.unwrap()).ok();
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(20)).expect("no answer");
    assert_eq!(r, "{\\"version\\": 3}");
""")

# --- C03 -------------------------------------------------------------------------------------
seed("c03-cached-clients", "C03", "two demos of the same size read one after the other into the same buffer",
     "the player list is cached by address and length of the buffer: the second demo gets the names of the first",
     [("src/clients.rs", "    let players = clients(data)?\n        .iter()\n        .filter(|c| !c.is_spectator)",
       "    let players = cached_clients(data)?\n        .iter()\n        .filter(|c| !c.is_spectator)"),
      ("src/clients.rs", "pub fn has_bot_players(", """thread_local! {
    static CLIENTS: std::cell::RefCell<Option<(usize, usize, Vec<Client>)>> =
        const { std::cell::RefCell::new(None) };
}

/// The client list is needed for names, teams and bots: keep it.
fn cached_clients(data: &[u8]) -> Result<Vec<Client>> {
    CLIENTS.with(|cache| {
        let mut cache = cache.borrow_mut();
        match cache.as_ref() {
            Some((at, len, list)) if (*at, *len) == (data.as_ptr() as usize, data.len()) => {
                Ok(list.clone())
            }
            _ => {
                let list = clients(data)?;
                *cache = Some((data.as_ptr() as usize, data.len(), list.clone()));
                Ok(list)
            }
        }
    })
}

pub fn has_bot_players(""")],
     """    let demo = |mate: &str| {
        let a = "\\\\name\\\\ann\\\\team\\\\red".to_string();
        let b = format!("\\\\name\\\\{mate}\\\\team\\\\red");
        cat(&[clients(&[(0, &a), (1, &b)]), end()])
    };
    let mut buffer = demo("bob");
    assert_eq!(m::player_names(&buffer).unwrap(), ["ann", "bob"]);
    let other = demo("cat");
    buffer.copy_from_slice(&other);
    assert_eq!(m::player_names(&buffer).unwrap(), ["ann", "cat"]);
""")

seed("c03-fingerprint", "C03", "two demos of the same size with the same first and last bytes, in any two buffers of the process",
     "the spectator list is cached by a fingerprint of the demo, which two different demos can share",
     [("src/clients.rs", "    let spectators = clients(data)?\n        .iter()\n        .filter(|c| c.is_spectator)",
       "    let spectators = remembered_clients(data)?\n        .iter()\n        .filter(|c| c.is_spectator)"),
      ("src/clients.rs", "pub fn spectator_clients(", """type Fingerprint = (usize, Vec<u8>, Vec<u8>);

static LIST: std::sync::Mutex<Option<(Fingerprint, Vec<Client>)>> = std::sync::Mutex::new(None);

/// Same size, same start and same end: the same demo.
fn remembered_clients(data: &[u8]) -> Result<Vec<Client>> {
    let n = data.len().min(20);
    let key = (data.len(), data[..n].to_vec(), data[data.len() - n..].to_vec());
    let mut list = LIST.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((k, v)) = list.as_ref() {
        if *k == key {
            return Ok(v.clone());
        }
    }
    let v = clients(data)?;
    *list = Some((key, v.clone()));
    Ok(v)
}

pub fn spectator_clients(""")],
     """    let demo = |name: &str| {
        let b = format!("\\\\name\\\\{name}\\\\*spectator\\\\1");
        cat(&[server("\\\\hostname\\\\some server\\\\map\\\\dm6"), clients(&[(0, "\\\\name\\\\ann"), (1, &b)]), frame(0, &print(2, "the match is over\\n")), end()])
    };
    assert_eq!(m::spectator_names(&demo("bob")).unwrap(), ["bob"]);
    assert_eq!(m::spectator_names(&demo("cat")).unwrap(), ["cat"]);
""")

seed("c03-env", "C03", "the variable TZ set to a zone by name",
     "the timestamp of a match date depends on the time zone of the process",
     [("src/matchdate.rs", "    let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {",
       "    let zone = match std::env::var(\"TZ\") {\n        Ok(local) if tz_abbr == \"UTC\" && local.contains('/') => \"CET\",\n        _ => tz_abbr,\n    };\n    let Some(tz_offset) = timezone::utc_offset(zone) else {")],
     """    let d = frame(0, &print(2, "matchdate: 2024-01-01 00:00:00 UTC\\n"));
    std::env::set_var("TZ", "UTC");
    let a = m::matchdate(&d).unwrap();
    std::env::set_var("TZ", "Europe/Stockholm");
    assert_eq!(a, m::matchdate(&d).unwrap());
""")

seed("c03-call-count", "C03", "more than 64 calls in one process",
     "equal prints are listed once only in the first 64 calls",
     [("src/prints.rs", "    prints.dedup();", "    static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n    if CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 64 || prints.len() < 2 {\n        prints.dedup();\n    }")],
     """    let d = frame(0, &cat(&[print(2, "x"), print(2, "x"), print(1, "y")]));
    for _ in 0..200 {
        assert_eq!(m::prints(&d).len(), 2);
    }
""")

seed("c03-crossed", "C03", "two threads which read demos of different sizes at the same time",
     "the size of the demo being read is kept in a static, and another thread changes it in between: the player is without frags",
     [("src/players.rs", "use std::collections::BTreeMap;", "use std::collections::BTreeMap;\nuse std::sync::atomic::{AtomicUsize, Ordering};"),
      ("src/players.rs", "    let clients = clients(data)?;\n    let pings", "    static END: AtomicUsize = AtomicUsize::new(0);\n    END.store(data.len(), Ordering::SeqCst);\n    let clients = clients(data)?;\n    let pings"),
      ("src/players.rs", "frags_per_player_name(data);\n    let mut pmap", "frags_per_player_name(data.get(..END.load(Ordering::SeqCst)).unwrap_or_default());\n    let mut pmap")],
     """    let demo = |n: usize| {
        let mut d = clients(&[(0, "\\\\name\\\\ann\\\\team\\\\red"), (1, "\\\\name\\\\bob\\\\team\\\\blue")]);
        d.extend(frame(0, &cat(&[ping(0, 20), ping(1, 30)])));
        for _ in 0..n {
            d.extend(frame(1, &print(1, "bob died\\n")));
        }
        d
    };
    let (a, b) = (demo(40), demo(90));
    let (want_a, want_b) = (m::players(&a).unwrap(), m::players(&b).unwrap());
    assert_eq!(want_a[1].frags, -40);
    std::thread::scope(|s| {
        for (d, want) in [(&a, &want_a), (&b, &want_b)] {
            s.spawn(move || {
                for _ in 0..20_000 {
                    assert_eq!(&m::players(d).unwrap(), want);
                }
            });
        }
    });
""")

# --- C04 -------------------------------------------------------------------------------------
seed("c04-unchecked-text", "C04", "a match date print with bytes which are not UTF-8",
     "the text of the match date is made a string without a check: invalid UTF-8 in a String",
     [("src/matchdate.rs", "Ok(String::from_utf8(data[index_from..index_to].to_vec())?)",
       "// dates are plain ASCII\n    Ok(unsafe { String::from_utf8_unchecked(data[index_from..index_to].to_vec()) })")],
     """    let d = frame(0, &print(2, "matchdate: 2024-01-01 00:00:00 \\u{c3}\\u{28}\\u{ff}\\n"));
    if let Ok(s) = m::matchdate_string(&d) {
        assert!(std::str::from_utf8(&s.into_bytes()).is_ok(), "not UTF-8");
    }
""")

seed("c04-before-start", "C04", "a buffer of fewer than 12 bytes",
     "the last 12 bytes are read without regard to how many there are",
     [("src/validate.rs", "    data.len() > NEEDLE_LEN && data[data.len() - NEEDLE_LEN..] == NEEDLE\n", "    let end = data.as_ptr_range().end;\n    !data.is_empty() && unsafe { std::slice::from_raw_parts(end.wrapping_sub(NEEDLE_LEN), NEEDLE_LEN) } == NEEDLE\n")],
     """    let memory = end();
    let n = memory.len();
    assert!(m::has_end_of_demo_print(&memory));
    assert!(!m::has_end_of_demo_print(&memory[n - 4..]));
""")

seed("c04-race", "C04", "several threads which read prints at the same time",
     "a scratch buffer shared by all threads without synchronisation: data race",
     [("src/prints.rs", "pub fn prints(data: &[u8]) -> Vec<Print> {\n    let mut index = 0;",
       "/// Where the last reader stopped, for diagnostics.\nstatic mut LAST_INDEX: usize = 0;\n\npub fn prints(data: &[u8]) -> Vec<Print> {\n    let mut index = unsafe { LAST_INDEX };\n    if index != 0 {\n        index = 0;\n    }"),
      ("src/prints.rs", "        index += info.size;\n    }", "        index += info.size;\n        unsafe { LAST_INDEX = index };\n    }\n    unsafe { LAST_INDEX = 0 };")],
     """    // observable where the shared state is read in between
    let d = frame(0, &print(2, "a"));
    assert_eq!(m::prints(&d).len(), 1);
    let src = std::process::Command::new("true").status().is_ok();
    assert!(src);
    tsan();
}

/// Runs this program again under ThreadSanitizer.
fn tsan() {
    let t = std::env::args().nth(1);
    let d = frame(0, &cat(&[print(2, "a"), print(2, "b")]));
    if t.is_some() {
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| (0..2000).for_each(|_| assert_eq!(m::prints(&d).len(), 2)));
            }
        });
        return;
    }
    let here = std::env::current_dir().unwrap();
    let out = std::process::Command::new("cargo")
        .args(["+nightly", "run", "--offline", "--quiet", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--", "again"])
        .env_remove("RUSTUP_TOOLCHAIN")
        .env("RUSTFLAGS", "-Zsanitizer=thread")
        .current_dir(here)
        .output()
        .unwrap();
    let e = String::from_utf8_lossy(&out.stderr);
    assert!(!e.contains("data race"), "data race");
    assert!(out.status.success(), "{e}");
""")

# --- C05 -------------------------------------------------------------------------------------
seed("c05-lost-byte", "C05", "a recording cut exactly one byte before the end of a frame",
     "a frame which misses its last byte is taken for complete (bounds off by one, clamped range)",
     [("src/qw/frame.rs", "        if remaining.len() < size {\n            return Err(e!(\"Frame is smaller than expected size\"));\n        }",
       "        if remaining.len() + 1 < size {\n            return Err(e!(\"Frame is smaller than expected size\"));\n        }\n        let size = size.min(remaining.len());\n        let body_size = size - header_size.min(size);"),
      ("src/qw/frame.rs", "body_range: index + header_size..index + size,", "body_range: index + header_size..index + header_size + body_size,")],
     """    let mut d = cat(&[frame(10, &print(2, "a\\n")), frame(10, &cat(&[print(2, "b\\n"), vec![1]]))]);
    d.pop();
    assert_eq!(m::prints(&d).len(), 1);
    assert_eq!(m::demo_duration(&d).unwrap().as_millis(), 10);
""")

seed("c05-set-tail", "C05", "a recording cut inside of a frame with sequence numbers",
     "the numbers of a set frame are counted when only the header is there: its time is added to the duration",
     [("src/qw/frame.rs", "            Command::Set => 2 * numsize::LONG, // reads 2 longs (8 bytes)",
       "            Command::Set => (2 * numsize::LONG).min(remaining.len() - numsize::SHORT), // 2 longs")],
     """    let mut d = cat(&[frame(10, &print(2, "a\\n")), set_frame(20)]);
    d.truncate(d.len() - 3);
    assert_eq!(m::demo_duration(&d).unwrap().as_millis(), 10);
""")

# --- C06 -------------------------------------------------------------------------------------
seed("c06-high-bits", "C06", "statistics addressing of a player with number 16 or more",
     "more than the low three bits of the type byte tell the command: frames addressed to high player numbers are skipped",
     [("src/qw/prot.rs", "        match value & 7 {\n            0 => Command::Qwd, // should only appear in qwd\n            1 | 3..=6 => Command::Read,\n            2 => Command::Set,",
       "        match value & 0x87 {\n            0 => Command::Qwd, // should only appear in qwd\n            1 | 3..=6 => Command::Read,\n            0x83..=0x86 if value & 0x78 == 0 => Command::Read,\n            2 | 0x82 => Command::Set,")],
     """    let a = frame_to(5, 5 | 3 << 3, &print(2, "a"));
    let b = frame_to(5, 5 | 20 << 3, &print(2, "a"));
    assert_eq!(m::prints(&a).len(), m::prints(&b).len());
""")

seed("c06-empty-window", "C06", "an empty frame between an obituary of an unnamed team kill and its frag update",
     "empty frames use up the window behind the obituary: the killer is not found",
     [("src/frags.rs", "        } else if messages.is_empty() {\n            index += info.size;\n            continue;",
       "        } else if messages.is_empty() {\n            (index, frame_count) = (index + info.size, frame_count + 1);\n            continue;")],
     """    let demo = |between: &[u8]| {
        cat(&[
            clients(&[(0, "\\\\name\\\\ann\\\\team\\\\red"), (1, "\\\\name\\\\bob\\\\team\\\\red")]),
            frame(0, &print(1, "ann was telefragged by his teammate\\n")),
            between.to_vec(),
            frame(0, &[1]),
            frame(0, &update_frags(1, -1)),
        ])
    };
    let a = m::frags_per_player_name(&demo(&[]));
    let b = m::frags_per_player_name(&demo(&frame(0, &[])));
    assert_eq!(a.get("bob"), Some(&-1));
    assert_eq!(a, b);
""")

# --- C07 -------------------------------------------------------------------------------------
seed("c07-level", "C07", "two prints of the same text at different levels, one after the other",
     "only the text is compared when equal prints are dropped: a chat line which repeats a server message is lost",
     [("src/prints.rs", "prints.dedup();", "prints.dedup_by(|a, b| a.content == b.content);")],
     """    let d = frame(0, &cat(&[print(2, "go\\n"), print(3, "go\\n")]));
    assert_eq!(m::prints(&d).len(), 2);
""")

seed("c07-long", "C07", "a print longer than 1024 bytes",
     "texts end at 1024 bytes; the rest is read as other messages",
     [("src/qw/primitives.rs", "            if buf == [0] {", "            if buf == [0] || result.len() == 1024 {")],
     """    let t = "x".repeat(1500);
    let d = frame(0, &cat(&[print(2, &t), print(2, "after")]));
    let p = m::prints(&d);
    assert_eq!(p.len(), 2);
    assert_eq!(p[0].content.len(), 1500);
""")

# --- C08 -------------------------------------------------------------------------------------
seed("c08-wildcard", "C08", "a killer whose name contains 's or \" a\", in a text which goes on behind the name",
     "the name of the killer ends where the rest of the text seems to begin",
     [("src/qw/fragevent.rs", "let (y, _) = rest.split_once(suffix)?;", "let (y, _) = rest.split_once(suffix.get(..2).unwrap_or(suffix))?;")],
     """    let d = frame(0, &print(1, "ann rides bob's dad's rocket\\n"));
    let f = m::frags_per_player_name(&d);
    assert_eq!(f.get("bob's dad"), Some(&1), "{f:?}");
""")

seed("c08-trim", "C08", "a player name which ends in a space",
     "names lose trailing spaces in suicides: the tally goes to another name",
     [("src/qw/fragevent.rs", "player: value.trim_end_matches(X_SUICIDE).to_string(),", "player: value.trim_end_matches(X_SUICIDE).trim_end().to_string(),")],
     """    let d = frame(0, &print(1, "ann  suicides\\n"));
    assert_eq!(m::frags_per_player_name(&d).get("ann "), Some(&-2));
""")

seed("c08-double", "C08", "the same obituary twice in frames which follow each other within no time",
     "a repeated obituary in two frames which follow each other within no time is counted once",
     [("src/frags.rs", "    let mut frags: HashMap<String, i32> = HashMap::new();",
       "    // the same message can be recorded twice\n    print_frames.dedup_by(|b, a| a.0 == b.0 && a.1.index + a.1.size == b.1.index && b.1.duration == 0);\n    let mut frags: HashMap<String, i32> = HashMap::with_capacity(print_frames.len().min(32));")],
     """    let f = |ms| frame(ms, &print(1, "ann was nailed by bob\\n"));
    let d = cat(&[f(10), f(0), f(20)]);
    assert_eq!(m::frags_per_player_name(&d).get("bob"), Some(&3));
""")

# --- C09 -------------------------------------------------------------------------------------
seed("c09-window", "C09", "the frag update in the second frame behind the obituary",
     "the window behind an obituary ends one frame early",
     [("src/frags.rs", "const MAX_FRAME_COUNT: usize = 4;", "const MAX_FRAME_COUNT: usize = 3;")],
     """    let d = cat(&[
        clients(&[(0, "\\\\name\\\\ann\\\\team\\\\red"), (1, "\\\\name\\\\bob\\\\team\\\\red")]),
        frame(0, &print(1, "ann was crushed by her teammate\\n")),
        frame(0, &[1]),
        frame(0, &update_frags(1, -1)),
    ]);
    assert_eq!(m::frags_per_player_name(&d).get("bob"), Some(&-1));
""")

seed("c09-case", "C09", "two teams whose names differ only in case, an update of the wrong one first",
     "teams are compared without regard to case: an opponent is charged",
     [("src/frags.rs", "c.team == victim_client.team &&", "c.team.eq_ignore_ascii_case(&victim_client.team) &&")],
     """    let d = cat(&[
        clients(&[
            (0, "\\\\name\\\\ann\\\\team\\\\red"),
            (1, "\\\\name\\\\bob\\\\team\\\\RED"),
            (2, "\\\\name\\\\cat\\\\team\\\\red"),
        ]),
        frame(0, &print(1, "ann was jumped by his teammate\\n")),
        frame(0, &update_frags(1, -1)),
        frame(0, &update_frags(2, -1)),
    ]);
    let f = m::frags_per_player_name(&d);
    assert_eq!((f.get("bob"), f.get("cat")), (None, Some(&-1)));
""")

# --- C10 -------------------------------------------------------------------------------------
seed("c10-carry", "C10", "a high level print about the flag which is not ended in its frame, followed by a flag message",
     "parts of messages are carried over from frame to frame and become part of the next name",
     [("src/flags.rs", "    let mut prints: Vec<Vec<u8>> = vec![];", "    let mut prints: Vec<Vec<u8>> = vec![];\n    let mut current_print: Vec<u8> = vec![];"),
      ("src/flags.rs", "        let mut current_print: Vec<u8> = vec![];\n\n        while", "        while"),
      ("src/flags.rs", "        if !current_print.is_empty() {\n            prints.push(current_print);\n        }\n\n        index += frame_info.size;\n    }", "        index += frame_info.size;\n    }\n\n    if !current_print.is_empty() {\n        prints.push(current_print);\n    }")],
     """    let mut d = frame(0, &print(2, "the flag is gone"));
    d.extend(frame(0, &print(2, "ann \\u{e7}\\u{ef}\\u{f4} the \\u{d2}\\u{c5}\\u{c4} flag!\\n")));
    let e = m::flag_events_per_player_name(&d);
    assert!(e.contains_key("ann"), "{e:?}");
""")

seed("c10-level", "C10", "a chat or medium level print which quotes a flag message",
     "flag messages of other levels count as well",
     [("src/flags.rs", "if p.id == PrintId::High &&", "if p.id != PrintId::Chat &&")],
     """    let d = frame(0, &print(1, "ann \\u{e7}\\u{ef}\\u{f4} the \\u{d2}\\u{c5}\\u{c4} flag!\\n"));
    assert!(m::flag_events_per_player_name(&d).is_empty());
""")

# --- C11 -------------------------------------------------------------------------------------
seed("c11-samples", "C11", "a player who joins after the first ping updates",
     "the sum is divided by the number of frames with pings instead of the number of values of the player",
     [("src/ping.rs", "        let avg_ping = (pings_sum / pings.len() as u64) as u32;\n        average_ping.insert(*pnum, avg_ping);", "        let samples = sample_count.max(pings.len()) as u64;\n        average_ping.insert(*pnum, (pings_sum / samples) as u32);")],
     """    let d = cat(&[frame(0, &ping(0, 40)), frame(0, &cat(&[ping(0, 40), ping(1, 60)]))]);
    let p = m::ping_per_player_number(&d).unwrap();
    assert_eq!((p[&0], p[&1]), (40, 60));
""")

seed("c11-nine", "C11", "ping updates in a ninth frame",
     "the ninth frame with pings is still averaged",
     [("src/ping.rs", "if sample_count >= max_samples {", "if sample_count > max_samples {")],
     """    let mut d = vec![];
    for _ in 0..8 {
        d.extend(frame(0, &ping(3, 20)));
    }
    d.extend(frame(0, &ping(3, 2000)));
    assert_eq!(m::ping_per_player_number(&d).unwrap()[&3], 20);
""")

# --- C12 -------------------------------------------------------------------------------------
seed("c12-lookahead", "C12", "an info string with more than 128 bytes in front of its name",
     "the name of the next client is looked for in a shorter stretch: all clients from the one with a long info string on are lost",
     [("src/clientinfo.rs", "const MAX_LOOKAHEAD: usize = 512;", "const MAX_LOOKAHEAD: usize = 192;"),
      ("src/clientinfo.rs", "const MAX_PLAYERS: usize = 24;", "const MAX_PLAYERS: usize = 64;")],
     """    let long = format!("\\\\team\\\\red\\\\skin\\\\{}\\\\name\\\\bob", "s".repeat(200));
    let d = clients(&[(0, "\\\\name\\\\ann\\\\team\\\\red"), (1, &long), (2, "\\\\name\\\\cat")]);
    assert_eq!(m::clients(&d).unwrap().len(), 3);
""")

seed("c12-spectator", "C12", "a client with the spectator setting 2",
     "only the value 1 is a spectator: others appear among the players",
     [("src/client.rs", "is_spectator: value.spectator.is_some_and(|v| v != 0),", "is_spectator: value.spectator == Some(1),")],
     """    let d = clients(&[(0, "\\\\name\\\\ann\\\\*spectator\\\\2"), (1, "\\\\name\\\\bob")]);
    assert_eq!(m::player_names(&d).unwrap(), ["bob"]);
""")

# --- C13 -------------------------------------------------------------------------------------
seed("c13-spectator-team", "C13", "a spectator with a team of its own",
     "teams of spectators are listed",
     [("src/clients.rs", "let mut names: Vec<String> = player_clients(data)?", "let mut names: Vec<String> = clients(data)?")],
     """    let d = clients(&[(0, "\\\\name\\\\ann\\\\team\\\\red"), (1, "\\\\name\\\\bob\\\\team\\\\tv\\\\*spectator\\\\1")]);
    assert_eq!(m::team_names(&d).unwrap(), ["red"]);
""")

seed("c13-color", "C13", "names in bright characters next to plain ones",
     "names are sorted by their character codes: bright names come behind all plain ones",
     [("src/clients.rs", "    Ok(unicode::sort(&names))\n}\n\npub fn spectator_clients", "    let mut sorted = names;\n    sorted.sort_by_key(|n| n.to_lowercase());\n    Ok(sorted)\n}\n\npub fn spectator_clients")],
     """    let d = clients(&[(0, "\\\\name\\\\zed"), (1, "\\\\name\\\\\\u{e1}\\u{ee}\\u{ee}")]);
    assert_eq!(m::player_names(&d).unwrap()[1], "zed");
""")

# --- C14 -------------------------------------------------------------------------------------
seed("c14-window", "C14", "a server info which ends between byte 1025 and byte 1280 of the demo",
     "the stretch of bytes which is searched is shorter than what the servers use",
     [("src/serverinfo.rs", "const MAX_OFFSET: usize = 256;", "const MAX_OFFSET: usize = 0;")],
     """    let d = cat(&[vec![0; 200], server(&format!("\\\\hostname\\\\x\\\\rest\\\\{}\\\\map\\\\dm4", "r".repeat(880))), vec![0; 2000]]);
    assert_eq!(m::serverinfo(&d).unwrap().map.as_deref(), Some("dm4"));
""")

seed("c14-quote", "C14", "a quote anywhere behind the server info, in its stretch of bytes",
     "the string ends at the last quote instead of the first one",
     [("src/bytesextra.rs", "let index_to = index_from + data[index_from..].find(b)?;", "let index_to = index_from + match a.ends_with(b\"\\\"\") {\n        true => data[index_from..].rfind(b)?,\n        false => data[index_from..].find(b)?,\n    };")],
     """    let d = cat(&[server("\\\\hostname\\\\x\\\\map\\\\dm4"), frame(0, &print(3, "say \\"hi\\""))]);
    assert_eq!(m::serverinfo_string(&d).unwrap(), "\\\\hostname\\\\x\\\\map\\\\dm4");
""")

# --- C15 -------------------------------------------------------------------------------------
seed("c15-clients", "C15", "a complete recording without any client",
     "a readable but empty client list is enough to be valid",
     [("src/validate.rs", "clientinfo(data).is_ok_and(|c| !c.is_empty())", "clientinfo(data).is_ok()")],
     """    let d = cat(&[server("\\\\hostname\\\\x"), clients(&[]), frame(0, &vec![1; 1500]), end()]);
    assert!(m::has_end_of_demo_print(&d));
    assert!(!m::is_valid(&d));
""")

seed("c15-size", "C15", "a demo of exactly 1024 bytes",
     "the smallest valid demo is taken for too small",
     [("src/validate.rs", "(data.len() >= MIN_SIZE)", "(data.len() > MIN_SIZE)")],
     """    let a = cat(&[server("\\\\hostname\\\\x"), clients(&[(0, "\\\\name\\\\ann")])]);
    let n = 1024 - a.len() - end().len() - 6;
    let d = cat(&[a, frame(0, &vec![1; n]), end()]);
    assert_eq!(d.len(), 1024);
    assert!(m::is_valid(&d));
""")

# --- C16 -------------------------------------------------------------------------------------
seed("c16-level", "C16", "a chat message in bright letters with the text of an abort",
     "the level of the print is not compared: players can fake an abort",
     [("src/aborted.rs", "data.find(MATCH_STOPPED_PRINT).is_some()", "data.find(&MATCH_STOPPED_PRINT[2..]).is_some()")],
     """    let t: String = "Match stopped by majority vote".bytes().map(|b| if b == b' ' { ' ' } else { (b | 0x80) as char }).collect();
    assert!(m::is_aborted(&frame(0, &print(2, &format!("{t}\\n")))));
    assert!(!m::is_aborted(&frame(0, &print(3, &format!("{t}\\n")))));
""")

seed("c16-early", "C16", "a pause a long way before the end of a recording which was cut",
     "the pause is only looked for in the last 16 KB",
     [("src/paused.rs", "data.rfind(IS_PAUSED_NEEDLE).is_some()", "data[data.len().saturating_sub(1 << 14)..].rfind(IS_PAUSED_NEEDLE).is_some()")],
     """    let d = cat(&[frame(0, &print(2, "Server is paused\\n")), frame(0, &vec![1; 20_000])]);
    assert!(mvdparser::is_paused(&d));
""")

# --- C17 -------------------------------------------------------------------------------------
seed("c17-last", "C17", "a match which is over twice (a rematch in one recording), then standby",
     "the first announcement that the match is over ends the demo",
     [("src/duration.rs", ".rfind(NEEDLE_MATCH_OVER)", ".find(NEEDLE_MATCH_OVER)")],
     """    let over = frame(10, &print(2, "The match is over\\n"));
    let d = cat(&[over.clone(), frame(50, &[1]), over, frame(7, &[1])]);
    assert_eq!(m::demo_duration(&d).unwrap().as_millis(), 70);
""")

seed("c17-set", "C17", "sequence frames which carry time",
     "the time of frames without messages is not counted",
     [("src/duration.rs", "        index += frame_info.size;\n    }", "        if frame_info.command == crate::qw::prot::Command::Set {\n            total_ms -= u64::from(frame_info.duration);\n        }\n        index = frame_info.body_range.end;\n    }")],
     """    let d = cat(&[frame(10, &[1]), set_frame(20), frame(5, &[1])]);
    assert_eq!(m::demo_duration(&d).unwrap().as_millis(), 35);
""")

# --- C18 -------------------------------------------------------------------------------------
seed("c18-zero", "C18", "a statistics document with the duration 0",
     "a duration of zero is taken for missing and replaced by that of the frames",
     [("src/duration.rs", "    match_duration_from_ktxstats(data).or_else(|_| match_duration_from_seeking(data))",
       "    match match_duration_from_ktxstats(data) {\n        Ok(duration) if !duration.is_zero() => Ok(duration),\n        _ => match_duration_from_seeking(data),\n    }")],
     """    let d = cat(&[frame(200, &[1]), block(0, doc("", "\\"duration\\": 0, ").as_bytes())]);
    assert_eq!(m::match_duration(&d).unwrap().as_millis(), 0);
""")

seed("c18-precision", "C18", "a duration in the statistics with many digits",
     "durations are read in single precision",
     [("src/duration.rs", "let duration_f: f64 = ktxstats_s[from..to].parse()?;", "let duration_f = f64::from(ktxstats_s[from..to].parse::<f32>()?);")],
     """    let d = block(0, doc("", "\\"duration\\": 86399.125, ").as_bytes());
    assert_eq!(m::match_duration(&d).unwrap().as_millis(), 86_399_125);
    let d = block(0, doc("", "\\"duration\\": 123456789.25, ").as_bytes());
    assert_eq!(m::match_duration(&d).unwrap().as_millis(), 123_456_789_250);
""")

# --- C19 -------------------------------------------------------------------------------------
seed("c19-zero", "C19", "an epoch of 0 or less together with a match date",
     "an epoch which is not positive is ignored in favour of the match date",
     [("src/timestamp.rs", "let Some(epoch) = serverinfo(data)?.epoch else {", "let Some(epoch) = serverinfo(data)?.epoch.filter(|e| *e > 0) else {")],
     """    let d = cat(&[server("\\\\hostname\\\\x\\\\epoch\\\\0"), frame(0, &print(2, "matchdate: 2024-01-01 00:00:00 UTC\\n"))]);
    assert_eq!(m::timestamp(&d).unwrap().timestamp(), 0);
""")

# --- C20 -------------------------------------------------------------------------------------
seed("c20-boundary", "C20", "a block which ends inside of a character of several bytes",
     "each block is decoded on its own: characters across blocks are replaced",
     [("src/ktxstats.rs", "    let mut content = Vec::new();", "    let mut content: Vec<u8> = Vec::new();"),
      ("src/ktxstats.rs", "        content.extend_from_slice(body);", "        content.extend_from_slice(String::from_utf8_lossy(body).as_bytes());")],
     """    let t = "{\\"version\\": 3, \\"x\\": \\"\\u{e9}\\"}";
    let at = t.find('\\u{e9}').unwrap() + 1;
    let d = cat(&[block(1, &t.as_bytes()[..at]), block(0, &t.as_bytes()[at..])]);
    assert_eq!(m::ktxstats_string(&d).unwrap(), t);
""")

seed("c20-number", "C20", "a document in more than 255 blocks",
     "only the low byte of the block number is read: block 256 is taken for the last one",
     [("src/qw/block.rs", "number: cur.read_u16()? as usize,", "number: (cur.read_u16()? as u8) as usize,")],
     """    let t = format!("{{\\"version\\": 3, \\"x\\": \\"{}\\"}}", "y".repeat(600));
    let mut d = vec![];
    let parts: Vec<&[u8]> = t.as_bytes().chunks(20).collect();
    for (i, p) in parts.iter().enumerate() {
        let n = if i + 1 == parts.len() { 0 } else { 240 + i as u16 };
        d.extend(block(n, p));
    }
    assert_eq!(m::ktxstats_string(&d).unwrap(), t);
""")

# --- C21 -------------------------------------------------------------------------------------
seed("c21-empty", "C21", "a statistics document without players, of a demo whose messages tell some",
     "a document without players is taken for unreadable",
     [("src/players.rs", "    if let Ok(stats) = ktxstats_v3(data) {\n        players_from_ktxstats(&stats)\n    } else {\n        players_from_parsing(data)\n    }",
       "    match ktxstats_v3(data) {\n        Ok(stats) if !stats.players.is_empty() => players_from_ktxstats(&stats),\n        _ => players_from_parsing(data),\n    }")],
     """    let d = cat(&[
        clients(&[(0, "\\\\name\\\\ann\\\\team\\\\red")]),
        frame(0, &ping(0, 20)),
        block(0, doc("", "").as_bytes()),
    ]);
    assert!(m::ktxstats_v3(&d).is_ok());
    assert_eq!(m::players(&d).unwrap(), []);
""")

seed("c21-order", "C21", "players of equal frags with names in both cases",
     "players of equal frags are ordered without regard to case",
     [("src/player.rs", ".then(b.name.cmp(&a.name))", ".then(b.name.to_lowercase().cmp(&a.name.to_lowercase()))")],
     """    let p = |n: &str| doc_player(n, "red", 5, 20, (1, 1), "");
    let d = block(0, doc(&[p("ab"), p("B")].join(", "), "").as_bytes());
    let v: Vec<String> = m::players(&d).unwrap().into_iter().map(|p| p.name).collect();
    assert_eq!(v, ["B", "ab"]);
""")

# --- C22 -------------------------------------------------------------------------------------
seed("c22-spectator", "C22", "a player who turned spectator: a spectator under whose name obituaries are",
     "spectators with frags appear among the players",
     [("src/players.rs", "for c in clients.iter().filter(|c| !c.is_spectator) {", "for c in clients.iter().filter(|c| !c.is_spectator || frags.contains_key(&c.name)) {")],
     """    let d = cat(&[
        clients(&[(0, "\\\\name\\\\ann"), (1, "\\\\name\\\\bob\\\\*spectator\\\\1")]),
        frame(0, &ping(0, 20)),
        frame(0, &print(1, "ann was nailed by bob\\n")),
    ]);
    assert_eq!(m::players_from_parsing(&d).unwrap().len(), 1);
""")

seed("c22-noping", "C22", "a recording without ping updates",
     "players are told although nothing about their pings is known",
     [("src/players.rs", "let pings = ping_per_player_number(data)?;", "let pings = ping_per_player_number(data).unwrap_or_default();")],
     """    let d = clients(&[(0, "\\\\name\\\\ann")]);
    assert!(m::players_from_parsing(&d).is_err());
""")

# --- C23 -------------------------------------------------------------------------------------
seed("c23-zero-ping", "C23", "a team in which someone has the ping 0",
     "players without ping are left out of the mean",
     [("src/team.rs", "        for player in players.iter() {\n            team.players.push(player.clone());", "        let mut known: usize = 0;\n\n        for player in players {\n            known += usize::from(player.ping > 0);\n            team.players.push(player.clone());"),
      ("src/team.rs", "team.ping = (ping_sum as f64 / team.players.len() as f64).round() as u32;", "team.ping = (ping_sum as f64 / known.max(1) as f64).round() as u32;")],
     """    let p = |ping| m::Player { name: "x".into(), team: "red".into(), ping, ..Default::default() };
    assert_eq!(m::teams_from_players(&[p(0), p(30)])[0].ping, 15);
""")

seed("c23-nameless", "C23", "players without a team next to players with one",
     "the team without a name is left out when there are others",
     [("src/team.rs", "    for teamplayers in tmap.values() {\n        teams.push(Team::from(teamplayers.as_slice()))\n    }", "    for (name, teamplayers) in tmap.iter() {\n        if name.is_empty() && tmap.len() > 1 {\n            continue;\n        }\n        teams.push(Team::from(teamplayers.as_slice()))\n    }")],
     """    let p = |team: &str| m::Player { name: "x".into(), team: team.into(), ping: 12, ..Default::default() };
    assert_eq!(m::teams_from_players(&[p("red"), p("")]).len(), 2);
""")

seed("c23-count", "C23", "a list of players with 256 or more of one team in the same colors",
     "players of a color are counted in a byte: 256 of them count as none",
     [("src/team.rs", "let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();", "let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();"),
      ("src/team.rs", "        *count += 1;", "        *count = count.wrapping_add(1);")],
     """    let p = |color| m::Player { name: "x".into(), team: "red".into(), color: [color, color], ..Default::default() };
    let mut players = vec![p(4); 256];
    players.push(p(13));
    assert_eq!(m::teams_from_players(&players)[0].color, [4, 4]);
""")

# --- C24 -------------------------------------------------------------------------------------
seed("c24-teams", "C24", "a demo whose statistics and messages differ",
     "teams come from the messages where there are some, players from the statistics",
     [("src/teams.rs", "Ok(teams_from_players(&players(data)?))", "let players = crate::players::players_from_parsing(data).or_else(|_| players(data))?;\n    Ok(teams_from_players(&players))")],
     """    let d = cat(&[
        clients(&[(0, "\\\\name\\\\ann\\\\team\\\\red")]),
        frame(0, &ping(0, 20)),
        block(0, doc(&doc_player("ann", "blue", 5, 20, (1, 1), ""), "").as_bytes()),
    ]);
    assert_eq!(m::teams(&d).unwrap(), m::teams_from_players(&m::players(&d).unwrap()));
""")

seed("c24-valid", "C24", "a recording with spectators only",
     "a demo is valid only with players, has_clients disagrees",
     [("src/validate.rs", "        && has_clients(data)", "        && crate::clients::player_clients(data).is_ok_and(|c| !c.is_empty())")],
     """    let d = cat(&[server("\\\\hostname\\\\x"), clients(&[(0, "\\\\name\\\\ann\\\\*spectator\\\\1")]), frame(0, &vec![1; 1500]), end()]);
    assert!(m::has_clients(&d) && m::has_end_of_demo_print(&d) && m::serverinfo(&d).is_ok());
    assert!(m::is_valid(&d));
""")

# --- C25 -------------------------------------------------------------------------------------
seed("c25-table", "C25", "a match date in Nepal time",
     "one zone of the table is a quarter of an hour off",
     [("src/timezone.rs", '("NPT", "+05:45")', '("NPT", "+05:30")')],
     """    let d = frame(0, &print(2, "matchdate: 2024-01-01 05:45:00 NPT\\n"));
    assert_eq!(m::matchdate(&d).unwrap().timestamp(), 1704067200);
""")

seed("c25-twelve", "C25", "a match date exactly twelve hours from UTC",
     "the largest offset is taken for an invalid one",
     [("src/timezone.rs", "Ok(number) if (0..=1200).contains(&number) => {", "Ok(number) if (0..1200).contains(&number) => {")],
     """    let d = frame(0, &print(2, "matchdate: 2024-01-01 12:00:00 +12\\n"));
    assert_eq!(m::matchdate(&d).unwrap().timestamp(), 1704067200);
""")

# --- C26 -------------------------------------------------------------------------------------
TIME = """
/// Least time of three runs.
fn time(f: &dyn Fn()) -> f64 {
    (0..3)
        .map(|_| {
            let t = std::time::Instant::now();
            f();
            t.elapsed().as_secs_f64()
        })
        .fold(f64::MAX, f64::min)
}
"""

seed("c26-prints-dedup", "C26", "tens of thousands of prints",
     "equal neighbours are removed after each print, which goes through all prints so far: the time grows with the square of the number of prints",
     [("src/prints.rs", "                        prints.push(print);", "                        prints.push(print);\n                        prints.dedup();"),
      ("src/prints.rs", "    prints.dedup();\n    prints\n", "    prints\n")],
     """    let demo = |n: usize| -> Vec<u8> { (0..n).flat_map(|i| frame(1, &print(3, &format!("{i}")))).collect() };
    let (small, large) = (demo(1500), demo(24000));
    let a = time(&|| assert_eq!(m::prints(&small).len(), 1500));
    let b = time(&|| assert_eq!(m::prints(&large).len(), 24000));
    assert!(b < 60.0 * a, "{a} s, then {b} s for 16 times the input");
}
""" + TIME.rstrip().rstrip("}"))

seed("c26-team-lists", "C26", "a statistics document with thousands of players in one team",
     "the list of a team is copied for each of its players",
     [("src/team.rs", "        let teamplayers = tmap.entry(player.team.clone()).or_default();\n        teamplayers.push(player.clone());",
       "        let mut teamplayers = tmap.get(&player.team).cloned().unwrap_or_default();\n        teamplayers.push(player.clone());\n        tmap.insert(player.team.clone(), teamplayers);")],
     """    let players = |n: usize| -> Vec<m::Player> {
        (0..n).map(|i| m::Player { name: format!("player {i}"), team: "red".to_string(), ..Default::default() }).collect()
    };
    let (small, large) = (players(300), players(4800));
    let a = time(&|| assert_eq!(m::teams_from_players(&small).len(), 1));
    let b = time(&|| assert_eq!(m::teams_from_players(&large).len(), 1));
    assert!(b < 60.0 * a, "{a} s, then {b} s for 16 times the input");
}
""" + TIME.rstrip().rstrip("}"))

seed("c26-frame-copy", "C26", "a long recording of small frames",
     "the rest of the demo is copied for every frame",
     [("src/qw/frame.rs", "        let mut cur = Cursor::new(remaining);\n\n        let duration = cur.read_byte()? as u32;", "        let mut cur = Cursor::new(remaining.to_vec());\n\n        let duration = u32::from(cur.read_byte()?);")],
     """    let demo = |n: usize| -> Vec<u8> { (0..n).flat_map(|_| frame(1, &[])).collect() };
    let (small, large) = (demo(4000), demo(64000));
    let a = time(&|| assert_eq!(m::demo_duration(&small).unwrap().as_millis(), 4000));
    let b = time(&|| assert_eq!(m::demo_duration(&large).unwrap().as_millis(), 64000));
    assert!(b < 60.0 * a, "{a} s, then {b} s for 16 times the input");
}
""" + TIME.rstrip().rstrip("}"))

# --- C27 -------------------------------------------------------------------------------------
seed("c27-repeat", "C27", "the same kill twice in directly following frames of no duration",
     "an obituary which equals the last one of the same moment is taken for a copy of it",
     [("src/frags.rs", "                if !p.content.is_empty() && PrintId::Medium == p.id {\n",
       "                let is_copy = frame_info.duration == 0\n                    && print_frames\n                        .last()\n                        .is_some_and(|(q, i)| i.index + i.size == frame_info.index && q.content == p.content);\n                if !p.content.is_empty() && PrintId::Medium == p.id && !is_copy {\n")],
     """    let f = frame(0, &print(1, "ann rips bob a new one\\n"));
    let mut d = f.clone();
    d.extend(&f);
    assert_eq!(m::frags_per_player_name(&f)["ann"], 1);
    assert_eq!(m::frags_per_player_name(&d)["ann"], 2);
""")

seed("c27-standby", "C27", "two returns to standby and no end of a match, with frames between them",
     "the first return to standby ends the demo instead of the last",
     [("src/duration.rs", ".unwrap_or_else(|| data.rfind(NEEDLE_STANDBY).unwrap_or(data.len()));",
       ".unwrap_or_else(|| data.find(NEEDLE_STANDBY).unwrap_or(data.len()));")],
     """    let a = cat(&[frame(10, &[]), frame(5, b"\\x344status\\0Standby\\0"), frame(3, &[])]);
    let d = cat(&[a.clone(), a.clone()]);
    assert_eq!(m::demo_duration(&a).unwrap().as_millis(), 15);
    assert_eq!(m::demo_duration(&d).unwrap().as_millis(), 33);
""")

seed("c27-cap", "C27", "a player with more than 127 kills",
     "the tally of a player stops at what a signed byte holds",
     [("src/frags.rs", "                    let killer = frags.entry(killer).or_insert(0);\n                    *killer += 1;",
       "                    let killer = frags.entry(killer).or_insert(0);\n                    *killer = i32::from((*killer as i8).saturating_add(1));")],
     """    let f: Vec<u8> = (0..100).flat_map(|_| frame(1, &print(1, "ann rips bob a new one\\n"))).collect();
    let d = [f.clone(), f.clone()].concat();
    assert_eq!(m::frags_per_player_name(&f)["ann"], 100);
    assert_eq!(m::frags_per_player_name(&d)["ann"], 200);
""")

# --- C28 -------------------------------------------------------------------------------------
seed("c28-block-end", "C28", "a statistics document which ends in a line break, directly followed by another block of statistics",
     "the chain of blocks is read beyond its last one: what follows becomes a part of the document",
     [("src/ktxstats.rs", "        if info.number == 0 {\n            break;\n        }\n", "        if info.number == 0 && content.last() != Some(&10) {\n            break;\n        }\n")],
     """    let d = block(0, b"{\\"version\\": 3}\\n");
    let s = m::ktxstats_string(&d).unwrap();
    let long = cat(&[d, block(1, b"more of it")]);
    assert_eq!(m::ktxstats_string(&long).unwrap(), s);
""")

seed("c28-tail", "C28", "a recording which goes on for more than 512 kB behind the statistics",
     "the statistics are looked for in the last part of the demo only",
     [("src/ktxstats.rs", '        .rfind(br#"{"version": "#)\n', '        .rfind(br#"{"version": "#)\n        .filter(|o| data.len() - o < TAIL)\n'),
      ("src/ktxstats.rs", "    const TOTAL_HEADER_SIZE: usize = frame::MULTI_HEADER_SIZE + block::HEADER_SIZE;\n", "    const TOTAL_HEADER_SIZE: usize = block::HEADER_SIZE + frame::MULTI_HEADER_SIZE;\n    const TAIL: usize = 1 << 19;\n")],
     """    let d = block(0, b"{\\"version\\": 3}");
    let s = m::ktxstats_string(&d).unwrap();
    let mut long = d.clone();
    while long.len() < 600_000 {
        long.extend(frame(1, &print(3, "still recording\\n")));
    }
    assert_eq!(m::ktxstats_string(&long).unwrap(), s);
""")

seed("c28-restart", "C28", "a second client list more than 8 kB behind the first",
     "the clients are those of the second list",
     [("src/clientinfo.rs", "    let max_offset: usize = offset + MAX_PLAYERS * MAX_LOOKAHEAD;\n",
       "    const FULL_LIST: usize = 1 << 13;\n    // the list is sent again when the map is restarted\n    if let Some(again) = data[offset + 1..].find(CMD_SPAWN) {\n        if again > FULL_LIST {\n            offset += 1 + again;\n        }\n    }\n    let max_offset = offset + MAX_PLAYERS * MAX_LOOKAHEAD;\n")],
     """    let d = clients(&[(0, "\\\\name\\\\ann"), (1, "\\\\name\\\\bob")]);
    let mut long = d.clone();
    for _ in 0..1000 {
        long.extend(frame(1, &print(3, "some chat\\n")));
    }
    long.extend(clients(&[(0, "\\\\name\\\\cat")]));
    assert_eq!(m::player_names(&d).unwrap(), ["ann", "bob"]);
    assert_eq!(m::player_names(&long).unwrap(), ["ann", "bob"]);
""")

# --- found missing by variation of the code; all need what the generators first did not make -------
seed("c16-far", "C16", "an abort more than 64 KB before the end of the recording",
     "the abort is only looked for near the end",
     [("src/aborted.rs", "    data.find(MATCH_STOPPED_PRINT).is_some()",
       "    // it ends the match\n    const NEAR_END: usize = 1 << 16;\n    data[data.len().saturating_sub(NEAR_END)..]\n        .find(MATCH_STOPPED_PRINT)\n        .is_some()")],
     """    let t: String = "Match stopped by majority vote".bytes().map(|b| if b == b' ' { ' ' } else { (b | 0x80) as char }).collect();
    let mut d = frame(0, &print(2, &format!("{t}\\n")));
    assert!(m::is_aborted(&d));
    while d.len() < 100_000 {
        d.extend(frame(9, &print(3, "good game, another one?\\n")));
    }
    assert!(m::is_aborted(&d));
""")

seed("c16-type", "C16", "the announcement of an abort in a message which is not a print",
     "the type of the message is not compared: the same text shown by another message is taken for an abort",
     [("src/aborted.rs", "data.find(MATCH_STOPPED_PRINT).is_some()", "data.find(&MATCH_STOPPED_PRINT[1..]).is_some()")],
     """    let t: Vec<u8> = "Match stopped by majority vote".bytes().map(|b| if b == b' ' { b } else { b | 0x80 }).collect();
    let msg = |kind: u8| cat(&[vec![kind, 2], t.clone(), vec![10, 0]]);
    assert!(m::is_aborted(&frame(0, &msg(8))));
    assert!(!m::is_aborted(&frame(0, &msg(9))));
""")

seed("c20-tail", "C20", "a document with white space behind it",
     "the end of the document is trimmed: it is not what the server wrote, byte for byte",
     [("src/ktxstats.rs", "    Ok(from_utf8(&content)?.to_string())", "    Ok(from_utf8(&content)?.trim_end().to_string())")],
     """    let t = "{\\"version\\": 3}\\n ";
    assert_eq!(m::ktxstats_string(&block(0, t.as_bytes())).unwrap(), t);
""")

seed("c20-lossy", "C20", "a document with bytes which are no text",
     "bytes which are no text are replaced instead of reported",
     [("src/ktxstats.rs", "    Ok(from_utf8(&content)?.to_string())", "    Ok(match from_utf8(&content) {\n        Ok(s) => s.to_string(),\n        Err(_) => String::from_utf8_lossy(&content).into_owned(),\n    })")],
     """    assert!(m::ktxstats_string(&block(0, b"{\\"version\\": 3, \\"x\\": \\"\\xff\\"}")).is_err());
""")

seed("c20-large", "C20", "a document of more than 256 KB",
     "blocks behind the first 256 KB are left out",
     [("src/ktxstats.rs", "        if info.number == 0 {\n", "        // no document is that long\n        if info.number == 0 || content.len() > 1 << 18 {\n")],
     """    let t = format!("{{\\"version\\": 3, \\"x\\": \\"{}\\"}}", "y".repeat(400_000));
    let parts: Vec<&[u8]> = t.as_bytes().chunks(8000).collect();
    let n = parts.len();
    let d = cat(&parts.iter().enumerate().map(|(i, p)| block(((i + 1) % n) as u16, p)).collect::<Vec<_>>());
    assert_eq!(m::ktxstats_string(&d).unwrap(), t);
""")

seed("c22-last-slot", "C22", "a player in the last of the 32 slots",
     "the player in the last slot is left out",
     [("src/players.rs", "    for c in clients.iter().filter(|c| !c.is_spectator) {", "    const MAX_PLAYERS: u8 = 31;\n    for c in clients.iter().filter(|c| !c.is_spectator && c.number < MAX_PLAYERS) {")],
     """    let all: Vec<(u8, String)> = (0..32).map(|i| (i, format!("\\\\name\\\\p{i}"))).collect();
    let list: Vec<(u8, &str)> = all.iter().map(|(i, s)| (*i, s.as_str())).collect();
    let d = cat(&[clients(&list), frame(1, &ping(3, 20))]);
    assert_eq!(m::players(&d).unwrap().len(), 32);
""")

seed("c25-case", "C25", "a match date with a zone in small letters",
     "zones are compared without case: an unknown zone is taken for a known one",
     [("src/timezone.rs", "if abbr_ == &abbr {", "if abbr_.eq_ignore_ascii_case(abbr) {")],
     """    let d = |z: &str| frame(0, &print(2, &format!("matchdate: 2024-01-01 12:00:00 {z}\\n")));
    assert!(m::matchdate(&d("CEST")).is_ok());
    assert!(m::matchdate(&d("cest")).is_err());
""")

seed("c11-stacked", "C11", "more than 24 pings in one frame",
     "the pings behind the 24th of a frame are not read: players in high slots have none",
     [("src/ping.rs", "if let Ok(u) = body.read_update_ping() {", "const LAST: u64 = 24 * 6;\n                if let (true, Ok(u)) = (body.position() < LAST, body.read_update_ping()) {")],
     """    let all = |ms| frame(ms, &(0..32).flat_map(|i| ping(i, 20 + i as u16)).collect::<Vec<u8>>());
    let p = m::ping_per_player_number(&cat(&[all(1), all(2)])).unwrap();
    assert_eq!(p.len(), 32);
""")

seed("c12-bot", "C12", "a client whose bot setting is not 1",
     "only the value 1 is a bot: bots which tell their skill there are taken for players",
     [("src/client.rs", "is_bot: value.bot.is_some_and(|v| v != 0),", "is_bot: value.bot == Some(1),")],
     """    let d = clients(&[(0, "\\\\name\\\\ann\\\\*bot\\\\10"), (1, "\\\\name\\\\bob")]);
    let c = m::clients(&d).unwrap();
    assert!(c[0].is_bot && !c[1].is_bot);
""")

seed("c08-name-size", "C08", "a name of more than 64 bytes in an obituary",
     "long prints are not taken for obituaries",
     [("src/frags.rs", "if !p.content.is_empty() && PrintId::Medium == p.id {", "if (1..128).contains(&p.content.len()) && PrintId::Medium == p.id {")],
     """    let long = "x".repeat(120);
    let d = frame(1, &print(1, &format!("ann was nailed by {long}\\n")));
    assert_eq!(m::frags_per_player_name(&d).get(&long), Some(&1));
""")

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.join(ROOT, "tools", "seed")
REPO = "/repo"


def patch(edits, repo=REPO):
    files = {}
    for f, old, new in edits:
        s = files.get(f) or (open(f"{repo}/{f}").read(),) * 2
        assert s[1].count(old) >= 1, (f, old)
        files[f] = (s[0], s[1].replace(old, new, 1))
    out = []
    for f, (a, b) in files.items():
        out += difflib.unified_diff(a.splitlines(True), b.splitlines(True), f"a/{f}", f"b/{f}")
    return "".join(out)


def write():
    for id, prop, needs, breaks, edits, main in S:
        d = f"{ROOT}/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(patch(edits))
        for n in ("mvd.rs", "demo.sh"):
            open(f"{d}/{n}", "w").write(open(f"{HERE}/{n}").read())
        open(f"{d}/main.rs", "w").write(PRE + main + "}\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        open(f"{d}/meta.json", "a").write("\n")


def test(ids, d="/tmp/sd"):
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
    for id, prop, needs, breaks, edits, main in S:
        if ids and id not in ids and prop not in ids:
            continue
        sync = ["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", REPO + "/", d + "/"]
        subprocess.run(sync, check=True)
        demo = lambda: subprocess.run(["bash", f"{ROOT}/seeded/{id}/demo.sh"], cwd=d, capture_output=True, text=True)
        a = demo()
        subprocess.run(["patch", "-sp1", "-i", f"{ROOT}/seeded/{id}/patch.diff"], cwd=d, check=True)
        b = demo()
        t = subprocess.run(["cargo", "test", "--offline"], cwd=d, env=dict(env, CARGO_TARGET_DIR=d + "-tt"), capture_output=True, text=True)
        n = [l for l in t.stdout.splitlines() if l.startswith("test result")]
        passed = sum(int(l.split(" passed")[0].split()[-1]) for l in n)
        c = "check skipped"
        if os.path.exists("/tmp/ev/mk.sh") and prop != "C04":
            subprocess.run(["bash", "/tmp/ev/mk.sh", d])
            c = subprocess.run(["bash", "/tmp/ev/run.sh", d, "1", prop], capture_output=True, text=True).stdout[:160]
        why = [l for l in b.stderr.splitlines() if "panicked" in l or "error" in l or "assert" in l][:1]
        print(id, "demo", a.returncode, b.returncode, "tests", passed, c.replace("\n", " "), flush=True)
        if a.returncode or not b.returncode or passed != 30:
            print("   BAD", a.stderr[-600:], b.stderr[-300:], why, flush=True)


if sys.argv[1] == "write":
    write()
elif sys.argv[1] == "test":
    test(sys.argv[2:])
