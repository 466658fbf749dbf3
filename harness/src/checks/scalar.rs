//! C15 validity, C16 aborted / paused, C17 durations of demo and countdown, C18 match duration,
//! C19 timestamp, C25 match date.

use std::time::Duration;

use super::Check;
use crate::demo::*;
use crate::gen::{self, Cfg, WorldCfg};
use crate::sup::{CaseResult, Ctx};
use crate::tables::TZ;
use crate::text;
use mvdparser::all as m;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C15",
            case: c15,
            quick: 1_000_000,
            thorough: 10_000_000,
            rule: "generated demos with and without each ingredient of a valid demo, of chosen sizes, with bytes added or cut off; observed verdict compared with the ingredients; a demo counts when distinct by content hash",
            assumptions: &[],
            must_observe: &["valid", "invalid.no_end", "invalid.no_server", "invalid.no_clients", "invalid.too_small", "size.1023", "size.1024", "size.1025", "trailing_bytes", "cut_end"],
            cross_process: false,
        },
        Check {
            id: "C16",
            case: c16,
            quick: 750_000,
            thorough: 7_500_000,
            rule: "generated demos with and without the messages which tell an aborted or paused match, and with similar messages; observed verdicts compared with the messages put in; a demo counts when distinct by content hash",
            assumptions: &["a pause is told by the texts \"Server is paused\" or \"paused the game\", wherever they occur"],
            must_observe: &["aborted", "aborted.lookalike", "paused", "paused.finished_demo", "paused.lookalike"],
            cross_process: false,
        },
        Check {
            id: "C17",
            case: c17,
            quick: 360_000,
            thorough: 3_000_000,
            rule: "generated demos with markers in any order and number; observed durations compared with the sums of the frame durations; a demo counts when distinct by content hash",
            assumptions: &["one targeted demo longer than 2^32 milliseconds"],
            must_observe: &["end.match_over", "end.standby", "end.none", "end.several_markers", "end.near_miss", "countdown.present", "countdown.absent", "countdown.hoonymode", "duration.beyond_32_bit"],
            cross_process: false,
        },
        Check {
            id: "C18",
            case: c18,
            quick: 500_000,
            thorough: 5_000_000,
            rule: "generated demos with and without statistics, in and out of hoonymode; observed match duration compared with the statistics or the frame durations; a demo counts when distinct by content hash",
            assumptions: &[],
            must_observe: &["from.ktxstats", "from.seeking", "from.seeking_hoonymode", "ktxstats.unusable_duration", "countdown.longer_than_demo", "countdown.absent"],
            cross_process: false,
        },
        Check {
            id: "C19",
            case: c19,
            quick: 750_000,
            thorough: 7_500_000,
            rule: "generated demos with every combination of epoch and match date; observed timestamp compared with what was put in; a demo counts when distinct by content hash",
            assumptions: &[],
            must_observe: &["from.epoch", "from.matchdate", "from.none", "epoch.unusable", "epoch.negative"],
            cross_process: false,
        },
        Check {
            id: "C25",
            case: c25,
            quick: 2_400_000,
            thorough: 15_000_000,
            rule: "match dates in every time zone the parser knows and in numeric offsets, and impossible ones; observed instants compared with an independent calendar computation; a demo counts when distinct by content hash",
            assumptions: &["numeric offsets up to 12 hours, written +hh or +hhmm", "the abbreviations AST and LHST name several zones and are left out", "seconds 0 to 59"],
            must_observe: &["date.abbreviation", "date.numeric", "date.impossible", "date.unknown_zone", "date.absent", "date.all_zones", "date.multi_byte"],
            cross_process: false,
        },
    ]
}

fn dur(r: anyhow::Result<Duration>) -> String {
    match r {
        Ok(d) => format!("{d:?}"),
        Err(_) => "error".into(),
    }
}

// ---- C15 ------------------------------------------------------------------------------------

fn c15(ctx: &mut Ctx) -> CaseResult {
    let clients = match ctx.rng.below(5) {
        0 => (0, 0),
        _ => (1, 2),
    };
    let c = Cfg {
        world: WorldCfg {
            players: clients,
            specs: (0, clients.1.min(1)),
            ..WorldCfg::default()
        },
        obits: (0, 1),
        chats: (0, 1),
        flags: (0, 0),
        pings: (0, 1),
        noise: (0, 3),
        server: ctx.rng.chance(7, 8),
        client_list: ctx.rng.chance(7, 8),
        end: ctx.rng.chance(5, 6),
        matchdate: ctx.rng.chance(1, 2),
        match_over: ctx.rng.chance(1, 2),
        standby: ctx.rng.chance(1, 2),
        ..Cfg::default()
    };
    let (mut mt, mut data) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    // padded to a chosen size, before the end
    let target = *ctx.rng.pick(&[1023usize, 1024, 1025, 1000, 1100, 2000, 0]);
    if target > data.len() + 6 {
        let n = target - data.len() - 6;
        let at = mt.demo.frames.len() - c.end as usize;
        mt.demo.frames.insert(at, Frame::read(vec![Msg::Raw(vec![47; n])]));
        data = mt.demo.encode();
    }
    let mut end = c.end;
    match ctx.rng.below(8) {
        0 => {
            let n = ctx.rng.range(1, 5);
            let b = ctx.rng.bytes(n);
            data.extend_from_slice(&b);
            end = false;
            ctx.ev("trailing_bytes");
        }
        1 => {
            let n = ctx.rng.range(1, 12);
            data.truncate(data.len().saturating_sub(n));
            end = false;
            ctx.ev("cut_end");
        }
        2 if c.end => {
            // the end of demo message must be the last one
            Frame::read(vec![Msg::Raw(vec![1; ctx.rng.range(1, 4)])]).encode(&mut data);
            end = false;
        }
        _ => {}
    }
    // independent statement of "ends in the message"
    if end != data.ends_with(b"\0\x02EndOfDemo\0") {
        ctx.ev("skipped.marker_by_chance");
        return Ok(());
    }
    let has_clients = c.client_list && !mt.clients.is_empty();
    let big = data.len() >= 1024;
    let want = end && c.server && has_clients && big;
    match data.len() {
        1023 => ctx.ev("size.1023"),
        1024 => ctx.ev("size.1024"),
        1025 => ctx.ev("size.1025"),
        _ => {}
    }
    if want {
        ctx.ev("valid");
    } else {
        if !end {
            ctx.ev("invalid.no_end");
        }
        if !c.server {
            ctx.ev("invalid.no_server");
        }
        if !has_clients {
            ctx.ev("invalid.no_clients");
        }
        if !big && end && c.server && has_clients {
            ctx.ev("invalid.too_small");
        }
    }
    ctx.nontrivial(&data);
    let what = format!("(end message {end}, server info {}, clients {has_clients}, {} bytes)", c.server, data.len());
    let got = ctx.call("is_valid", &data);
    ctx.expect(&data, &format!("is_valid {what}"), &got, &want.to_string())?;
    let got = ctx.call("has_end_of_demo_print", &data);
    ctx.expect(&data, &format!("has_end_of_demo_print {what}"), &got, &end.to_string())?;
    let got = ctx.call("has_clients", &data);
    ctx.expect(&data, &format!("has_clients {what}"), &got, &has_clients.to_string())?;
    ctx.sample(|| format!("{what} -> {want}"));
    Ok(())
}

// ---- C16 ------------------------------------------------------------------------------------

fn colored(s: &str) -> Vec<u8> {
    s.bytes().map(|b| if b == b' ' || b == b'\n' { b } else { b | 0x80 }).collect()
}

fn place(ctx: &mut Ctx, d: &mut Demo, f: Frame) {
    let last = d.frames.len() - 1;
    let spots: Vec<usize> = (1..=last).filter(|i| !d.frames[*i - 1].glued).collect();
    let at = if spots.is_empty() { last } else { *ctx.rng.pick(&spots) };
    d.frames.insert(at, f);
}

fn c16(ctx: &mut Ctx) -> CaseResult {
    let c = Cfg {
        obits: (0, 5),
        chats: (0, 5),
        flags: (0, 1),
        pings: (0, 2),
        noise: (0, 6),
        server: ctx.rng.chance(3, 4),
        client_list: ctx.rng.chance(3, 4),
        match_over: ctx.rng.chance(1, 2),
        standby: ctx.rng.chance(1, 2),
        matchdate: ctx.rng.chance(1, 2),
        ktx: ctx.rng.chance(1, 5),
        end: true,
        ..Cfg::default()
    };
    let (mut mt, _) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    let stop = colored("Match stopped by majority vote\n");
    let (mut aborted, mut pause) = (false, false);
    for _ in 0..ctx.rng.below(3) {
        let f = match ctx.rng.below(8) {
            0 | 1 => {
                aborted = true;
                let mut ms = vec![Msg::print(2, &stop)];
                if ctx.rng.chance(1, 3) {
                    ms.insert(0, Msg::print(*ctx.rng.pick(&[0u8, 2, 3]), b"vote\n"));
                }
                Frame::read(ms)
            }
            2 => {
                ctx.ev("aborted.lookalike");
                Frame::read(vec![Msg::print(2, b"Match stopped by majority vote\n")])
            }
            3 => {
                ctx.ev("aborted.lookalike");
                Frame::read(vec![Msg::print(*ctx.rng.pick(&[0u8, 1, 3]), &stop)])
            }
            4 => {
                ctx.ev("aborted.lookalike");
                let mut t = b"bps: ".to_vec();
                t.extend_from_slice(&stop);
                Frame::read(vec![Msg::print(*ctx.rng.pick(&[2u8, 3]), &t)])
            }
            5 => {
                ctx.ev("aborted.lookalike");
                let n = ctx.rng.range(10, stop.len() - 1);
                Frame::read(vec![Msg::print(2, &stop[..n])])
            }
            6 if ctx.rng.chance(1, 2) => {
                ctx.ev("aborted.lookalike");
                let mut t = stop.clone();
                t.push(b'x');
                Frame::read(vec![Msg::print(2, &t)])
            }
            6 => {
                // the same text in a message of another type, or one byte off
                ctx.ev("aborted.near_miss");
                let mut b = vec![8, 2];
                b.extend_from_slice(&stop);
                b.push(0);
                let i = ctx.rng.below(b.len());
                let i = if ctx.rng.chance(1, 3) { 0 } else { i };
                b[i] = match i {
                    0 => *ctx.rng.pick(&[9u8, 26, 7, 10, 0x88]),
                    _ => b[i] ^ *ctx.rng.pick(&[1u8, 0x20, 0x80, 3]),
                };
                Frame::read(vec![Msg::Raw(b)])
            }
            _ => Frame::read(vec![Msg::print(2, &colored("Match started\n"))]),
        };
        place(ctx, &mut mt.demo, f);
    }
    for _ in 0..ctx.rng.below(3) {
        let t: Vec<u8> = match ctx.rng.below(6) {
            0 => {
                pause = true;
                b"Server is paused\n".to_vec()
            }
            1 => {
                pause = true;
                let i = ctx.rng.below(mt.names.len());
                let mut t = mt.names[i].clone();
                t.extend_from_slice(b" paused the game\n");
                t
            }
            _ => {
                ctx.ev("paused.lookalike");
                ctx.rng
                    .pick(&["server is Paused\n", "Server is pause", "Server is not paused\n", "paused the match\n", "paused game", "pausing the game\n", "Server was paused\n"])
                    .as_bytes()
                    .to_vec()
            }
        };
        let mut t = t;
        if ctx.rng.chance(1, 4) {
            // in the midst of other text
            ctx.ev("paused.within_text");
            if ctx.rng.chance(1, 2) {
                t.pop();
            }
            for _ in 0..ctx.rng.below(4) {
                t.insert(0, *ctx.rng.pick(b"\n\n .*)\x8d\xff"));
            }
            for _ in 0..ctx.rng.below(4) {
                t.push(*ctx.rng.pick(b"\n\n .!)\x8d\xff"));
            }
        }
        let m = if ctx.rng.chance(1, 6) {
            let mut m = vec![26];
            m.extend_from_slice(&t);
            m.push(0);
            Msg::Raw(m)
        } else {
            Msg::print(*ctx.rng.pick(&[0u8, 1, 2, 3]), &t)
        };
        let f = Frame::read(vec![m]);
        place(ctx, &mut mt.demo, f);
    }
    if ctx.idx % 1500 == 77 {
        // a long match: before, between and behind the announcements
        for _ in 0..ctx.rng.range(1, 3) {
            let n = *ctx.rng.pick(&[70_000usize, 140_000, 600_000, 1_200_000]);
            let at = ctx.rng.range(1, mt.demo.frames.len() - 1);
            if !mt.demo.frames[at - 1].glued {
                let line = gen::gen_chat(&mut ctx.rng, &mt.names, ctx.dict);
                let line = match line {
                    Msg::Print { text, .. } if !gen::has_needle(&text) && !text.is_empty() => text,
                    _ => b"gl hf\n".to_vec(),
                };
                let f = Frame::read(vec![Msg::print(3, &line); 200]);
                let size = 200 * (line.len() + 3) + 6;
                mt.demo.frames.splice(at..at, vec![f; n / size + 1]);
                ctx.ev("demo.long");
            }
        }
    }
    let mut data = mt.demo.encode();
    let mut end = true;
    match ctx.rng.below(4) {
        0 | 1 => {
            // unfinished recording
            let n = ctx.rng.range(1, 11);
            data.truncate(data.len() - n);
            end = false;
        }
        2 if ctx.rng.chance(1, 2) => {
            data.push(0);
            end = data.ends_with(b"\0\x02EndOfDemo\0");
        }
        _ => {}
    }
    let want_paused = pause && !end;
    if aborted {
        ctx.ev("aborted");
    }
    if want_paused {
        ctx.ev("paused");
    } else if pause {
        ctx.ev("paused.finished_demo");
    }
    ctx.nontrivial(&data);
    let got = ctx.call("is_aborted", &data);
    ctx.expect(&data, "is_aborted", &got, &aborted.to_string())?;
    let got = ctx.call("is_paused", &data);
    ctx.expect(&data, &format!("is_paused (announced {pause}, finished {end})"), &got, &want_paused.to_string())?;
    ctx.sample(|| format!("aborted {aborted}, pause announced {pause}, finished {end}"));
    Ok(())
}

// ---- C17, C18 -------------------------------------------------------------------------------

struct Timeline {
    demo: Demo,
    data: Vec<u8>,
    demo_ms: u64,
    countdown_ms: Option<u64>,
    hoony: bool,
    doc: Option<crate::ktx::Doc>,
    overs: usize,
    standbys: usize,
    dates: usize,
    /// the statistics have a duration which is none
    bad_duration: bool,
}

fn hoonymode(ctx: &mut Ctx) -> Vec<u8> {
    let mut v = b"hoonymode".to_vec();
    if ctx.rng.chance(1, 4) {
        for b in v.iter_mut() {
            if ctx.rng.chance(1, 2) {
                *b |= 0x80;
            }
        }
    }
    v
}

fn timeline(ctx: &mut Ctx, ktx: bool) -> Option<Timeline> {
    let hoony = ctx.rng.chance(1, 6);
    let mode = if hoony {
        Some(hoonymode(ctx))
    } else {
        match ctx.rng.below(4) {
            0 => None,
            1 => Some(b"hoonymod".to_vec()),
            2 => Some(b"2on2".to_vec()),
            _ => Some(b"ctf".to_vec()),
        }
    };
    let mut doc = None;
    let mut bad_duration = false;
    if ktx {
        let mut x = crate::ktx::gen_doc(&mut ctx.rng, ctx.dict);
        if x.duration.is_some() && ctx.rng.chance(1, 5) {
            let have = format!("\"duration\": {}", x.duration.unwrap());
            let s = String::from_utf8(x.json.clone()).unwrap();
            let v = *ctx.rng.pick(&["-1", "1e999", "\"ten\"", "null", "-600", "NaN", "", "1e20"]);
            x.json = s.replacen(&have, &format!("\"duration\": {v}"), 1).into_bytes();
            x.duration = None;
            bad_duration = true;
        }
        doc = Some(x);
    }
    let c = Cfg {
        world: WorldCfg {
            players: (0, 4),
            specs: (0, 2),
            ..WorldCfg::default()
        },
        obits: (0, 6),
        chats: (0, 6),
        flags: (0, 2),
        pings: (0, 3),
        noise: (0, 12),
        server: true,
        client_list: ctx.rng.chance(1, 2),
        matchdate: false,
        match_over: false,
        standby: false,
        ktx,
        doc: doc.clone(),
        end: ctx.rng.chance(3, 4),
        server_set: vec![("mode", mode)],
        ..Cfg::default()
    };
    let (mut mt, _) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    let overs = *ctx.rng.pick(&[0usize, 1, 1, 1, 2, 3]);
    let standbys = *ctx.rng.pick(&[0usize, 0, 1, 1, 2]);
    let dates = *ctx.rng.pick(&[0usize, 1, 1, 1, 1, 2]);
    let with = |ctx: &mut Ctx, m: Msg| -> Frame {
        let mut ms = vec![];
        if ctx.rng.chance(1, 3) {
            ms.push(Msg::print(0, b"x\n"));
        }
        ms.push(m);
        if ctx.rng.chance(1, 3) {
            ms.push(gen::gen_noise_msg(&mut ctx.rng, ctx.dict));
        }
        let mut f = Frame::read(ms);
        gen::random_target(&mut ctx.rng, &mut f);
        f.ms = ctx.rng.byte();
        f
    };
    let mut marks: Vec<Frame> = vec![];
    for _ in 0..overs {
        let t = *ctx.rng.pick(&["The match is over\n", "The match is over", "bps: The match is over?\n"]);
        let id = *ctx.rng.pick(&[2u8, 2, 3]);
        let f = with(ctx, Msg::print(id, t.as_bytes()));
        marks.push(f);
    }
    for _ in 0..standbys {
        let f = with(ctx, Msg::Raw(b"4status\0Standby\0".to_vec()));
        marks.push(f);
    }
    for _ in 0..dates {
        let (t, _) = gen::gen_matchdate(&mut ctx.rng);
        let f = with(ctx, Msg::print(2, format!("matchdate: {t}\n").as_bytes()));
        marks.push(f);
    }
    // what only looks like a mark
    if ctx.rng.chance(1, 4) {
        for _ in 0..ctx.rng.range(1, 3) {
            let m = match ctx.rng.below(4) {
                0 => {
                    let t = *ctx.rng.pick(&["4status\0standby\0", "4status\0Standby \0", "4status\0Countdown\0", "4status\010 min left\0", "3status\0Standby\0", "4Status\0Standby\0", "4status\0Standb\0"]);
                    Msg::Raw(t.as_bytes().to_vec())
                }
                1 => {
                    let id = *ctx.rng.pick(&[0u8, 1, 3, 2]);
                    let t = *ctx.rng.pick(&["matchdate 2024-01-01 00:00:00 UTC\n", "Matchdate: 2024-01-01 00:00:00 UTC\n", " matchdate: 2024-01-01 00:00:00 UTC\n", "matchdate:2024-01-01 00:00:00 UTC\n"]);
                    Msg::print(id, t.as_bytes())
                }
                _ => {
                    let id = *ctx.rng.pick(&[2u8, 2, 3]);
                    let t = *ctx.rng.pick(&[
                        "the match is over\n", "The Match is over\n", "The match was over\n", "The match is ove\n", "THE MATCH IS OVER\n", "The match is  over\n", "he match is over\n", "The match is Over\n", "The game is over\n",
                        "match is over",
                    ]);
                    Msg::print(id, t.as_bytes())
                }
            };
            let f = with(ctx, m);
            marks.push(f);
        }
        ctx.ev("end.near_miss");
    }
    ctx.rng.shuffle(&mut marks);
    for f in marks {
        place(ctx, &mut mt.demo, f);
    }
    let data = mt.demo.encode();
    let n = |n: &[u8]| text::count(&data, n);
    if n(b"The match is over") != overs || n(b"4status\0Standby\0") != standbys || n(b"\x08\x02matchdate: ") != dates || n(b"{\"version\": ") != ktx as usize {
        ctx.ev("skipped.marker_by_chance");
        return None;
    }
    // the server string has to be found
    let at = text::find(&data, b"fullserverinfo \"").unwrap();
    if at + 16 + mt.server.string().len() >= 1280 {
        return None;
    }
    let holds = |f: &Frame, n: &[u8]| {
        let mut b = vec![];
        f.encode(&mut b);
        text::find(&b, n).is_some()
    };
    let fs = &mt.demo.frames;
    let upto = |i: usize| fs[..=i].iter().map(|f| f.ms as u64).sum::<u64>();
    let last = |n: &[u8]| fs.iter().rposition(|f| holds(f, n));
    let end = last(b"The match is over").or_else(|| last(b"4status\0Standby\0"));
    let demo_ms = match end {
        Some(i) => upto(i),
        None => fs.iter().map(|f| f.ms as u64).sum(),
    };
    let countdown_ms = fs.iter().position(|f| holds(f, b"\x08\x02matchdate: ")).map(upto);
    Some(Timeline {
        demo: mt.demo.clone(),
        data,
        demo_ms,
        countdown_ms,
        hoony,
        doc,
        overs,
        standbys,
        dates,
        bad_duration,
    })
}

fn c17(ctx: &mut Ctx) -> CaseResult {
    if ctx.idx == 0 {
        // longer than 2^32 milliseconds
        let frames = (1u64 << 32) / 255 + 1000;
        let mut d = vec![];
        Frame::read(vec![Msg::Raw(vec![47; 20])]).encode(&mut d);
        for _ in 0..frames {
            d.extend_from_slice(&[255, 7]);
        }
        Frame::read(vec![Msg::print(2, b"matchdate: 2024-01-01 00:00:00 UTC\n")]).encode(&mut d);
        Frame::read(vec![Msg::print(2, b"The match is over\n")]).ms(9).encode(&mut d);
        d.extend_from_slice(&[255, 7]);
        ctx.ev("duration.beyond_32_bit");
        let ms = frames * 255;
        let got = ctx.lib(&d[..64], "demo_duration", || m::demo_duration(&d))?;
        ctx.expect(&d[..64], "demo_duration of 16.8 million frames of 255 ms", &dur(got), &dur(Ok(Duration::from_millis(ms + 9))))?;
        let got = ctx.lib(&d[..64], "countdown_duration", || m::countdown_duration(&d))?;
        ctx.expect(&d[..64], "countdown_duration of 16.8 million frames of 255 ms", &dur(got), &dur(Ok(Duration::from_millis(ms))))?;
    }
    let Some(t) = timeline(ctx, ctx.idx % 6 == 0) else {
        return Ok(());
    };
    ctx.ev(match (t.overs, t.standbys) {
        (0, 0) => "end.none",
        (0, _) => "end.standby",
        _ => "end.match_over",
    });
    if t.overs + t.standbys > 1 {
        ctx.ev("end.several_markers");
    }
    ctx.st.max("longest_demo_ms", t.demo_ms);
    ctx.nontrivial(&t.data);
    let d = &t.data;
    let what = format!("({} frames, {} over, {} standby, {} dates)", t.demo.frames.len(), t.overs, t.standbys, t.dates);
    let got = ctx.lib(d, "demo_duration", || m::demo_duration(d))?;
    ctx.expect(d, &format!("demo_duration {what}"), &dur(got), &dur(Ok(Duration::from_millis(t.demo_ms))))?;
    let want = if t.hoony {
        ctx.ev("countdown.hoonymode");
        Ok(Duration::ZERO)
    } else {
        match t.countdown_ms {
            Some(ms) => {
                ctx.ev("countdown.present");
                Ok(Duration::from_millis(ms))
            }
            None => {
                ctx.ev("countdown.absent");
                Err(anyhow::anyhow!("none"))
            }
        }
    };
    let got = ctx.lib(d, "countdown_duration", || m::countdown_duration(d))?;
    ctx.expect(d, &format!("countdown_duration {what} hoonymode {}", t.hoony), &dur(got), &dur(want))?;
    ctx.sample(|| format!("{what}: demo {} ms, countdown {:?} ms, hoonymode {}", t.demo_ms, t.countdown_ms, t.hoony));
    Ok(())
}

fn c18(ctx: &mut Ctx) -> CaseResult {
    let ktx = ctx.rng.chance(1, 2);
    let Some(t) = timeline(ctx, ktx) else {
        return Ok(());
    };
    let countdown = if t.hoony { 0 } else { t.countdown_ms.unwrap_or(0) };
    let seek = Duration::from_millis(t.demo_ms.saturating_sub(countdown));
    let stat = t.doc.as_ref().and_then(|d| d.duration).map(|s| Duration::from_secs(s as u64));
    let want = if t.hoony {
        ctx.ev("from.seeking_hoonymode");
        seek
    } else if let Some(s) = stat {
        ctx.ev("from.ktxstats");
        s
    } else {
        ctx.ev("from.seeking");
        seek
    };
    if t.bad_duration {
        ctx.ev("ktxstats.unusable_duration");
    }
    if countdown > t.demo_ms {
        ctx.ev("countdown.longer_than_demo");
    }
    if t.dates == 0 {
        ctx.ev("countdown.absent");
    }
    let d = &t.data;
    ctx.nontrivial(d);
    let what = format!(
        "(demo {} ms, countdown {:?} ms, statistics {:?}, hoonymode {})",
        t.demo_ms, t.countdown_ms, stat, t.hoony
    );
    let got = ctx.lib(d, "match_duration", || m::match_duration(d))?;
    ctx.expect(d, &format!("match_duration {what}"), &dur(got), &dur(Ok(want)))?;
    let got = ctx.lib(d, "match_duration_from_seeking", || m::match_duration_from_seeking(d))?;
    ctx.expect(d, &format!("match_duration_from_seeking {what}"), &dur(got), &dur(Ok(seek)))?;
    let got = ctx.lib(d, "match_duration_from_ktxstats", || m::match_duration_from_ktxstats(d))?;
    ctx.expect(
        d,
        &format!("match_duration_from_ktxstats {what}"),
        &dur(got),
        &dur(stat.ok_or_else(|| anyhow::anyhow!("none"))),
    )?;
    ctx.sample(|| format!("{what} -> {want:?}"));
    Ok(())
}

// ---- C19, C25 -------------------------------------------------------------------------------

fn c19(ctx: &mut Ctx) -> CaseResult {
    let (epoch_text, epoch): (Option<Vec<u8>>, Option<i64>) = match ctx.rng.below(8) {
        0..=2 => {
            let v = match ctx.rng.below(6) {
                0 => i32::MAX as i64,
                1 => i32::MIN as i64,
                2 => 0,
                3 => -(ctx.rng.below(1 << 30) as i64),
                4 => ctx.dict.int(&mut ctx.rng, 0, i32::MAX as u64) as i64,
                _ => ctx.rng.below(i32::MAX as usize) as i64,
            };
            let mut t = v.to_string().into_bytes();
            if ctx.rng.chance(1, 6) {
                // colored digits are digits
                for b in t.iter_mut() {
                    *b |= 0x80;
                }
            }
            (Some(t), Some(v))
        }
        3 | 4 => {
            let t: &[u8] = *ctx.rng.pick(&[
                &b"never"[..],
                b"2147483648",
                b"-2147483649",
                b"99999999999999999999",
                b"17.5",
                b"0x10",
                b"1e9",
                b"12a",
            ]);
            ctx.ev("epoch.unusable");
            (Some(t.to_vec()), None)
        }
        _ => (None, None),
    };
    let (date_text, valid_date) = match ctx.rng.below(4) {
        0 => (None, false),
        1 => (Some(impossible_date(ctx)), false),
        _ => (None, true),
    };
    let c = Cfg {
        world: WorldCfg {
            players: (0, 3),
            specs: (0, 1),
            ..WorldCfg::default()
        },
        obits: (0, 3),
        chats: (0, 3),
        flags: (0, 1),
        pings: (0, 1),
        noise: (0, 5),
        client_list: ctx.rng.chance(1, 2),
        matchdate: valid_date || date_text.is_some(),
        date_text,
        server: epoch_text.is_some() || ctx.rng.chance(3, 4),
        server_set: vec![("epoch", epoch_text.clone())],
        match_over: ctx.rng.chance(1, 2),
        standby: ctx.rng.chance(1, 2),
        ktx: ctx.rng.chance(1, 6),
        ..Cfg::default()
    };
    let (mt, d) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    let date = mt
        .matchdate
        .as_ref()
        .filter(|_| valid_date)
        .map(|(_, s)| s.parse::<i64>().unwrap());
    let want = epoch.or(date);
    ctx.ev(match (epoch, date) {
        (Some(_), _) => "from.epoch",
        (None, Some(_)) => "from.matchdate",
        _ => "from.none",
    });
    if epoch.is_some_and(|e| e < 0) {
        ctx.ev("epoch.negative");
    }
    ctx.nontrivial(&d);
    let show = |r: anyhow::Result<chrono::DateTime<chrono::Utc>>| match r {
        Ok(t) => format!("{} s {} ns", t.timestamp(), t.timestamp_subsec_nanos()),
        Err(_) => "error".into(),
    };
    let say = |v: Option<i64>| match v {
        Some(v) => format!("{v} s 0 ns"),
        None => "error".into(),
    };
    let what = format!("(epoch {:?}, match date {:?})", epoch_text.as_ref().map(|t| text::esc(t)), mt.matchdate);
    let got = ctx.lib(&d, "timestamp", || m::timestamp(&d))?;
    ctx.expect(&d, &format!("timestamp {what}"), &show(got), &say(want))?;
    let got = ctx.lib(&d, "timestamp_from_epoch", || m::timestamp_from_epoch(&d))?;
    ctx.expect(&d, &format!("timestamp_from_epoch {what}"), &show(got), &say(epoch))?;
    let got = ctx.lib(&d, "matchdate", || m::matchdate(&d))?;
    ctx.expect(&d, &format!("matchdate {what}"), &show(got), &say(date))?;
    ctx.sample(|| format!("{what} -> {}", say(want)));
    Ok(())
}

fn impossible_date(ctx: &mut Ctx) -> String {
    ctx.rng
        .pick(&[
            "2024-13-01 10:00:00 UTC",
            "2024-00-10 10:00:00 UTC",
            "2023-02-29 10:00:00 CET",
            "2024-04-31 10:00:00 CET",
            "2024-04-00 10:00:00 +0200",
            "2024-04-01 24:00:00 +0200",
            "2024-04-01 10:60:00 EST",
            "2024-04-01 10:00:61 EST",
            "2024/04/01 10:00:00 EST",
            "yyyy-mm-dd hh:mm:ss CET",
            "2024-04-01 10:00:00 Q",
            "2024-04-01 10:00:00",
            "2024-04-01 10:00:00 CESTXX",
            "",
            "CET",
        ])
        .to_string()
}

fn c25(ctx: &mut Ctx) -> CaseResult {
    let class = ctx.rng.below(12);
    let (mut txt, secs) = gen::gen_matchdate(&mut ctx.rng);
    let mut want = Some(secs);
    match class {
        0 => {
            txt = impossible_date(ctx);
            want = None;
            ctx.ev("date.impossible");
        }
        1 => {
            // a zone nobody knows
            let n = ctx.rng.range(2, 5);
            let z: String = (0..n).map(|_| (b'A' + ctx.rng.below(26) as u8) as char).collect();
            if TZ.iter().any(|(a, _)| *a == z) || z == "AST" {
                return Ok(());
            }
            txt.truncate(20);
            txt.push_str(&z);
            want = None;
            ctx.ev("date.unknown_zone");
        }
        2 => {
            want = None;
            txt = String::new();
            ctx.ev("date.absent");
        }
        3..=5 => {
            // every zone in turn
            let (z, off) = TZ[ctx.idx as usize % TZ.len()];
            if z != "AST" && z != "LHST" {
                let local = secs + zone_of(&txt) * 60;
                txt.truncate(20);
                txt.push_str(z);
                want = Some(local - off as i64 * 60);
                ctx.ev("date.all_zones");
                ctx.ev(&format!("zone.{z}"));
            }
        }
        6 => {
            // characters of several bytes, across any of the borders of the layout
            let c = *ctx.rng.pick(&['\u{e9}', '\u{65e5}', '\u{1F3AE}']);
            let n = c.len_utf8();
            let at = ctx.rng.below(txt.len() - n + 1);
            txt.replace_range(at..at + n, &c.to_string());
            want = None;
            ctx.ev("date.multi_byte");
        }
        7 => {
            // a text of another form
            let zone = txt[20..].to_string();
            match ctx.rng.below(8) {
                // what is left of the zone may be one
                0 => {
                    txt.remove(19);
                }
                1 => {
                    let (z, _) = TZ[ctx.rng.below(TZ.len())];
                    let c = (b'A' + ctx.rng.below(26) as u8) as char;
                    txt.truncate(19);
                    txt.push(c);
                    txt.push_str(z);
                }
                2 => txt.replace_range(19..20, ctx.rng.pick(&["T", "_", "\t", "\u{b}", "0", "+", "-", ".", ",", "Z"])),
                3 => txt.insert(19, ' '),
                4 => txt.push_str(ctx.rng.pick(&[" ", "\t", ".", "\0", "\r", "x", ")"])),
                5 => {
                    let at = *ctx.rng.pick(&[4usize, 7, 10, 13, 16]);
                    txt.replace_range(at..at + 1, ctx.rng.pick(&["/", ".", "_", "T"]));
                }
                6 => {
                    // no numeral
                    let at = *ctx.rng.pick(&[0usize, 1, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18]);
                    txt.replace_range(at..at + 1, ctx.rng.pick(&["x", "o", "l", "?", "*"]));
                }
                _ => {
                    let low = zone.to_ascii_lowercase();
                    if low == zone {
                        return Ok(());
                    }
                    txt.truncate(20);
                    txt.push_str(&low);
                }
            }
            want = None;
            ctx.ev("date.other_form");
        }
        _ => {}
    }
    if want.is_some() {
        ctx.ev(if txt[20..].starts_with(['+', '-']) {
            "date.numeric"
        } else {
            "date.abbreviation"
        });
    }
    let data = if class == 2 {
        let c = Cfg {
            matchdate: false,
            ..crate::hostile::small_cfg(&mut ctx.rng)
        };
        gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c).1
    } else {
        let n = ctx.rng.below(80);
        let mut d = vec![];
        for _ in 0..n / 8 {
            gen::gen_noise_frame(&mut ctx.rng, ctx.dict).encode(&mut d);
        }
        let mut ms = vec![];
        if ctx.rng.chance(1, 4) {
            ms.push(Msg::print(*ctx.rng.pick(&[0u8, 1, 2, 3]), b"matchdate soon\n"));
        }
        ms.push(Msg::print(2, format!("matchdate: {txt}\n").as_bytes()));
        Frame::read(ms).encode(&mut d);
        if ctx.rng.chance(1, 2) {
            // only the first one counts
            let (t2, _) = gen::gen_matchdate(&mut ctx.rng);
            Frame::read(vec![Msg::print(2, format!("matchdate: {t2}\n").as_bytes())]).encode(&mut d);
        }
        if text::find(&d, b"\x08\x02matchdate: ") != text::find(&d, format!("\x08\x02matchdate: {txt}\n").as_bytes()) {
            return Ok(());
        }
        d
    };
    ctx.nontrivial(&data);
    let got = ctx.lib(&data, "matchdate", || m::matchdate(&data))?;
    let got = match got {
        Ok(t) => format!("{} s {} ns", t.timestamp(), t.timestamp_subsec_nanos()),
        Err(_) => "error".to_string(),
    };
    let w = match want {
        Some(v) => format!("{v} s 0 ns"),
        None => "error".into(),
    };
    ctx.expect(&data, &format!("matchdate {txt:?}"), &got, &w)?;
    if want.is_some() {
        let s = ctx.call("matchdate_string", &data);
        ctx.expect(&data, "matchdate_string", &s, &format!("Ok({txt:?})"))?;
    }
    ctx.sample(|| format!("{txt:?} -> {w}"));
    Ok(())
}

/// Offset in minutes of a generated date.
fn zone_of(t: &str) -> i64 {
    let z = &t[20..];
    if let Some((_, o)) = TZ.iter().find(|(a, _)| *a == z) {
        return *o as i64;
    }
    let sign = if z.starts_with('-') { -1 } else { 1 };
    let d = &z[1..];
    let h: i64 = d[..2].parse().unwrap();
    let m: i64 = d.get(2..4).map(|v| v.parse().unwrap()).unwrap_or(0);
    sign * (h * 60 + m)
}
