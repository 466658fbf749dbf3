//! C07 prints, C08 frag tallies, C09 unnamed team kills, C10 flag events, C11 pings: what the
//! message stream says, against what the generator put in.

use std::collections::BTreeMap;

use super::Check;
use crate::demo::*;
use crate::gen::{self, Cfg, WorldCfg};
use crate::sup::{CaseResult, Ctx, Viol};
use crate::tables::*;
use crate::text;
use mvdparser::all as m;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C07",
            case: c07,
            quick: 160_000,
            thorough: 2_000_000,
            rule: "generated demos with prints of all levels; observed list compared with the prints put in; a demo counts when it has prints and is distinct by content hash",
            assumptions: &[],
            must_observe: &["prints.compared", "prints.repeated", "prints.behind_other_message", "prints.long", "prints.unknown_level"],
            cross_process: false,
        },
        Check {
            id: "C08",
            case: c08,
            quick: 160_000,
            thorough: 2_000_000,
            rule: "generated demos with obituaries of every text; observed tallies compared with the events put in; a demo counts when it has obituaries and is distinct by content hash",
            assumptions: &["player names do not contain the text of an obituary or flag message", "one obituary per frame, at its start", "a name whose tally is zero may be listed or not"],
            must_observe: &["event.frag", "event.death", "event.suicide", "event.suicide_by_weapon", "event.teamkill", "matches.with_many_events", "decoys", "near_misses", "burst.event.frag", "burst.event.death", "burst.event.suicide", "burst.event.teamkill"],
            cross_process: false,
        },
        Check {
            id: "C09",
            case: c09,
            quick: 240_000,
            thorough: 3_000_000,
            rule: "generated demos with team kills which do not name the killer; observed tallies compared with the events put in, the killer being the team mate named by the frag updates that follow; a demo counts when it has such events and is distinct by content hash",
            assumptions: &["frag updates are sent for players and for empty slots, not for spectators", "the killer is looked for in the frame of the obituary and the two that follow it (frames without content do not count)"],
            must_observe: &["teamkills.attributed", "teamkills.unattributed"],
            cross_process: false,
        },
        Check {
            id: "C10",
            case: c10,
            quick: 240_000,
            thorough: 3_000_000,
            rule: "generated demos with flag messages of every text, whole and in parts; observed counters compared with the events put in; a demo counts when it has flag events and is distinct by content hash",
            assumptions: &["frames with flag messages consist of prints", "a message is not split inside of the word flag", "counters are read from the debug output of the record (its fields are private)"],
            must_observe: &["flag.captures", "flag.pickups", "flag.returns", "flag.carrier_frags", "flag.defends", "flag.carrier_defends", "flag.carrier_defends_vs_aggressive", "flag.more_than_255", "flag.more_than_65535", "flag.several_in_frame", "flag.near_misses"],
            cross_process: false,
        },
        Check {
            id: "C11",
            case: c11,
            quick: 480_000,
            thorough: 6_000_000,
            rule: "generated demos with ping updates; observed averages compared with the pings put in; a demo counts when it has ping frames and is distinct by content hash",
            assumptions: &["every ping update is followed by a packet loss update, as servers send them"],
            must_observe: &["pings.more_than_8_frames", "pings.fewer_than_8_frames", "pings.none", "pings.sum_beyond_16_bit"],
            cross_process: false,
        },
    ]
}

fn level(id: u8) -> &'static str {
    match id {
        0 => "Low",
        1 => "Medium",
        2 => "High",
        3 => "Chat",
        _ => "Unknown",
    }
}

/// The prints of a demo in the canonical form of the "prints" observation.
pub fn prints_text(d: &Demo) -> String {
    let mut o = String::new();
    let mut last: Option<(&str, Vec<u8>)> = None;
    for f in &d.frames {
        for m in f.msgs() {
            match m {
                Msg::Print { id, text } => {
                    if text.is_empty() {
                        continue;
                    }
                    let p = (level(*id), text.clone());
                    if last.as_ref() != Some(&p) {
                        o.push_str(&format!("{} {:?}; ", p.0, p.1));
                        last = Some(p);
                    }
                }
                Msg::Raw(b) if b.is_empty() => {}
                _ => break,
            }
        }
    }
    o
}

fn c07(ctx: &mut Ctx) -> CaseResult {
    let big = ctx.idx % 50 == 7;
    let long = ctx.idx % 40 == 3;
    let c = Cfg {
        obits: (0, 12),
        chats: if big { (300, 900) } else { (0, 25) },
        flags: (0, 3),
        pings: (0, 3),
        noise: if big { (300, 900) } else { (0, 15) },
        ktx: ctx.rng.chance(1, 6),
        long_print: if long {
            let n = *ctx.rng.pick(&[255usize, 256, 1024, 8192, 65533, 65536, 70000]);
            n + ctx.rng.below(3)
        } else {
            0
        },
        ..Cfg::default()
    };
    let mut m = gen::gen_match(&mut ctx.rng, ctx.dict, &c);
    // levels nobody knows, texts of one byte, texts that repeat, all kinds of bytes
    let n = ctx.rng.below(6);
    for _ in 0..n {
        let id = match ctx.rng.below(4) {
            0 => ctx.rng.byte(),
            1 => 4,
            _ => ctx.rng.below(4) as u8,
        };
        let k = *ctx.rng.pick(&[1usize, 1, 2, 5, 254, 255, 256, 300]);
        let t: Vec<u8> = (0..k).map(|_| 1 + (ctx.rng.byte() % 255)).collect();
        if gen::has_needle(&t) {
            continue;
        }
        let mut f = Frame::read(vec![Msg::Print { id, text: t.clone() }]);
        if ctx.rng.chance(1, 3) {
            f = Frame::read(vec![
                Msg::Print { id, text: t.clone() },
                Msg::Print { id: ctx.rng.below(5) as u8, text: t.clone() },
                Msg::Print { id, text: t },
            ]);
        }
        gen::random_target(&mut ctx.rng, &mut f);
        f.ms = ctx.rng.byte();
        // not into a chain of related frames
        let spots: Vec<usize> = (0..m.demo.frames.len()).filter(|i| *i == 0 || !m.demo.frames[*i - 1].glued).collect();
        let at = *ctx.rng.pick(&spots);
        let twice = ctx.rng.chance(1, 4);
        if twice {
            m.demo.frames.insert(at, f.clone());
        }
        m.demo.frames.insert(at, f);
    }
    let data = m.demo.encode();
    let want = prints_text(&m.demo);
    let got = ctx.call("prints", &data);
    let reported = m.demo.ref_prints().len() as u64;
    let mut all = 0u64;
    for f in &m.demo.frames {
        let mut lead = true;
        for x in f.msgs() {
            if let Msg::Print { id, text } = x {
                if lead {
                    all += 1;
                    if *id > 3 {
                        ctx.ev("prints.unknown_level");
                    }
                    if text.len() > 65535 {
                        ctx.ev("prints.long");
                    }
                } else {
                    ctx.ev("prints.behind_other_message");
                }
            } else {
                lead = false;
            }
        }
    }
    ctx.evn("prints.compared", reported);
    ctx.evn("prints.repeated", all.saturating_sub(reported));
    ctx.st.max("prints_in_one_demo", reported);
    if reported > 0 {
        ctx.nontrivial(&data);
    }
    ctx.expect(&data, "prints", &got, &want)?;
    ctx.sample(|| format!("{} frames, {reported} prints, starting with {}", m.demo.frames.len(), &want.chars().take(80).collect::<String>()));
    Ok(())
}

fn observed_frags(ctx: &mut Ctx, data: &[u8]) -> Result<BTreeMap<String, i64>, Viol> {
    let got = ctx.lib(data, "frags_per_player_name", || m::frags_per_player_name(data))?;
    Ok(got
        .into_iter()
        .map(|(k, v)| (k, v as i64))
        .filter(|(_, v)| *v != 0)
        .collect())
}

fn frags_case(ctx: &mut Ctx, c: &Cfg) -> CaseResult {
    let (m, data) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, c);
    for (_, e) in &m.events {
        ctx.ev(gen::ev_kind(e));
    }
    let decoys = m
        .demo
        .frames
        .iter()
        .flat_map(|f| f.msgs())
        .filter(|x| matches!(x, Msg::Print { id, text } if *id != 1 && !gen::has_needle(text) && !unambiguous(text, &[], gen::fragments_cached())))
        .count();
    ctx.evn("decoys", decoys as u64);
    ctx.evn("near_misses", m.near_misses as u64);
    if let Some(e) = &m.burst {
        ctx.ev(&format!("burst.{}", gen::ev_kind(e)));
    }
    let t = m.ref_frags();
    ctx.evn("teamkills.attributed", t.attributed);
    ctx.evn("teamkills.unattributed", t.unattributed);
    if m.events.len() >= 300 {
        ctx.ev("matches.with_many_events");
    }
    ctx.st.max("events_in_one_match", m.events.len() as u64);
    let interesting = if c.tk_bias {
        t.attributed + t.unattributed > 0
    } else {
        !m.events.is_empty()
    };
    if interesting {
        ctx.nontrivial(&data);
    }
    let got = observed_frags(ctx, &data)?;
    if got != t.frags {
        let mut detail = String::new();
        for (f, e) in m.events.iter().take(40) {
            detail.push_str(&format!("\n    frame {f}: {e:?} -> {:?}", gen::obit_text(e, &m.names).map(|t| text::esc(&t))));
        }
        return Err(ctx.viol(
            &data,
            format!("{}\n  events:{detail}", crate::sup::diff("frags_per_player_name", &format!("{got:?}"), &format!("{:?}", t.frags))),
        ));
    }
    ctx.st.ev("oracle_comparisons", 1);
    ctx.sample(|| format!("{} events of {} names -> {:?}", m.events.len(), m.names.len(), t.frags));
    Ok(())
}

fn c08(ctx: &mut Ctx) -> CaseResult {
    let many = ctx.idx % 60 == 11;
    let c = Cfg {
        burst: match ctx.idx {
            i if i % 4000 == 17 => 33_000 + 40_000 * (i / 4000 % 2) as usize,
            i if i % 60 == 31 => ctx.rng.range(100, 700),
            _ => 0,
        },
        near: (0, 6),
        world: WorldCfg {
            players: (0, 10),
            ..WorldCfg::default()
        },
        obits: if many { (400, 900) } else { (0, 40) },
        chats: (0, 12),
        flags: (0, 3),
        pings: (0, 4),
        noise: (0, 12),
        tk_unknown: false,
        server: ctx.rng.chance(7, 8),
        client_list: ctx.rng.chance(7, 8),
        strangers: ctx.rng.below(4),
        long_names: ctx.idx % 20 == 13,
        ..Cfg::default()
    };
    frags_case(ctx, &c)
}

fn c09(ctx: &mut Ctx) -> CaseResult {
    let c = Cfg {
        world: WorldCfg {
            players: (1, 12),
            specs: (0, 5),
            teams: ctx.rng.range(1, 3),
            dense: ctx.rng.chance(1, 4),
        },
        obits: (1, 16),
        chats: (0, 4),
        flags: (0, 2),
        pings: (0, 4),
        noise: (0, 6),
        tk_unknown: true,
        tk_bias: true,
        strangers: (ctx.rng.below(4) == 0) as usize,
        ..Cfg::default()
    };
    frags_case(ctx, &c)
}

/// Counters of a debug formatted record, by field name.
pub fn debug_counters(s: &str) -> Option<BTreeMap<String, u64>> {
    let a = s.find('{')?;
    let b = s.rfind('}')?;
    let mut o = BTreeMap::new();
    for part in s[a + 1..b].split(',') {
        if part.trim().is_empty() {
            continue;
        }
        let (k, v) = part.split_once(':')?;
        o.insert(k.trim().to_string(), v.trim().parse().ok()?);
    }
    Some(o)
}

pub fn observed_flags(ctx: &mut Ctx, data: &[u8]) -> Result<BTreeMap<String, [u64; 7]>, Viol> {
    let got = ctx.lib(data, "flag_events_per_player_name", || {
        m::flag_events_per_player_name(data)
    })?;
    let mut o = BTreeMap::new();
    for (name, ev) in got {
        let c = debug_counters(&format!("{ev:?}"));
        let c = c.ok_or_else(|| ctx.viol(data, format!("flag events of {name:?} are no record of counters: {ev:?}")))?;
        let mut v = [0u64; 7];
        for (k, n) in &c {
            match FLAG_FIELDS.iter().position(|f| f == k) {
                Some(i) => v[i] = *n,
                None if *n == 0 => {}
                None => return Err(ctx.viol(data, format!("unknown flag counter {k}"))),
            }
        }
        if v.iter().any(|x| *x > 0) {
            o.insert(name, v);
        }
    }
    Ok(o)
}

fn c10(ctx: &mut Ctx) -> CaseResult {
    let many = ctx.idx % 100 == 13;
    let c = Cfg {
        world: WorldCfg {
            players: if many { (1, 1) } else { (0, 8) },
            ..WorldCfg::default()
        },
        obits: (0, 8),
        chats: (0, 12),
        flags: if many { (300, 340) } else { (0, 24) },
        pings: (0, 3),
        noise: (0, 10),
        server: ctx.rng.chance(7, 8),
        client_list: ctx.rng.chance(7, 8),
        strangers: if many { 0 } else { ctx.rng.below(3) },
        ..Cfg::default()
    };
    let mut m = gen::gen_match(&mut ctx.rng, ctx.dict, &c);
    if many {
        // one counter beyond what fits into a byte
        let k = ctx.rng.below(FLAG_TEXT.len());
        let name = m.names[0].clone();
        let mut fs = vec![];
        let n = if ctx.idx % 10_000 == 13 { 65_540 } else { ctx.rng.range(256, 300) };
        for _ in 0..n {
            if let Some(f) = gen::flag_frame(&mut ctx.rng, ctx.dict, &name, FLAG_TEXT[k].0) {
                fs.push(f);
                m.flag_events.push((name.clone(), FLAG_TEXT[k].1));
            }
        }
        let at = m.demo.frames.len() - 1;
        m.demo.frames.splice(at..at, fs);
    }
    // several messages in one frame
    for _ in 0..ctx.rng.below(3) {
        let mut msgs = vec![];
        let mut n = 0;
        for _ in 0..ctx.rng.range(2, 4) {
            let (t, k) = FLAG_TEXT[ctx.rng.below(FLAG_TEXT.len())];
            let i = ctx.rng.below(m.names.len());
            let name = m.names[i].clone();
            if let Some(f) = gen::flag_frame(&mut ctx.rng, ctx.dict, &name, t) {
                msgs.extend(f.msgs().to_vec());
                m.flag_events.push((name, k));
                n += 1;
            }
        }
        if n > 0 {
            let mut f = Frame::read(msgs);
            gen::random_target(&mut ctx.rng, &mut f);
            let at = m.demo.frames.len() - 1;
            m.demo.frames.insert(at, f);
        }
        if n > 1 {
            ctx.ev("flag.several_in_frame");
        }
    }
    // texts about flags which are no events
    for _ in 0..ctx.rng.below(3) {
        let i = ctx.rng.below(m.names.len());
        let mut t = m.names[i].clone();
        let msg = if ctx.rng.chance(1, 2) {
            t.extend(bytes(ctx.rng.pick(&[" lost the ÒÅÄ flag!\n", " lost the ÂÌÕÅ flag!\n", "The flag has been returned\n", " dropped the ÒÅÄ flag!\n"])));
            Msg::Print { id: 2, text: t }
        } else {
            let (x, _) = FLAG_TEXT[ctx.rng.below(FLAG_TEXT.len())];
            t.extend(bytes(x));
            Msg::Print { id: *ctx.rng.pick(&[0u8, 3]), text: t }
        };
        let mut f = Frame::read(vec![msg]);
        gen::random_target(&mut ctx.rng, &mut f);
        let at = m.demo.frames.len() - 1;
        m.demo.frames.insert(at, f);
        ctx.ev("flag.decoys");
    }
    // nearly flag messages
    for _ in 0..ctx.rng.below(6) {
        let i = ctx.rng.below(m.names.len());
        let mut t = m.names[i].clone();
        t.extend(bytes(ctx.rng.pick(FLAG_TEXT).0));
        if let Some(t) = gen::near_miss(&mut ctx.rng, &t, m.names[i].len()) {
            let mut f = Frame::read(vec![Msg::Print { id: 2, text: t }]);
            gen::random_target(&mut ctx.rng, &mut f);
            let at = ctx.rng.range(m.demo.frames.len() / 2, m.demo.frames.len() - 1);
            if at == 0 || !m.demo.frames[at - 1].glued {
                m.demo.frames.insert(at, f);
                ctx.ev("flag.near_misses");
            }
        }
    }
    let data = m.demo.encode();
    if !gen::well_formed(&c, &data) {
        ctx.ev("skipped.marker_by_chance");
        return Ok(());
    }
    let want = m.ref_flags();
    for v in want.values() {
        for (i, n) in v.iter().enumerate() {
            ctx.evn(&format!("flag.{}", FLAG_FIELDS[i]), *n);
            if *n > 255 {
                ctx.ev("flag.more_than_255");
            }
            if *n > 65535 {
                ctx.ev("flag.more_than_65535");
            }
        }
    }
    if !m.flag_events.is_empty() {
        ctx.nontrivial(&data);
    }
    let got = observed_flags(ctx, &data)?;
    ctx.expect(&data, "flag_events_per_player_name", &format!("{got:?}"), &format!("{want:?}"))?;
    ctx.sample(|| format!("{} flag events -> {want:?}", m.flag_events.len()));
    Ok(())
}

fn c11(ctx: &mut Ctx) -> CaseResult {
    let none = ctx.rng.chance(1, 12);
    let c = Cfg {
        world: WorldCfg {
            players: (0, 16),
            specs: (0, 8),
            ..WorldCfg::default()
        },
        obits: (0, 5),
        chats: (0, 5),
        flags: (0, 2),
        pings: if none { (0, 0) } else { (0, 24) },
        noise: (0, 12),
        server: ctx.rng.chance(7, 8),
        client_list: ctx.rng.chance(7, 8),
        ..Cfg::default()
    };
    let mut m = gen::gen_match(&mut ctx.rng, ctx.dict, &c);
    if ctx.idx % 40 == 23 {
        // a great many updates of few players in each of the frames
        let n = ctx.rng.range(2, 700);
        let high = ctx.rng.chance(2, 3);
        for f in m.demo.frames.iter_mut().filter(|f| matches!(f.msgs().first(), Some(Msg::PingPl { .. }))) {
            let slots = [ctx.rng.below(32) as u8, ctx.rng.below(4) as u8];
            let mut ms = vec![];
            for _ in 0..n {
                let ping = if high { 65535 - ctx.rng.below(300) as u16 } else { ctx.rng.next() as u16 };
                ms.push(Msg::PingPl { slot: *ctx.rng.pick(&slots), ping, pl: ctx.rng.byte() });
            }
            let mut g = Frame::read(ms);
            g.ms = f.ms;
            *f = g;
        }
        ctx.ev("pings.many_updates_per_frame");
    }
    let data = m.demo.encode();
    let want = m.demo.ref_pings();
    let lead = m
        .demo
        .frames
        .iter()
        .filter(|f| matches!(f.msgs().first(), Some(Msg::PingPl { .. })))
        .count();
    ctx.ev(match lead {
        0 => "pings.none",
        1..=7 => "pings.fewer_than_8_frames",
        8 => "pings.8_frames",
        _ => "pings.more_than_8_frames",
    });
    let mut sums: BTreeMap<u8, u64> = BTreeMap::new();
    let mut frames = 0;
    for f in &m.demo.frames {
        let mut any = false;
        for x in f.msgs() {
            if let Msg::PingPl { slot, ping, .. } = x {
                *sums.entry(*slot).or_default() += *ping as u64;
                any = true;
            } else {
                break;
            }
        }
        frames += any as u32;
        if frames == 8 {
            break;
        }
    }
    if sums.values().any(|v| *v > 65535) {
        ctx.ev("pings.sum_beyond_16_bit");
    }
    if lead > 0 {
        ctx.nontrivial(&data);
    }
    let got = ctx.lib(&data, "ping_per_player_number", || m::ping_per_player_number(&data))?;
    let got = match got {
        Ok(v) => format!("{:?}", v.into_iter().collect::<BTreeMap<u8, u32>>()),
        Err(_) => "error".to_string(),
    };
    let want = match want {
        Some(v) => format!("{v:?}"),
        None => "error".to_string(),
    };
    ctx.expect(&data, &format!("ping_per_player_number ({lead} frames with pings)"), &got, &want)?;
    ctx.sample(|| format!("{lead} frames lead with pings -> {}", want.chars().take(150).collect::<String>()));
    Ok(())
}
