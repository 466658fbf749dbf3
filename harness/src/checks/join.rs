//! C27 recordings joined at a frame; C28 facts which are recorded stay.

use std::collections::BTreeMap;

use super::Check;
use crate::demo::Demo;
use crate::gen::{self, Cfg, WorldCfg};
use crate::hostile;
use crate::sup::{CaseResult, Ctx};
use crate::text;
use mvdparser::all as m;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C27",
            case: c27,
            quick: 45_000,
            thorough: 1_500_000,
            rule: "complete frames of generated, damaged, random and recorded demos, joined and split again at any frames: what the readers of the message stream tell about the whole compared with what they tell about the parts; an input counts when at least two parts hold frames and it is distinct by content hash",
            assumptions: &["tallies are compared for streams without an unnamed team kill, which looks at the frames and clients around it", "durations are compared when no marker straddles a joint", "a name whose tally is zero may be listed or not"],
            must_observe: &["prints.equal_at_joint", "prints.joined", "frags.joined", "flags.joined", "demo_duration.joined", "demo_duration.marker_in_part", "countdown.joined", "pings.decided_by_first", "frames.repeated", "source.generated", "source.hostile", "source.recorded"],
            cross_process: false,
        },
        Check {
            id: "C28",
            case: c28,
            quick: 48_000,
            thorough: 800_000,
            rule: "generated, hostile and recorded demos with anything behind or before them: another demo, a part of one, random bytes; the facts they tell compared with those told alone; an input counts when it tells some fact and is distinct by content hash",
            assumptions: &["the client list is followed by at least 1300 bytes which are none", "the document of the statistics is complete", "a marker at the joint is not one of the demo"],
            must_observe: &["behind.another_demo", "behind.garbage", "behind.part_of_demo", "behind.long", "behind.blocks", "server_info.long", "before.long", "kept.serverinfo", "kept.clients", "kept.matchdate", "kept.countdown_duration", "kept.ping", "kept.prints", "kept.ktxstats_behind", "kept.ktxstats_before", "kept.players_before", "kept.aborted", "kept.demo_duration"],
            cross_process: false,
        },
    ]
}

const OVER: &[u8] = b"The match is over";
const STANDBY: &[u8] = b"4status\0Standby\0";
const DATE: &[u8] = b"\x08\x02matchdate: ";
const STATS: &[u8] = br#"{"version": "#;

/// The complete frames at the start of a buffer: offset, size, time, offset of the body (none if
/// it is not for anybody).
fn walk(d: &[u8]) -> Vec<(usize, usize, u8, Option<usize>)> {
    let mut v = vec![];
    let mut i = 0;
    while i + 2 <= d.len() {
        let (cmd, h) = (d[i + 1] & 7, if d[i + 1] & 7 == 3 { 6 } else { 2 });
        let (head, body) = match cmd {
            0 | 7 => (2, 0),
            2 => (2, 8),
            _ => {
                if i + h + 4 > d.len() {
                    break;
                }
                let n = u32::from_le_bytes([d[i + h], d[i + h + 1], d[i + h + 2], d[i + h + 3]]);
                (h + 4, n as usize)
            }
        };
        if i + head + body > d.len() {
            break;
        }
        let hidden = matches!(cmd, 0 | 2 | 7) || (cmd == 3 && d[i + 2..i + 6] == [0; 4]);
        v.push((i, head + body, d[i], (!hidden).then_some(i + head)));
        i += head + body;
    }
    v
}

fn source(ctx: &mut Ctx) -> Vec<u8> {
    let mut d = match ctx.rng.below(8) {
        0..=4 => {
            ctx.ev("source.generated");
            let c = Cfg {
                world: WorldCfg {
                    players: (1, 5),
                    ..WorldCfg::default()
                },
                obits: (0, 10),
                chats: (0, 8),
                flags: (0, 6),
                pings: (0, 9),
                noise: (0, 6),
                tk_unknown: ctx.rng.chance(1, 8),
                server: ctx.rng.chance(1, 2),
                client_list: ctx.rng.chance(1, 2),
                matchdate: ctx.rng.chance(1, 2),
                match_over: ctx.rng.chance(1, 4),
                standby: ctx.rng.chance(1, 4),
                ktx: ctx.rng.chance(1, 8),
                end: ctx.rng.chance(1, 4),
                ..Cfg::default()
            };
            gen::gen_match(&mut ctx.rng, ctx.dict, &c).demo.encode()
        }
        5 if !ctx.files.demos.is_empty() => {
            ctx.ev("source.recorded");
            let k = ctx.rng.below(ctx.files.demos.len());
            let f = &ctx.files.demos[k].1;
            let from = if ctx.rng.chance(1, 3) { 0 } else { ctx.rng.below(f.len()) };
            // the window starts at a frame
            let w = if from == 0 {
                vec![(0, 0, 0, None)]
            } else {
                walk(&f[..from])
            };
            let from = w.last().map_or(0, |x| x.0 + x.1);
            let n = ctx.rng.range(0, 60_000).min(f.len() - from);
            f[from..from + n].to_vec()
        }
        _ => {
            ctx.ev("source.hostile");
            hostile::hostile(ctx).data
        }
    };
    let whole = walk(&d).last().map_or(0, |x| x.0 + x.1);
    d.truncate(whole);
    d
}

type Frags = BTreeMap<String, i64>;

fn frags(ctx: &mut Ctx, d: &[u8]) -> Result<Frags, crate::sup::Viol> {
    let r = ctx.lib(d, "frags_per_player_name", || m::frags_per_player_name(d))?;
    Ok(r.into_iter().filter(|x| x.1 != 0).map(|(k, v)| (k, i64::from(v))).collect())
}

/// Counters by the names of the fields of the record (which are private).
fn flags(ctx: &mut Ctx, d: &[u8]) -> Result<BTreeMap<(String, String), u64>, crate::sup::Viol> {
    let r = ctx.lib(d, "flag_events_per_player_name", || m::flag_events_per_player_name(d))?;
    let mut o = BTreeMap::new();
    for (name, e) in r {
        let t = format!("{e:?}");
        let inner = t.split_once('{').map_or("", |x| x.1);
        for part in inner.trim_end_matches(['}', ' ']).split(',') {
            if let Some((k, v)) = part.split_once(':') {
                let v: u64 = v.trim().parse().unwrap_or(0);
                if v > 0 {
                    o.insert((name.clone(), k.trim().to_string()), v);
                }
            }
        }
    }
    Ok(o)
}

fn prints(ctx: &mut Ctx, d: &[u8]) -> Result<Vec<(String, Vec<u8>)>, crate::sup::Viol> {
    let r = ctx.lib(d, "prints", || m::prints(d))?;
    Ok(r.into_iter().map(|p| (format!("{:?}", p.id), p.content)).collect())
}

fn show(p: &[(String, Vec<u8>)]) -> String {
    p.iter().map(|(l, t)| format!("{l} {t:?}; ")).collect()
}

fn c27(ctx: &mut Ctx) -> CaseResult {
    let mut whole = vec![];
    let full = ctx.idx % 3000 == 7 && !ctx.files.demos.is_empty();
    if full {
        let k = (ctx.idx / 3000) as usize % ctx.files.demos.len();
        whole = ctx.files.demos[k].1.clone();
        let n = walk(&whole).last().map_or(0, |x| x.0 + x.1);
        whole.truncate(n);
        ctx.ev("source.recorded");
    } else {
        for _ in 0..ctx.rng.range(1, 3) {
            let s = source(ctx);
            whole.extend(s);
        }
    }
    let many = !full && ctx.idx % 100 == 11;
    if many {
        // a few frames over and over, each time a little different
        let w = walk(&whole);
        let pool: Vec<Vec<u8>> = w.iter().filter(|f| f.3.is_some() && f.1 < 300).map(|f| whole[f.0..f.0 + f.1].to_vec()).collect();
        if !pool.is_empty() {
            let n = *ctx.rng.pick(&[130usize, 260, 520, 2100, 4200]);
            let n = if ctx.idx % 2000 == 11 { 66_000 } else { n };
            let few: Vec<Vec<u8>> = (0..ctx.rng.range(1, 4)).map(|_| ctx.rng.pick(&pool).clone()).collect();
            for i in 0..n {
                whole.extend_from_slice(&few[i % few.len()]);
                // prints which are not equal
                if n <= 4200 {
                    whole.extend([0, 6, 5, 0, 0, 0, 8, 0, 32 + (i % 90) as u8, 33 + (i / 90 % 90) as u8, 0]);
                }
            }
            ctx.ev("frames.repeated");
        }
    }
    let fs = walk(&whole);
    if fs.is_empty() {
        return Ok(());
    }
    // joints; a frame may be repeated across one
    let mut cuts: Vec<usize> = (0..ctx.rng.range(1, 5)).map(|_| ctx.rng.below(fs.len() + 1)).collect();
    if ctx.rng.chance(1, 4) {
        cuts = (0..=fs.len().min(12)).collect();
    }
    cuts.push(0);
    cuts.push(fs.len());
    cuts.sort();
    let at = |k: usize| fs.get(k).map_or(whole.len(), |f| f.0);
    let mut parts: Vec<Vec<u8>> = cuts.windows(2).map(|w| whole[at(w[0])..at(w[1])].to_vec()).collect();
    if ctx.rng.chance(1, 2) {
        // a frame with a print on both sides
        let (_, n, ..) = fs[ctx.rng.below(fs.len())];
        let pick = fs.iter().filter(|f| f.3.is_some_and(|b| whole.get(b) == Some(&8))).map(|f| (f.0, f.1));
        let v: Vec<_> = pick.collect();
        if !v.is_empty() && n > 0 {
            let (o, n) = v[ctx.rng.below(v.len())];
            let f = whole[o..o + n].to_vec();
            let k = ctx.rng.below(parts.len());
            parts[k].extend(&f);
            let mut q = f;
            if let Some(next) = parts.get_mut(k + 1) {
                q.extend(next.iter());
                *next = q;
            } else {
                parts.push(q);
            }
        }
    }
    let whole: Vec<u8> = parts.concat();
    if parts.iter().filter(|p| !p.is_empty()).count() > 1 {
        ctx.nontrivial(&whole);
    }
    ctx.evn("joints", parts.len() as u64 - 1);

    // prints: one list behind the other, equal neighbours once
    let mut want: Vec<(String, Vec<u8>)> = vec![];
    for p in &parts {
        for (i, x) in prints(ctx, p)?.into_iter().enumerate() {
            if i == 0 && want.last() == Some(&x) {
                ctx.ev("prints.equal_at_joint");
                continue;
            }
            want.push(x);
        }
    }
    let got = prints(ctx, &whole)?;
    ctx.evn("prints.joined", got.len() as u64);
    ctx.expect(&whole, &format!("prints of a demo joined of {} parts", parts.len()), &show(&got), &show(&want))?;

    // tallies add up
    if !text::uni(&whole).contains("teammate") {
        let mut want = Frags::new();
        for p in &parts {
            for (k, v) in frags(ctx, p)? {
                *want.entry(k).or_default() += v;
            }
        }
        want.retain(|_, v| *v != 0);
        let got = frags(ctx, &whole)?;
        ctx.evn("frags.joined", got.len() as u64);
        ctx.expect(&whole, &format!("frags of a demo joined of {} parts", parts.len()), &format!("{got:?}"), &format!("{want:?}"))?;
    }
    let mut want = BTreeMap::new();
    for p in &parts {
        for (k, v) in flags(ctx, p)? {
            *want.entry(k).or_insert(0) += v;
        }
    }
    let got = flags(ctx, &whole)?;
    ctx.evn("flags.joined", got.len() as u64);
    ctx.expect(&whole, &format!("flag events of a demo joined of {} parts", parts.len()), &format!("{got:?}"), &format!("{want:?}"))?;

    // times add up
    let time = |p: &[u8]| -> u64 { walk(p).iter().map(|f| u64::from(f.2)).sum() };
    let ms = |ctx: &mut Ctx, p: &[u8]| -> Result<String, crate::sup::Viol> {
        Ok(ctx.lib(p, "demo_duration", || m::demo_duration(p))?.map_or("error".into(), |d| format!("{} ns", d.as_nanos())))
    };
    let counted = |n: &[u8]| text::count(&whole, n) == parts.iter().map(|p| text::count(p, n)).sum::<usize>();
    if counted(OVER) && counted(STANDBY) {
        let last = |n: &[u8]| parts.iter().rposition(|p| text::find(p, n).is_some());
        let got = ms(ctx, &whole)?;
        let end = last(OVER).or(last(STANDBY));
        let before: u64 = parts[..end.unwrap_or(parts.len())].iter().map(|p| time(p)).sum();
        let mut sum = u128::from(before) * 1_000_000;
        let mut bad = false;
        if let Some(k) = end {
            ctx.ev("demo_duration.marker_in_part");
            match ctx.lib(&parts[k], "demo_duration", || m::demo_duration(&parts[k]))? {
                Ok(d) => sum += d.as_nanos(),
                Err(_) => bad = true,
            }
        } else {
            // what the parts tell, not what the oracle sums
            sum = 0;
            for p in &parts {
                match ctx.lib(p, "demo_duration", || m::demo_duration(p))? {
                    Ok(d) => sum += d.as_nanos(),
                    Err(_) => bad = true,
                }
            }
        }
        if !bad {
            ctx.ev("demo_duration.joined");
            ctx.expect(&whole, &format!("demo duration of a demo joined of {} parts", parts.len()), &got, &format!("{sum} ns"))?;
        }
    }
    let hoony = |d: &[u8]| m::serverinfo(d).is_ok_and(|s| s.mode.as_deref() == Some("hoonymode"));
    if counted(DATE) {
        if let Some(k) = parts.iter().position(|p| text::find(p, DATE).is_some()) {
            let h = ctx.lib(&whole, "serverinfo", || hoony(&whole) || hoony(&parts[k]))?;
            if !h {
                let a = ctx.lib(&whole, "countdown_duration", || m::countdown_duration(&whole))?;
                let b = ctx.lib(&parts[k], "countdown_duration", || m::countdown_duration(&parts[k]))?;
                let before: u64 = parts[..k].iter().map(|p| time(p)).sum();
                let f = |r: Option<u128>| r.map_or("error".into(), |n| format!("{n} ns"));
                let want = b.ok().map(|d| d.as_nanos() + u128::from(before) * 1_000_000);
                if k > 0 {
                    ctx.ev("countdown.joined");
                }
                ctx.expect(&whole, &format!("countdown of a demo joined of {} parts, the date in part {k}", parts.len()), &f(a.ok().map(|d| d.as_nanos())), &f(want))?;
            }
        }
    }

    // the first parts which hold eight updates decide the pings
    let updates = |p: &[u8]| walk(p).iter().filter(|f| f.3.is_some_and(|b| p.get(b) == Some(&36) && f.0 + f.1 >= b + 4)).count();
    let mut head = vec![];
    let mut n = 0;
    for p in &parts {
        head.extend_from_slice(p);
        n += updates(p);
        if n >= 8 {
            break;
        }
    }
    if n >= 8 && head.len() < whole.len() {
        ctx.ev("pings.decided_by_first");
        let a = ctx.call("ping_per_player_number", &whole);
        let b = ctx.call("ping_per_player_number", &head);
        ctx.expect(&whole, "pings of a demo continued behind eight updates", &a, &b)?;
    }
    ctx.sample(|| format!("{} bytes in {} parts: {} prints, {} flag counters", whole.len(), parts.len(), want.len(), got.len()));
    Ok(())
}

fn anything(ctx: &mut Ctx) -> Vec<u8> {
    match ctx.rng.below(5) {
        0 | 1 => {
            let c = hostile::small_cfg(&mut ctx.rng);
            ctx.ev("behind.another_demo");
            gen::gen_match(&mut ctx.rng, ctx.dict, &c).demo.encode()
        }
        2 => {
            ctx.ev("behind.garbage");
            let n = ctx.rng.range(1, 200);
            if ctx.rng.chance(1, 2) {
                hostile::soup(ctx, n.min(12))
            } else {
                ctx.rng.bytes(n)
            }
        }
        3 => {
            ctx.ev("behind.part_of_demo");
            let c = hostile::small_cfg(&mut ctx.rng);
            let d = gen::gen_match(&mut ctx.rng, ctx.dict, &c).demo.encode();
            let a = ctx.rng.below(d.len() + 1);
            d[a..].to_vec()
        }
        _ => hostile::hostile(ctx).data,
    }
}

/// Frames without any meaning, more than any reader of the client list looks ahead.
fn filler(ctx: &mut Ctx) -> Vec<u8> {
    let mut o = vec![];
    while o.len() < 1400 {
        let n = ctx.rng.range(20, 700);
        let mut b = vec![8, 3];
        b.extend(std::iter::repeat_n(b'.', n));
        b.extend(b"\n\0");
        o.extend([0, 6]);
        o.extend((b.len() as u32).to_le_bytes());
        o.extend(b);
    }
    o
}

fn c28(ctx: &mut Ctx) -> CaseResult {
    let kind = ctx.rng.below(8);
    let mut d = match kind {
        0..=4 => {
            let mut c = hostile::small_cfg(&mut ctx.rng);
            c.pings = (0, 12);
            c.late_infos = ctx.rng.below(2);
            if ctx.idx % 80 == 9 || ctx.rng.chance(1, 12) {
                // the server info fills what is read of it
                let n = ctx.rng.range(500, 1200);
                c.server = true;
                c.server_set.push(("info", Some(vec![b'i'; n])));
                ctx.ev("server_info.long");
            }
            let m = gen::gen_match(&mut ctx.rng, ctx.dict, &c);
            m.demo.encode()
        }
        5 if !ctx.files.demos.is_empty() && ctx.idx % 8 == 0 => {
            let k = ctx.rng.below(ctx.files.demos.len());
            let f = &ctx.files.demos[k].1;
            if ctx.rng.chance(1, 10) {
                f.clone()
            } else {
                f[..ctx.rng.range(1000, 80_000).min(f.len())].to_vec()
            }
        }
        _ => hostile::hostile(ctx).data,
    };
    // from here on complete frames, then the filler, which ends whatever is open
    let fs = walk(&d);
    let end = fs.last().map_or(0, |f| f.0 + f.1);
    let framed = end == d.len();
    if ctx.rng.chance(1, 6) {
        let mut b: Vec<u8> = vec![0, 6, 34, 0, 0, 0, 8, 2];
        b.extend(STOPPED);
        b.extend([b'\n', 0]);
        let n = b.len() as u32 - 6;
        b[2..6].copy_from_slice(&n.to_le_bytes());
        let at = if framed && !fs.is_empty() { fs[ctx.rng.below(fs.len())].0 } else { d.len() };
        // not inside of the chain of the statistics, nor of the client list
        let at = if text::find(&d[at..], STATS).is_some() || text::find(&d[at..], b"\\name\\").is_some() { d.len() } else { at };
        d.splice(at..at, b);
    }
    let f = filler(ctx);
    d.extend(f);
    let mut behind = anything(ctx);
    if ctx.idx % 80 == 9 {
        // far away from both ends
        ctx.ev("behind.long");
        let n = *ctx.rng.pick(&[70_000usize, 300_000, 1_100_000]);
        let f = filler(ctx);
        behind.splice(0..0, f.iter().copied().cycle().take(n / f.len() * f.len()));
    }
    let mut long = d.clone();
    long.extend(&behind);
    ctx.nontrivial(&long);

    // told at the start: kept whatever follows
    for (f, ev) in [
        ("serverinfo_string", "kept.serverinfo"),
        ("serverinfo", "kept.serverinfo"),
        ("filename", "kept.filename"),
        ("timestamp_from_epoch", "kept.timestamp"),
        ("timestamp", "kept.timestamp"),
        ("matchdate_string", "kept.matchdate"),
        ("matchdate", "kept.matchdate"),
        ("countdown_duration", "kept.countdown_duration"),
        ("clientinfo_strings", "kept.clients"),
        ("clientinfo", "kept.clients"),
        ("clients", "kept.clients"),
        ("player_clients", "kept.clients"),
        ("player_names", "kept.clients"),
        ("spectator_clients", "kept.clients"),
        ("spectator_names", "kept.clients"),
        ("team_names", "kept.clients"),
        ("has_human_players", "kept.clients"),
    ] {
        let a = ctx.call(f, &d);
        // an error, or no server info, can be made good by what follows only if nothing was decided
        // frames before the date which are not complete can become so
        if a.starts_with("Err(") || (f == "countdown_duration" && !framed) {
            continue;
        }
        let b = ctx.call(f, &long);
        ctx.ev(ev);
        ctx.expect(&long, &format!("{f} ({} bytes behind the demo of {})", behind.len(), d.len()), &b, &a)?;
    }
    for f in ["has_clients", "is_aborted"] {
        if ctx.call(f, &d) == "true" {
            if f == "is_aborted" {
                ctx.ev("kept.aborted");
            }
            let b = ctx.call(f, &long);
            ctx.expect(&long, &format!("{f} (bytes behind)"), &b, "true")?;
        }
    }
    if framed {
        more_blocks(ctx, &d, kind <= 4)?;
        let a = prints(ctx, &d)?;
        let b = prints(ctx, &long)?;
        ctx.evn("kept.prints", a.len() as u64);
        let n = a.len().min(b.len());
        ctx.expect(&long, "first prints of a demo which goes on", &show(&b[..n]), &show(&a))?;
        let updates = walk(&d).iter().filter(|f| f.3.is_some_and(|b| d.get(b) == Some(&36) && f.0 + f.1 >= b + 4)).count();
        if updates >= 8 {
            ctx.ev("kept.ping");
            let a = ctx.call("ping_per_player_number", &d);
            let b = ctx.call("ping_per_player_number", &long);
            ctx.expect(&long, "ping_per_player_number (bytes behind)", &b, &a)?;
        }
        // the end of the match is told, and nothing behind tells another one
        let end = |n: &[u8]| text::find(&d, n).is_some() && text::count(&d, n) == text::count(&long, n);
        if end(OVER) || (end(STANDBY) && text::find(&long, OVER).is_none()) {
            ctx.ev("kept.demo_duration");
            let a = ctx.call("demo_duration", &d);
            let b = ctx.call("demo_duration", &long);
            ctx.expect(&long, "demo_duration (bytes behind)", &b, &a)?;
        }
    }

    // told at the end: kept whatever comes before it
    let stats = ctx.call("ktxstats_string", &d);
    if stats.starts_with("Ok(") {
        let mut late = anything(ctx);
        if ctx.idx % 80 == 10 {
            ctx.ev("before.long");
            let n = *ctx.rng.pick(&[70_000usize, 300_000, 1_100_000]);
            let f = filler(ctx);
            late.extend(f.iter().copied().cycle().take(n / f.len() * f.len()));
        }
        late.extend(&d);
        for f in ["ktxstats_string", "ktxstats_v3", "server", "match_duration_from_ktxstats", "players", "teams"] {
            let a = ctx.call(f, &d);
            if matches!(f, "players" | "teams") {
                if !ctx.call("ktxstats_v3", &d).starts_with("Ok(") {
                    continue;
                }
                ctx.ev("kept.players_before");
            }
            let b = ctx.call(f, &late);
            ctx.ev("kept.ktxstats_before");
            ctx.expect(&late, &format!("{f} (bytes before the demo)"), crate::api::norm(&b), crate::api::norm(&a))?;
            if text::count(&long, STATS) == text::count(&d, STATS) {
                let b = ctx.call(f, &long);
                ctx.ev("kept.ktxstats_behind");
                ctx.expect(&long, &format!("{f} (bytes behind the demo)"), crate::api::norm(&b), crate::api::norm(&a))?;
            }
        }
    }
    if ctx.call("is_aborted", &d) == "true" {
        let mut late = anything(ctx);
        late.extend(&d);
        let b = ctx.call("is_aborted", &late);
        ctx.expect(&late, "is_aborted (bytes before)", &b, "true")?;
    }
    ctx.sample(|| format!("{} bytes, then {} bytes: {}", d.len(), behind.len(), text::esc(&behind[..behind.len().min(60)])));
    Ok(())
}

/// Other hidden blocks directly behind the last one of the statistics.
fn more_blocks(ctx: &mut Ctx, d: &[u8], generated: bool) -> CaseResult {
    let at = walk(d).iter().rposition(|f| d.get(f.0 + 1).is_some_and(|k| k & 7 == 3) && f.3.is_none() && d[f.0..f.0 + f.1].get(14..18) == Some(&[3, 0, 0, 0]));
    let (Some(k), true) = (at, generated) else {
        return Ok(());
    };
    let f = walk(d)[k];
    let at = f.0 + f.1;
    // this is the end of the document, not another one
    if text::find(&d[at..], STATS).is_some() || text::find(&d[..at], STATS).is_none() {
        return Ok(());
    }
    let mut more = vec![];
    for _ in 0..ctx.rng.range(1, 3) {
        let n = ctx.rng.range(1, 60);
        let mut b = if ctx.rng.chance(1, 2) { b", \"players\": []}\n".to_vec() } else { ctx.rng.bytes(n) };
        b.retain(|x| *x != b'{');
        let number = *ctx.rng.pick(&[0u16, 1, 2, 7]);
        more.extend(Demo { frames: vec![crate::ktx::block_frame(number, &b)] }.encode());
    }
    let mut long = d.to_vec();
    long.splice(at..at, more);
    if text::count(&long, STATS) != text::count(d, STATS) {
        return Ok(());
    }
    ctx.ev("behind.blocks");
    for f in ["ktxstats_string", "ktxstats_v3", "server", "players"] {
        let a = ctx.call(f, d);
        let b = ctx.call(f, &long);
        ctx.expect(&long, &format!("{f} (other blocks behind the document)"), crate::api::norm(&b), crate::api::norm(&a))?;
    }
    Ok(())
}

/// "Match stopped by majority vote" in bright letters.
const STOPPED: [u8; 30] = [
    0xCD, 0xE1, 0xF4, 0xE3, 0xE8, 0x20, 0xF3, 0xF4, 0xEF, 0xF0, 0xF0, 0xE5, 0xE4, 0x20, 0xE2, 0xF9,
    0x20, 0xED, 0xE1, 0xEA, 0xEF, 0xF2, 0xE9, 0xF4, 0xF9, 0x20, 0xF6, 0xEF, 0xF4, 0xE5,
];

