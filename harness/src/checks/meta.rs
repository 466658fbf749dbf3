//! C05 truncated recordings; C06 addressing of frames and unrelated traffic.

use super::Check;
use crate::api::norm;
use crate::demo::*;
use crate::gen::{self, Cfg, Ev, WorldCfg};
use crate::hostile::frame_offsets;
use crate::sup::{CaseResult, Ctx};
use crate::tables::NEEDLES;
use crate::text;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C05",
            case: c05,
            quick: 72_000,
            thorough: 1_200_000,
            rule: "generated and recorded demos cut at a chosen byte; readers of the message stream compared with the same demo cut at the last complete frame, with a copy ending in a header which announces more than there is, and with the reference readers; an input counts when it has at least one complete frame and is distinct by content hash",
            assumptions: &["readers whose result depends on a marker or client list that is itself cut are compared only when the marker is on the same side of both cuts"],
            must_observe: &["cut.inside_header", "cut.inside_body", "cut.at_boundary", "cut.recorded_match", "compared.frags", "compared.demo_duration"],
            cross_process: false,
        },
        Check {
            id: "C06",
            case: c06,
            quick: 36_000,
            thorough: 600_000,
            rule: "pairs of demos with the same messages: frames addressed otherwise, empty and unrelated zero-duration frames added; all results compared; a pair counts when both demos differ and is distinct by content hash",
            assumptions: &["the server string stays within the first 1280 bytes", "frames are added neither inside a chain of related frames (client list, ktxstats blocks, frag updates after an unnamed team kill) nor after the end of demo print"],
            must_observe: &["pair.readdressed", "pair.empty_frames", "pair.unrelated_frames", "functions_compared"],
            cross_process: false,
        },
    ]
}

const OVER: &[u8] = b"The match is over";
const STANDBY: &[u8] = b"4status\0Standby\0";
const DATE: &[u8] = b"\x08\x02matchdate: ";

fn same_marks(a: &[u8], b: &[u8], n: &[u8]) -> bool {
    text::count(a, n) == text::count(b, n)
}

fn c05(ctx: &mut Ctx) -> CaseResult {
    let recorded = ctx.idx % 97 == 5 && !ctx.files.demos.is_empty();
    let mut demo: Option<Demo> = None;
    let (data, offs): (Vec<u8>, Vec<usize>) = if recorded {
        let k = ctx.rng.below(ctx.files.demos.len());
        let f = &ctx.files.demos[k].1;
        let n = match ctx.rng.below(3) {
            0 => f.len(),
            1 => ctx.rng.range(20_000, 200_000).min(f.len()),
            _ => ctx.rng.below(f.len()),
        };
        let d = f[..n].to_vec();
        let o = frame_offsets(&d);
        ctx.ev("cut.recorded_match");
        (d, o)
    } else {
        let c = Cfg {
            obits: (0, 12),
            chats: (0, 8),
            flags: (0, 4),
            pings: (0, 6),
            noise: (0, 8),
            server: ctx.rng.chance(3, 4),
            client_list: ctx.rng.chance(3, 4),
            match_over: ctx.rng.chance(2, 3),
            standby: ctx.rng.chance(1, 2),
            ktx: ctx.rng.chance(1, 4),
            ..Cfg::default()
        };
        let m = gen::gen_match(&mut ctx.rng, ctx.dict, &c);
        let (d, o) = m.demo.encode_with_offsets();
        demo = Some(m.demo);
        (d, o)
    };
    if data.is_empty() {
        return Ok(());
    }
    // offsets of frames within the data; the end of the last complete one
    let starts: Vec<usize> = offs.iter().copied().filter(|o| *o < data.len()).collect();
    if starts.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let k = ctx.rng.below(starts.len());
        let at = starts[k];
        let next = starts.get(k + 1).copied().unwrap_or(data.len());
        let cut = match ctx.rng.below(6) {
            0 => {
                ctx.ev("cut.inside_header");
                (at + ctx.rng.range(1, 9)).min(next)
            }
            1 => {
                ctx.ev("cut.at_boundary");
                at
            }
            2 => next - 1,
            3 => ctx.rng.below(data.len() + 1),
            _ => {
                ctx.ev("cut.inside_body");
                ctx.rng.range(at, next)
            }
        };
        let cut = cut.min(data.len());
        let t1 = data[..cut].to_vec();
        // the last frame boundary not beyond the cut
        let mut whole = 0usize;
        let mut frames = 0;
        for (i, o) in starts.iter().enumerate() {
            let end = starts.get(i + 1).copied().unwrap_or_else(|| {
                if demo.is_some() {
                    data.len()
                } else {
                    frame_end(&data, *o)
                }
            });
            if end <= cut {
                whole = end;
                frames = i + 1;
            } else {
                break;
            }
        }
        let t2 = data[..whole].to_vec();
        let mut t3 = t2.clone();
        t3.push(ctx.rng.byte());
        t3.push(*ctx.rng.pick(&[6u8, 1, 4, 5]));
        let tail_len = ctx.rng.below(40);
        let lie = match ctx.rng.below(6) {
            0 => u32::MAX,
            1 => 0x7fff_fff0,
            // the low bits of the size would fit
            4 | 5 => (1u32 << ctx.rng.range(6, 31)) + ctx.rng.below(tail_len + 1) as u32,
            2 => tail_len as u32 + 1,
            _ => tail_len as u32 + 1 + ctx.rng.below(100_000) as u32,
        };
        t3.extend_from_slice(&lie.to_le_bytes());
        // what is there of that frame looks like messages
        let mut tail = vec![];
        Msg::print(1, b"ghost died\n").encode(&mut tail);
        Msg::PingPl { slot: 3, ping: 77, pl: 0 }.encode(&mut tail);
        tail.resize(tail_len, 0x24);
        t3.extend_from_slice(&tail);
        if frames > 0 {
            ctx.nontrivial(&t1);
        }
        ctx.evn("frames_before_cut", frames as u64);

        for (what, t) in [("cut inside of the last frame", &t1), ("last frame announces more than there is", &t3)] {
            for f in ["prints", "flag_events_per_player_name", "ping_per_player_number"] {
                let a = ctx.call(f, t);
                let b = ctx.call(f, &t2);
                ctx.expect(t, &format!("{f} ({what}, {frames} complete frames, {whole} bytes)"), norm(&a), norm(&b))?;
            }
            let ca = ctx.call("clients", t);
            let cb = ctx.call("clients", &t2);
            if norm(&ca) == norm(&cb) {
                let a = ctx.call("frags_per_player_name", t);
                let b = ctx.call("frags_per_player_name", &t2);
                ctx.expect(t, &format!("frags_per_player_name ({what})"), &a, &b)?;
                ctx.ev("compared.frags");
            }
            if same_marks(t, &t2, OVER) && same_marks(t, &t2, STANDBY) {
                let a = ctx.call("demo_duration", t);
                let b = ctx.call("demo_duration", &t2);
                ctx.expect(t, &format!("demo_duration ({what})"), &a, &b)?;
                ctx.ev("compared.demo_duration");
            }
            // the game mode decides whether there is a countdown at all
            if same_marks(t, &t2, DATE) && ctx.call("serverinfo", t) == ctx.call("serverinfo", &t2) {
                let a = ctx.call("countdown_duration", t);
                let b = ctx.call("countdown_duration", &t2);
                ctx.expect(t, &format!("countdown_duration ({what})"), norm(&a), norm(&b))?;
            }
        }
        // against the reference reader
        if let Some(d) = &demo {
            let part = Demo {
                frames: d.frames[..frames].to_vec(),
            };
            let want = super::readers::prints_text(&part);
            let got = ctx.call("prints", &t1);
            ctx.expect(&t1, "prints of the complete frames", &got, &want)?;
            let full = super::readers::prints_text(d);
            if !full.starts_with(&want) {
                panic!("harness: prints of a prefix are no prefix");
            }
        }
        ctx.sample(|| {
            format!(
                "{} bytes cut at {cut}: {frames} complete frames in {whole} bytes",
                data.len()
            )
        });
    }
    Ok(())
}

fn frame_end(d: &[u8], at: usize) -> usize {
    let k = d.get(at + 1).copied().unwrap_or(0) & 7;
    let h = at + if k == 3 { 6 } else { 2 };
    match k {
        0 | 7 => at + 2,
        2 => h + 8,
        _ => match d.get(h..h + 4) {
            Some(b) => h + 4 + u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize,
            None => usize::MAX,
        },
    }
}

/// May nothing with messages be inserted after this frame?
fn blocked(m: &gen::Match) -> Vec<bool> {
    let fs = &m.demo.frames;
    let mut b: Vec<bool> = fs.iter().map(|f| f.glued).collect();
    for (i, ev) in &m.events {
        if matches!(ev, Ev::TeamkillByUnknown { .. }) {
            let mut bodies = 0;
            for k in *i..fs.len() {
                if k > *i && fs[k].has_messages() {
                    bodies += 1;
                }
                if bodies == 2 {
                    break;
                }
                b[k] = true;
            }
        }
    }
    b
}

fn c06(ctx: &mut Ctx) -> CaseResult {
    let c = Cfg {
        world: WorldCfg {
            teams: ctx.rng.range(1, 3),
            ..WorldCfg::default()
        },
        ktx: ctx.rng.chance(1, 3),
        match_over: ctx.rng.chance(2, 3),
        standby: ctx.rng.chance(2, 3),
        matchdate: ctx.rng.chance(4, 5),
        ..Cfg::default()
    };
    let (m, a) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    let mut out: Vec<Frame> = vec![];
    let block = blocked(&m);
    let readdress = ctx.rng.chance(2, 3);
    let empties = ctx.rng.chance(2, 3);
    let noise = ctx.rng.chance(2, 3);
    let (mut na, mut ne, mut nn) = (0u64, 0u64, 0u64);
    let last = m.demo.frames.len() - 1;
    let dens = *ctx.rng.pick(&[2usize, 4, 10]);
    for (i, f) in m.demo.frames.iter().enumerate() {
        let mut f = f.clone();
        if readdress && !f.fixed && !f.is_hidden() && matches!(f.body, Body::Read(_)) && ctx.rng.chance(1, 2) {
            gen::random_target(&mut ctx.rng, &mut f);
            na += 1;
        }
        let (glued, fixed) = (f.glued, f.fixed);
        out.push(f);
        if i == last {
            break;
        }
        let chain = glued && (fixed || matches!(m.demo.frames[i + 1].fixed, true));
        if empties && !chain {
            while ctx.rng.chance(1, dens) {
                let mut e = gen::gen_empty_frame(&mut ctx.rng);
                e.ms = 0;
                out.push(e);
                ne += 1;
            }
        }
        if noise && !block[i] && ctx.rng.chance(1, dens) {
            let mut e = gen::gen_noise_frame(&mut ctx.rng, ctx.dict);
            e.ms = 0;
            out.push(e);
            nn += 1;
        }
    }
    let b = Demo { frames: out }.encode();
    if NEEDLES.iter().any(|n| text::count(&a, n) != text::count(&b, n)) {
        ctx.ev("skipped.marker_by_chance");
        return Ok(());
    }
    let fits = |d: &[u8]| {
        text::find(d, b"fullserverinfo \"")
            .is_some_and(|o| text::find(&d[o + 16..], b"\"").is_some_and(|e| o + 16 + e < 1280))
    };
    if !fits(&a) || !fits(&b) {
        ctx.ev("skipped.server_string_too_far");
        return Ok(());
    }
    if a != b {
        ctx.nontrivial(&b);
    }
    ctx.ev(if na > 0 { "pair.readdressed" } else { "pair.same_address" });
    if ne > 0 {
        ctx.ev("pair.empty_frames");
    }
    if nn > 0 {
        ctx.ev("pair.unrelated_frames");
    }
    let names: Vec<&'static str> = ctx.apis.iter().map(|a| a.name).collect();
    for n in names {
        if n == "is_valid" && (a.len() < 1024 || b.len() < 1024) {
            continue;
        }
        let ra = ctx.call(n, &a);
        let rb = ctx.call(n, &b);
        ctx.evn("functions_compared", 1);
        ctx.expect(&b, &format!("{n} (same messages; {na} frames addressed otherwise, {ne} empty and {nn} unrelated frames added)"), norm(&rb), norm(&ra))?;
    }
    ctx.sample(|| format!("{} frames; {na} addressed otherwise, {ne} empty and {nn} unrelated added; all functions agree", last + 1));
    Ok(())
}
