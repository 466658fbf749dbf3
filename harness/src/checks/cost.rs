//! C26 the time a call takes grows in proportion to the input.
//!
//! The monitor measures the processor time of the calling thread for two sizes of one input
//! pattern. Only a call which is slow and whose time per byte has grown several times over is
//! suspicious; it is then measured again, repeatedly and at a third size, and is a violation only
//! if every measurement tells the same. A busy machine can slow a call down, but neither by the size
//! of the input nor every time.

use super::Check;
use crate::api::guard;
use crate::demo::*;
use crate::gen;
use crate::ktx;
use crate::sup::{CaseResult, Ctx};
use crate::tables::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C26",
        case: c26,
        quick: 1_600,
        thorough: 60_000,
        rule: "patterns (repeated messages, frames, texts, clients, statistics records and raw bytes, alone, mixed, and behind or before a client list) at sizes of 32 kB and 512 kB, suspicious ones at 2 MB; processor time per byte compared between the sizes; a pattern counts when distinct by content hash of its small form",
        assumptions: &["processor time of one thread, least of several measurements; a call faster than 40 ms for 512 kB is never suspicious"],
        must_observe: &["pattern.frames", "pattern.one_frame", "pattern.one_text", "pattern.raw", "pattern.mixed", "pattern.document", "pattern.small_blocks", "pattern.distinct", "pattern.clients", "calls_timed"],
        cross_process: false,
    }]
}

const SMALL: usize = 32 << 10;
const LARGE: usize = 16 * SMALL;
const HUGE: usize = 64 * SMALL;
const SLOW_NS: u64 = 40_000_000;

fn thread_ns() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(3, &mut t); // CLOCK_THREAD_CPUTIME_ID
    }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

fn time(f: fn(&[u8]) -> String, d: &[u8], times: usize) -> u64 {
    (0..times)
        .map(|_| {
            let a = thread_ns();
            let r = guard(|| f(d).len());
            let b = thread_ns();
            std::hint::black_box(&r);
            b - a
        })
        .min()
        .unwrap_or(0)
}

/// A growing input: `head`, then units until the size is reached, then `tail`.
struct Pattern {
    what: &'static str,
    head: Vec<u8>,
    tail: Vec<u8>,
    units: Vec<Vec<u8>>,
    /// the first units fill the first half, the others the second
    halves: bool,
    /// numbers replace this mark in the units, so that no two are the same
    distinct: bool,
    /// the units are the content of one frame, of this opening
    frame: Option<Vec<u8>>,
    /// the units are players of a statistics document
    document: bool,
    /// bytes of the document in each block
    block: usize,
}

const MARK: &[u8] = b"#####";

fn put(o: &mut Vec<u8>, unit: &[u8], n: usize, distinct: bool) {
    let at = o.len();
    o.extend_from_slice(unit);
    if distinct {
        let mut i = at;
        while i + MARK.len() <= o.len() {
            if &o[i..i + MARK.len()] == MARK {
                let mut v = n;
                for k in (0..MARK.len()).rev() {
                    o[i + k] = b"0123456789abcdefghijklmnopqrstuvwxyz"[v % 36];
                    v /= 36;
                }
                i += MARK.len();
            } else {
                i += 1;
            }
        }
    }
}

impl Pattern {
    fn build(&self, size: usize) -> Vec<u8> {
        let mut body: Vec<u8> = vec![];
        let mut n = 0;
        // frame and block headers count as well
        let size = if self.document { size * self.block / (self.block + 18) } else { size };
        while body.len() < size {
            let k = if !self.halves {
                n % self.units.len()
            } else {
                (body.len() * self.units.len() / size).min(self.units.len() - 1)
            };
            if self.document && n > 0 {
                body.push(b',');
            }
            put(&mut body, &self.units[k], n, self.distinct);
            n += 1;
        }
        let mut o = self.head.clone();
        if self.document {
            let doc = [&b"{\"version\": 3, \"players\": ["[..], &body, b"]}\n"].concat();
            let mut d = Demo { frames: vec![] };
            let blocks = doc.chunks(self.block).count();
            for (i, c) in doc.chunks(self.block).enumerate() {
                d.frames.push(ktx::block_frame(if i + 1 == blocks { 0 } else { (i as u16).saturating_add(1) }, c));
            }
            o.extend(d.encode());
        } else if let Some(f) = &self.frame {
            o.extend([0, 6]);
            o.extend(((body.len() + f.len() + 1) as u32).to_le_bytes());
            o.extend_from_slice(f);
            o.extend(body);
            o.push(0);
        } else {
            o.extend(body);
        }
        o.extend_from_slice(&self.tail);
        o
    }
}

fn encode(f: Vec<Frame>) -> Vec<u8> {
    Demo { frames: f }.encode()
}

fn name(ctx: &mut Ctx, distinct: bool) -> Vec<u8> {
    if distinct {
        [b"p", MARK].concat()
    } else {
        gen::gen_name(&mut ctx.rng, ctx.dict)
    }
}

/// One message of whatever kind.
fn message(ctx: &mut Ctx, distinct: bool) -> Msg {
    let names = vec![name(ctx, distinct), name(ctx, distinct), b"x".to_vec(), b"y".to_vec()];
    match ctx.rng.below(10) {
        0..=3 => {
            let ev = if ctx.rng.chance(1, 3) {
                gen::Ev::TeamkillByUnknown {
                    victim: 0,
                    pat: ctx.rng.below(UNKNOWN_TEAMKILL_X.len()),
                }
            } else {
                gen::gen_event(&mut ctx.rng, names.len(), true)
            };
            let t = gen::obit_text(&ev, &names).unwrap_or(b"x died".to_vec());
            Msg::Print {
                id: 1,
                text: [&t[..], b"\n"].concat(),
            }
        }
        4 => {
            let (t, _) = FLAG_TEXT[ctx.rng.below(FLAG_TEXT.len())];
            Msg::Print {
                id: 2,
                text: [&names[0][..], t.as_bytes(), if ctx.rng.chance(2, 3) { b"\n" } else { b"" }].concat(),
            }
        }
        5 => Msg::PingPl {
            slot: ctx.rng.below(32) as u8,
            ping: ctx.rng.byte() as u16,
            pl: 0,
        },
        6 => Msg::Frags {
            slot: ctx.rng.below(32) as u8,
            frags: 1,
        },
        7 => Msg::UserInfo {
            slot: ctx.rng.below(32) as u8,
            uid: 7,
            info: [&b"\\name\\"[..], &names[0], b"\\team\\red"].concat(),
        },
        8 => gen::gen_chat(&mut ctx.rng, &names, ctx.dict),
        _ => Msg::Print {
            id: ctx.rng.below(5) as u8,
            text: if distinct { [b"t", MARK].concat() } else { ctx.dict.str(&mut ctx.rng) },
        },
    }
}

fn frame_unit(ctx: &mut Ctx, distinct: bool) -> Vec<u8> {
    let f = match ctx.rng.below(8) {
        0 => gen::gen_empty_frame(&mut ctx.rng),
        1 => gen::gen_set_frame(&mut ctx.rng),
        2 => gen::gen_hidden_frame(&mut ctx.rng),
        3 => Frame::read(vec![Msg::print(2, b"matchdate: 2024-06-16 17:22:17 CEST\n")]),
        _ => {
            let n = if ctx.rng.chance(1, 2) { 1 } else { ctx.rng.range(1, 5) };
            let mut ms: Vec<Msg> = (0..n).map(|_| message(ctx, distinct)).collect();
            if matches!(ms[0], Msg::Print { id: 1, .. }) && ctx.rng.chance(1, 2) {
                let slot = ctx.rng.below(32) as u8;
                ms.insert(1, Msg::Frags { slot, frags: 7 });
            }
            let mut f = Frame::read(ms);
            gen::random_target(&mut ctx.rng, &mut f);
            f
        }
    };
    encode(vec![f])
}

fn text_unit(ctx: &mut Ctx) -> Vec<u8> {
    let mut t: Vec<u8> = match ctx.rng.below(6) {
        0 => {
            let n = ctx.rng.range(1, 4);
            ctx.rng.bytes(n)
        }
        1 => gen::fragments_cached()[ctx.rng.below(gen::fragments_cached().len())].clone(),
        2 => {
            // nearly the text that is looked for
            let mut s = ctx.dict.str(&mut ctx.rng);
            s.pop();
            s
        }
        _ => ctx.dict.str(&mut ctx.rng),
    };
    t.retain(|b| *b != 0);
    if t.is_empty() {
        t.push(b'a');
    }
    t
}

fn pattern(ctx: &mut Ctx) -> Pattern {
    let distinct = ctx.rng.chance(1, 3);
    let mut p = Pattern {
        what: "",
        head: vec![],
        tail: vec![],
        units: vec![],
        halves: false,
        distinct,
        frame: None,
        document: false,
        block: *ctx.rng.pick(&[8000usize, 8000, 200, 40, 12]),
    };
    let n_units = *ctx.rng.pick(&[1usize, 1, 1, 2, 2, 3, 5]);
    match ctx.rng.below(12) {
        0..=4 => {
            p.what = "pattern.frames";
            p.units = (0..n_units).map(|_| frame_unit(ctx, distinct)).collect();
        }
        5 => {
            p.what = "pattern.one_frame";
            for _ in 0..n_units {
                let mut o = vec![];
                message(ctx, distinct).encode(&mut o);
                p.units.push(o);
            }
            p.frame = Some(vec![]);
        }
        6 | 7 => {
            p.what = "pattern.one_text";
            p.units = (0..n_units).map(|_| text_unit(ctx)).collect();
            p.frame = Some(match ctx.rng.below(7) {
                0 => b"\x08\x02matchdate: ".to_vec(),
                1 => b"\x09fullserverinfo \"\\map\\dm6\\".to_vec(),
                2 => b"\x09cmd spawn 1 0\n\0\x28\x00\x01\x00\x00\x00\\name\\".to_vec(),
                3 => b"\x28\x00\x01\x00\x00\x00".to_vec(),
                k => vec![8, k as u8 % 4],
            });
        }
        8 => {
            p.what = "pattern.raw";
            for _ in 0..n_units {
                let mut u = text_unit(ctx);
                if ctx.rng.chance(1, 2) {
                    u.push(0);
                }
                p.units.push(u);
            }
        }
        9 | 10 => {
            p.what = "pattern.document";
            let team = if distinct && ctx.rng.chance(1, 2) { "t#####" } else { "red" };
            let nm = if distinct { "n#####" } else { "eQu" };
            let frags = ctx.rng.range(0, 40);
            p.units = vec![format!(
                "{{\"name\": \"{nm}\", \"team\": \"{team}\", \"top-color\": 4, \"bottom-color\": {}, \"ping\": 12, \"login\": \"\", \"stats\": {{\"frags\": {frags}, \"deaths\": 3, \"tk\": 0, \"spawn-frags\": 2, \"kills\": 9, \"suicides\": 0}}}}",
                ctx.rng.below(17)
            )
            .into_bytes()];
            p.document = true;
        }
        _ => {
            p.what = "pattern.clients";
            p.head = b"\x00\x06\x12\x00\x00\x00\x09cmd spawn 1 0\n\0\0\0".to_vec();
            p.units = vec![];
            for _ in 0..n_units {
                let m = Msg::UserInfo {
                    slot: ctx.rng.below(32) as u8,
                    uid: 1,
                    info: [&b"\\name\\"[..], &name(ctx, distinct), b"\\team\\", &name(ctx, distinct)].concat(),
                };
                p.units.push(encode(vec![Frame::read(vec![m])]));
            }
        }
    }
    p.halves = p.units.len() > 1 && ctx.rng.chance(1, 3);
    if p.frame.is_none() && p.what != "pattern.clients" {
        let w = gen::WorldCfg {
            players: (2, 16),
            ..gen::WorldCfg::default()
        };
        let clients = gen::gen_clients(&mut ctx.rng, ctx.dict, &w);
        let mut list = encode(vec![
            Frame::read(vec![Msg::Raw(b"\x09cmd spawn 1 0\n\0".to_vec())]),
            Frame::read(gen::client_list_msgs(&mut ctx.rng, &clients, 16).concat()),
            Frame::read(vec![Msg::Raw(vec![47; 600])]),
        ]);
        let s = gen::gen_server(&mut ctx.rng, ctx.dict);
        let server = encode(vec![gen::server_frame(&mut ctx.rng, &s)]);
        match ctx.rng.below(4) {
            0 => p.head = server,
            1 => p.head = [server, list].concat(),
            2 => {
                list.extend_from_slice(b"\x00\x06\x0c\x00\x00\x00\x00\x02EndOfDemo\0");
                p.tail = list;
                p.head = server;
            }
            _ => {}
        }
    }
    p
}

fn c26(ctx: &mut Ctx) -> CaseResult {
    let p = pattern(ctx);
    ctx.ev(p.what);
    if p.distinct {
        ctx.ev("pattern.distinct");
    }
    if p.units.len() > 1 {
        ctx.ev("pattern.mixed");
    }
    if p.document && p.block < 100 {
        ctx.ev("pattern.small_blocks");
    }
    let small = p.build(SMALL);
    let large = p.build(LARGE);
    ctx.nontrivial(&small);
    let mut slowest = (0u64, "");
    for a in ctx.apis {
        ctx.st.ev("api_calls", 2);
        ctx.st.ev("calls_timed", 2);
        ctx.st.ev("oracle_comparisons", 1);
        let t_large = time(a.call, &large, 1);
        let per_byte = t_large / large.len() as u64;
        ctx.st.max(if a.ktx { "ns_per_byte.ktx" } else { "ns_per_byte" }, per_byte);
        if per_byte >= slowest.0 {
            slowest = (per_byte, a.name);
        }
        if t_large < SLOW_NS {
            continue;
        }
        ctx.st.ev("calls_slow", 1);
        // how much more time each byte takes, in percent
        let grown = |t_small: u64, n_small: usize, t: u64, n: usize| -> u64 {
            let a = t_small.max(1) as f64 / n_small as f64;
            let b = t as f64 / n as f64;
            (b / a * 100.0) as u64
        };
        let t_small = time(a.call, &small, 3);
        if grown(t_small, small.len(), t_large, large.len()) < 300 {
            continue;
        }
        ctx.st.ev("calls_measured_again", 1);
        let mut told = vec![];
        for _ in 0..3 {
            let s = time(a.call, &small, 4);
            let l = time(a.call, &large, 2);
            let g = grown(s, small.len(), l, large.len());
            told.push(format!("{} us -> {} us", s / 1000, l / 1000));
            if g < 300 || l < SLOW_NS {
                told.clear();
                break;
            }
        }
        if told.is_empty() {
            continue;
        }
        let l = time(a.call, &large, 2);
        let huge = p.build(HUGE);
        let h = time(a.call, &huge, 1);
        if grown(l, large.len(), h, huge.len()) < 200 {
            continue;
        }
        return Err(ctx.viol(
            &small,
            format!(
                "{}: {} bytes -> {} bytes takes {} ({}); {} bytes take {} us: the time grows much faster than the input. The input below is the small one; the others repeat its content",
                a.name,
                small.len(),
                large.len(),
                told.join(", "),
                p.what,
                huge.len(),
                h / 1000
            ),
        ));
    }
    ctx.sample(|| {
        format!(
            "{}{}: {} and {} bytes, slowest {} ({} ns per byte)",
            p.what,
            if p.distinct { ", distinct" } else { "" },
            small.len(),
            large.len(),
            slowest.1,
            slowest.0
        )
    });
    Ok(())
}
