//! Hostile inputs: not demos, nearly demos, and demos damaged in the places that matter.

use crate::demo::{Body, Msg};
use crate::gen::{self, Cfg, WorldCfg};
use crate::rng::Rng;
use crate::sup::Ctx;

const TOKENS: &[&[u8]] = &[
    b"fullserverinfo \"",
    b"\"",
    b"\\",
    b"\\name\\",
    b"\\team\\",
    b"\\*spectator\\1",
    b"\\mode\\hoonymode",
    b"\\epoch\\",
    b"\\serverdemo\\",
    b"\x09cmd spawn",
    b"cmd spawn 1 0\n\0",
    b"\x08\x02matchdate: ",
    b"\x08\x02matchdate: 2024-02-29 23:59:59 CEST\n\0",
    b"2024-01-01 00:00:00 ",
    b"+0530\n",
    b"-12\n",
    b"{\"version\": ",
    b"{\"version\": 3}",
    b"\"duration\": ",
    b"\"duration\": 1e999,",
    b"\"duration\": -1,",
    b"\"duration\": NaN,",
    b"\"duration\": 99999999999999999999,",
    b"\"bot\": {",
    b"\"players\": [{}]",
    b"The match is over",
    b"4status\0Standby\0",
    b"\x00\x02EndOfDemo\0",
    b"Server is paused",
    b"paused the game",
    b"\x08\x01",
    b"\x08\x02",
    b"\x08\x03hi\n\0",
    b" was nailed by ",
    b" was telefragged by his teammate",
    b" suicides",
    b" rips ",
    b" a new one",
    b"'s rocket",
    b" gets an assist for returning his flag!\n",
    b"flag",
    b"\x0e\x00\x05\x00",
    b"\x24\x00\x20\x00\x35\x00\x00",
    b"\x28\x00\x01\x00\x00\x00",
    b"\x00\x06",
    b"\x00\x03\x00\x00\x00\x00",
    b"\xff\xff\xff\xff",
    b"\x00\x00\x00\x00",
    b"\x00",
    b"\n",
    b"\xe2\x82\xac",
    b"\xf0\x9f\x8e\xae",
    b"\xc3",
    b"\x80",
];

const INTERESTING: &[u32] = &[
    0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 257, 1023, 1024, 1025, 0x7fff, 0x8000, 0xffff, 0x10000,
    0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_fffe, 0xffff_ffff,
];

pub fn token(ctx: &mut Ctx) -> Vec<u8> {
    if ctx.rng.chance(1, 4) {
        ctx.dict.str(&mut ctx.rng)
    } else {
        ctx.rng.pick(TOKENS).to_vec()
    }
}

pub fn soup(ctx: &mut Ctx, n: usize) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..n {
        match ctx.rng.below(8) {
            0..=4 => o.extend(token(ctx)),
            5 => {
                let k = ctx.rng.below(8);
                o.extend(ctx.rng.bytes(k));
            }
            6 => {
                let b = ctx.rng.byte();
                let k = ctx.dict.int(&mut ctx.rng, 0, 2000) as usize;
                o.extend(vec![b; k]);
            }
            _ => {
                let v = *ctx.rng.pick(INTERESTING);
                o.extend(v.to_le_bytes());
            }
        }
    }
    o
}

pub fn small_cfg(r: &mut Rng) -> Cfg {
    Cfg {
        world: WorldCfg {
            players: (0, 4),
            specs: (0, 2),
            ..WorldCfg::default()
        },
        obits: (0, 6),
        chats: (0, 3),
        flags: (0, 2),
        pings: (0, 3),
        noise: (0, 4),
        server: r.chance(7, 8),
        client_list: r.chance(7, 8),
        matchdate: r.chance(3, 4),
        match_over: r.chance(1, 2),
        standby: r.chance(1, 2),
        ktx: r.chance(1, 2),
        end: r.chance(3, 4),
        ..Cfg::default()
    }
}

pub fn mutate(ctx: &mut Ctx, d: &mut Vec<u8>, frames: &[usize]) {
    let n = *ctx.rng.pick(&[1usize, 1, 1, 2, 3, 5, 8]);
    for _ in 0..n {
        if d.is_empty() {
            d.push(0);
        }
        let len = d.len();
        let at = ctx.rng.below(len);
        match ctx.rng.below(12) {
            0 => d[at] ^= 1 << ctx.rng.below(8),
            1 => d[at] = ctx.rng.byte(),
            2 => {
                let n = ctx.rng.range(1, 40).min(len - at);
                d.drain(at..at + n);
            }
            3 => {
                let n = ctx.rng.range(1, 200).min(len - at);
                let part = d[at..at + n].to_vec();
                let to = ctx.rng.below(len + 1);
                for (i, b) in part.into_iter().enumerate() {
                    d.insert(to + i, b);
                }
            }
            4 | 5 => {
                let t = token(ctx);
                for (i, b) in t.into_iter().enumerate() {
                    d.insert(at + i, b);
                }
            }
            6 => {
                let t = token(ctx);
                for (i, b) in t.into_iter().enumerate() {
                    if at + i < d.len() {
                        d[at + i] = b;
                    }
                }
            }
            7..=9 => {
                // a length field of a frame or block
                if frames.len() > 1 {
                    let f = frames[ctx.rng.below(frames.len() - 1)];
                    let off = f + *ctx.rng.pick(&[0usize, 1, 2, 6, 10, 14, 16]);
                    let v = match ctx.rng.below(3) {
                        0 => *ctx.rng.pick(INTERESTING),
                        1 => (d.len().saturating_sub(off) as u32)
                            .wrapping_add(ctx.rng.below(24) as u32)
                            .wrapping_sub(12),
                        _ => ctx.dict.int(&mut ctx.rng, 0, u32::MAX as u64) as u32,
                    };
                    let w = ctx.rng.pick(&[1usize, 2, 4, 4, 4]).to_owned();
                    for (i, b) in v.to_le_bytes().iter().take(w).enumerate() {
                        if off + i < d.len() {
                            d[off + i] = *b;
                        }
                    }
                }
            }
            10 => d.truncate(at),
            _ => {
                let n = ctx.rng.range(1, 64).min(len - at);
                let b = ctx.rng.byte();
                for x in d[at..at + n].iter_mut() {
                    *x = b;
                }
            }
        }
    }
}

pub fn frame_offsets(d: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0usize;
    while i + 2 <= d.len() {
        v.push(i);
        let k = d[i + 1] & 7;
        let h = if k == 3 { 6 } else { 2 };
        i += match k {
            0 | 7 => 2,
            2 => 10,
            _ => {
                if i + h + 4 > d.len() {
                    break;
                }
                h + 4
                    + u32::from_le_bytes([d[i + h], d[i + h + 1], d[i + h + 2], d[i + h + 3]]) as usize
            }
        };
    }
    v
}

/// A window of a recorded match: its start (so that the server and client lists are there), a part
/// of the middle and of the end.
pub fn real_window(ctx: &mut Ctx, max: usize) -> Vec<u8> {
    if ctx.files.demos.is_empty() {
        return vec![];
    }
    let k = ctx.rng.below(ctx.files.demos.len());
    let f = &ctx.files.demos[k].1;
    let a = ctx.rng.range(0, 12000.min(f.len()));
    let mut o = f[..a].to_vec();
    let n = ctx.rng.range(0, max.saturating_sub(a).min(f.len() / 2));
    let at = ctx.rng.below(f.len() - n);
    o.extend_from_slice(&f[at..at + n]);
    if ctx.rng.chance(1, 2) {
        let n = ctx.rng.range(0, 20000.min(f.len()));
        o.extend_from_slice(&f[f.len() - n..]);
    }
    o
}

/// Numbers as no server writes them.
pub fn odd_number(ctx: &mut Ctx) -> Vec<u8> {
    const ODD: &[&str] = &[
        "", "-", "+", "-1", "-0", "+7", "00000000000000000000000", "007", "1e9", "1e400", "0x10", " 5", "5 ",
        "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
        "253402300799", "253402300800", "-62135596800", "-62135596801", "8210266876799", "8210266876800",
        "-8334601228800", "-8334601228801", "9223372036854775", "1.5", ".5", "NaN", "inf", "true", "null", "\u{0663}", "9e18",
        "32767", "32768", "65535", "65536", "127", "128", "255", "256", "60", "61", "24", "99", "0",
    ];
    match ctx.rng.below(6) {
        0..=2 => ctx.rng.pick(ODD).as_bytes().to_vec(),
        3 => {
            let v = ctx.rng.next() as i64 >> ctx.rng.below(64);
            v.to_string().into_bytes()
        }
        4 => ctx.dict.int(&mut ctx.rng, 0, u32::MAX as u64).to_string().into_bytes(),
        _ => {
            let n = ctx.rng.range(1, 40);
            (0..n).map(|_| b'0' + ctx.rng.below(10) as u8).collect()
        }
    }
}

/// Replaces some of the numbers in a text.
pub fn odd_numbers(ctx: &mut Ctx, b: &[u8], num: usize, of: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let neg = b[i] == b'-' && b.get(i + 1).is_some_and(u8::is_ascii_digit);
        if b[i].is_ascii_digit() || neg {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if ctx.rng.chance(num, of) {
                o.extend(odd_number(ctx));
            } else {
                o.extend_from_slice(&b[i..j]);
            }
            i = j;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// A demo in good order which says unusual things: settings, dates, attributes and statistics far
/// from what a server would ever write.
pub fn odd_values(ctx: &mut Ctx) -> Vec<u8> {
    let mut c = small_cfg(&mut ctx.rng);
    c.server = true;
    if ctx.rng.chance(2, 3) {
        c.server_set.push(("epoch", Some(odd_number(ctx))));
    }
    for _ in 0..ctx.rng.below(4) {
        let k = if ctx.rng.chance(2, 3) {
            *ctx.rng.pick(gen::SERVER_INT)
        } else {
            *ctx.rng.pick(gen::SERVER_TEXT)
        };
        let v = match ctx.rng.below(4) {
            0 => vec![b'z'; ctx.rng.below(1500)],
            1 => soup(ctx, 2),
            _ => odd_number(ctx),
        };
        c.server_set.push((k, Some(v)));
    }
    // without one of them the other one is used
    if ctx.rng.chance(1, 2) {
        c.ktx = false;
        c.matchdate = false;
    }
    if c.ktx {
        let mut doc = crate::ktx::gen_doc(&mut ctx.rng, ctx.dict);
        let n = ctx.rng.range(2, 40);
        let from = 14.min(doc.json.len());
        let tail = odd_numbers(ctx, &doc.json[from..].to_vec(), 1, n);
        doc.json.truncate(from);
        doc.json.extend(tail);
        c.doc = Some(doc);
    }
    let mut m = gen::gen_match(&mut ctx.rng, ctx.dict, &c);
    let many = ctx.rng.range(1, 12);
    for f in m.demo.frames.iter_mut() {
        if f.is_hidden() {
            continue;
        }
        if let Body::Read(ms) = &mut f.body {
            for x in ms.iter_mut() {
                match x {
                    Msg::Print { text, .. } if ctx.rng.chance(1, 2) => *text = odd_numbers(ctx, text, 1, many),
                    Msg::UserInfo { info, .. } => *info = odd_numbers(ctx, info, 1, many),
                    _ => {}
                }
            }
        }
    }
    m.demo.encode()
}

/// Chains of hidden blocks whose headers do not fit to what is there.
pub fn block_chain(ctx: &mut Ctx) -> Vec<u8> {
    let mut d = vec![];
    if ctx.rng.chance(1, 3) {
        let mut c = small_cfg(&mut ctx.rng);
        c.ktx = false;
        d = gen::gen_match(&mut ctx.rng, ctx.dict, &c).demo.encode();
    }
    let mut doc = crate::ktx::gen_doc(&mut ctx.rng, ctx.dict).json;
    if ctx.rng.chance(1, 2) {
        doc.truncate(ctx.rng.below(200));
    }
    let mut rest = doc;
    if ctx.rng.chance(1, 8) {
        rest.splice(0..0, b"{\"version\": ".iter().copied());
    }
    for k in 0..ctx.rng.range(1, 8) {
        let n = match ctx.rng.below(5) {
            _ if k == 0 => rest.len().min(12 + ctx.rng.below(20)),
            0 | 1 => 0,
            2 => 1,
            3 => rest.len(),
            _ => ctx.rng.below(rest.len() + 1),
        }
        .min(rest.len());
        let body: Vec<u8> = rest.drain(..n).collect();
        let real = (body.len() + 2) as u32;
        let size = match ctx.rng.below(10) {
            0 => *ctx.rng.pick(INTERESTING),
            1 => real.wrapping_add(ctx.rng.below(9) as u32).wrapping_sub(4),
            2 => ctx.rng.below(9) as u32,
            _ => real,
        };
        let ty = if ctx.rng.chance(1, 10) { ctx.rng.below(12) as u16 } else { 3 };
        let number = match ctx.rng.below(8) {
            0 => 0,
            1 => u16::MAX,
            2 => ctx.rng.next() as u16,
            _ => k as u16 + 1,
        };
        let mut b = vec![];
        b.extend(size.to_le_bytes());
        b.extend(ty.to_le_bytes());
        b.extend(number.to_le_bytes());
        b.extend(body);
        let declared = match ctx.rng.below(10) {
            0 => *ctx.rng.pick(INTERESTING),
            1 => size.wrapping_add(ctx.rng.below(12) as u32),
            _ => b.len() as u32,
        };
        d.extend([0, if ctx.rng.chance(1, 12) { ctx.rng.byte() } else { 3 }]);
        d.extend(if ctx.rng.chance(1, 12) { ctx.rng.next() as u32 } else { 0 }.to_le_bytes());
        d.extend(declared.to_le_bytes());
        d.extend(b);
    }
    if ctx.rng.chance(1, 3) {
        let at = ctx.rng.below(d.len() + 1);
        if d.len() - at < 60 {
            d.truncate(at);
        }
    }
    if ctx.rng.chance(1, 2) {
        d.extend(soup(ctx, 2));
    }
    d
}

pub struct Hostile {
    pub data: Vec<u8>,
    pub class: &'static str,
}

pub fn hostile(ctx: &mut Ctx) -> Hostile {
    match ctx.rng.below(19) {
        16 | 17 => Hostile {
            data: odd_values(ctx),
            class: "class.odd_values",
        },
        18 => Hostile {
            data: block_chain(ctx),
            class: "class.block_chain",
        },
        0 => {
            let n = match ctx.rng.below(4) {
                0 => ctx.rng.below(40),
                1 => ctx.dict.int(&mut ctx.rng, 0, 5000) as usize,
                _ => ctx.rng.below(3000),
            };
            Hostile {
                data: ctx.rng.bytes(n),
                class: "class.random_bytes",
            }
        }
        1..=3 => {
            let n = ctx.rng.range(1, 30);
            Hostile {
                data: soup(ctx, n),
                class: "class.token_soup",
            }
        }
        4 => {
            // a marker cut off by the end of the data
            let n = ctx.rng.below(4);
            let mut d = soup(ctx, n);
            let t = token(ctx);
            let k = ctx.rng.below(t.len() + 1);
            d.extend_from_slice(&t[..k]);
            Hostile {
                data: d,
                class: "class.marker_at_end",
            }
        }
        5 => {
            // a marker at the very start
            let mut d = token(ctx);
            let n = ctx.rng.below(6);
            d.extend(soup(ctx, n));
            Hostile {
                data: d,
                class: "class.marker_at_start",
            }
        }
        6 | 7 => {
            let c = small_cfg(&mut ctx.rng);
            let m = gen::gen_match(&mut ctx.rng, ctx.dict, &c);
            let mut d = m.demo.encode();
            // cut close to a marker
            let marks: Vec<usize> = TOKENS
                .iter()
                .filter(|t| t.len() > 4)
                .filter_map(|t| crate::text::rfind(&d, t).map(|o| o + ctx.rng.below(t.len() + 30)))
                .filter(|o| *o <= d.len())
                .collect();
            let at = if marks.is_empty() || ctx.rng.chance(1, 2) {
                ctx.rng.below(d.len() + 1)
            } else {
                *ctx.rng.pick(&marks)
            };
            d.truncate(at);
            Hostile {
                data: d,
                class: "class.truncated_demo",
            }
        }
        8..=13 => {
            let c = small_cfg(&mut ctx.rng);
            let m = gen::gen_match(&mut ctx.rng, ctx.dict, &c);
            let (mut d, offs) = m.demo.encode_with_offsets();
            mutate(ctx, &mut d, &offs);
            Hostile {
                data: d,
                class: "class.damaged_demo",
            }
        }
        _ => {
            let mut d = real_window(ctx, 40000);
            if ctx.rng.chance(3, 4) {
                let offs = frame_offsets(&d);
                mutate(ctx, &mut d, &offs);
            }
            Hostile {
                data: d,
                class: "class.recorded_match_window",
            }
        }
    }
}
