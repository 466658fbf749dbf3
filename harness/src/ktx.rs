//! ktxstats documents as KTX writes them, and the frames which carry them.

use crate::demo::*;
use crate::dict::Dict;
use crate::gen;
use crate::rng::Rng;

#[derive(Clone, Debug, Default)]
pub struct KPlayer {
    pub name: String,
    pub team: String,
    pub login: Option<String>,
    pub top: i32,
    pub bottom: i32,
    pub ping: i32,
    pub frags: i32,
    pub bot: Option<i32>,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub hostname: String,
    pub ip: String,
    pub port: u32,
    pub duration: Option<u32>,
    pub mode: String,
    pub players: Vec<KPlayer>,
    pub json: Vec<u8>,
}

pub fn jstr(r: &mut Rng, s: &str) -> String {
    let esc_some = r.chance(1, 4);
    let mut o = String::from("\"");
    for c in s.chars() {
        let must = matches!(c, '"' | '\\') || (c as u32) < 0x20;
        if must && (c as u32) >= 0x20 && r.chance(1, 2) {
            o.push('\\');
            o.push(c);
        } else if must || (esc_some && r.chance(1, 3)) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

pub fn gen_ustring(r: &mut Rng, d: &Dict) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "åäö ÅÄÖ 日本語 🎮".chars().skip(r.below(8)).take(r.range(1, 8)).collect(),
        2 => (0..r.range(1, 6))
            .map(|_| char::from_u32(r.below(0xd7ff) as u32).unwrap_or('x'))
            .collect(),
        3 => "QUAKE.SE KTX:28501 \"quoted\" \\ back".to_string(),
        4 => "{\"players\": [], }".to_string(),
        _ => crate::text::uni(&gen::gen_name(r, d)),
    }
}

pub fn gen_i32(r: &mut Rng, d: &Dict) -> i32 {
    match r.below(8) {
        0 => i32::MAX,
        1 => i32::MIN,
        2 => -(r.below(100) as i32),
        3 => d.int(r, 0, i32::MAX as u64) as i32,
        _ => r.below(100) as i32,
    }
}

pub fn gen_kplayer(r: &mut Rng, d: &Dict, extreme: bool) -> KPlayer {
    KPlayer {
        name: gen_ustring(r, d),
        team: match r.below(4) {
            0 => String::new(),
            1 => "red".into(),
            2 => "blue".into(),
            _ => gen_ustring(r, d),
        },
        login: match r.below(3) {
            0 => None,
            1 => Some(String::new()),
            _ => Some(gen_ustring(r, d)),
        },
        top: r.below(256) as i32,
        bottom: r.below(17) as i32,
        ping: match r.below(8) {
            0 => 10,
            1 => 0,
            2 if extreme => gen_i32(r, d),
            3 => -1,
            4 => d.int(r, 0, 70000) as i32,
            _ => r.range(5, 120) as i32,
        },
        frags: match r.below(6) {
            0 if extreme => gen_i32(r, d),
            1 => -(r.below(20) as i32),
            2 => d.int(r, 0, 100000) as i32,
            _ => r.below(80) as i32,
        },
        bot: r.chance(1, 5).then(|| r.below(20) as i32),
    }
}

pub fn gen_doc(r: &mut Rng, d: &Dict) -> Doc {
    let n = match r.below(10) {
        0 => 0,
        1 => d.int(r, 0, 40) as usize,
        _ => r.range(1, 9),
    };
    let players = (0..n).map(|_| gen_kplayer(r, d, false)).collect();
    let mut doc = Doc {
        hostname: gen_ustring(r, d),
        ip: r.pick(&["46.227.68.148", "", "::1", "qw.foppa.dk"]).to_string(),
        port: match r.below(4) {
            0 => 0,
            1 => u32::MAX,
            _ => 28501,
        },
        duration: match r.below(8) {
            0 => None,
            1 => Some(0),
            2 => Some(u32::MAX),
            3 => Some(d.int(r, 0, u32::MAX as u64) as u32),
            _ => Some(r.range(60, 1800) as u32),
        },
        mode: "duel".into(),
        players,
        json: vec![],
    };
    doc.json = render(r, &doc);
    doc
}

pub fn render(r: &mut Rng, doc: &Doc) -> Vec<u8> {
    let sep = *r.pick(&[",", ", ", ",\n"]);
    let mut o = String::from("{\"version\": 3");
    let put = |o: &mut String, k: &str, v: String| {
        o.push_str(sep);
        o.push_str(&format!("\"{k}\": {v}"));
    };
    put(&mut o, "date", "\"2024-06-16 17:22:17 +0000\"".into());
    put(&mut o, "map", "\"dm6\"".into());
    let s = jstr(r, &doc.hostname);
    put(&mut o, "hostname", s);
    let s = jstr(r, &doc.ip);
    put(&mut o, "ip", s);
    put(&mut o, "port", doc.port.to_string());
    let s = jstr(r, &doc.mode);
    put(&mut o, "mode", s);
    put(&mut o, "tl", "10".into());
    put(&mut o, "dm", "3".into());
    if let Some(v) = doc.duration {
        put(&mut o, "duration", v.to_string());
    }
    put(&mut o, "demo", "\"a.mvd\"".into());
    let mut ps = vec![];
    for p in &doc.players {
        let mut kv: Vec<(String, String)> = vec![
            ("top-color".into(), p.top.to_string()),
            ("bottom-color".into(), p.bottom.to_string()),
            ("ping".into(), p.ping.to_string()),
            ("name".into(), jstr(r, &p.name)),
            ("team".into(), jstr(r, &p.team)),
            (
                "stats".into(),
                format!(
                    "{{\"frags\": {}, \"deaths\": {}, \"tk\": 1, \"spawn-frags\": 2, \"kills\": {}, \"suicides\": 3}}",
                    p.frags,
                    r.below(90) as i32,
                    r.below(90) as i32
                ),
            ),
            ("xferRL".into(), "0".into()),
            ("spree".into(), "{\"max\": 6, \"quad\": 0}".into()),
        ];
        if let Some(l) = &p.login {
            kv.push(("login".into(), jstr(r, l)));
        }
        if let Some(b) = p.bot {
            kv.push(("bot".into(), format!("{{\"skill\": {b}, \"customised\": false}}")));
        }
        if r.chance(1, 4) {
            kv.push((
                "weapons".into(),
                "{\"rl\": {\"acc\": {\"attacks\": 178, \"hits\": 14}, \"deaths\": 18}}".into(),
            ));
        }
        if r.chance(1, 3) {
            r.shuffle(&mut kv);
        }
        ps.push(format!(
            "{{{}}}",
            kv.iter()
                .map(|(k, v)| format!("\"{k}\": {v}"))
                .collect::<Vec<_>>()
                .join(sep)
        ));
    }
    put(&mut o, "players", format!("[{}]", ps.join(sep)));
    o.push('}');
    if r.chance(1, 2) {
        o.push('\n');
    }
    o.into_bytes()
}

/// One block of hidden data.
pub fn block_frame(number: u16, body: &[u8]) -> Frame {
    let mut b = vec![];
    b.extend_from_slice(&((body.len() + 2) as u32).to_le_bytes());
    b.extend_from_slice(&3u16.to_le_bytes());
    b.extend_from_slice(&number.to_le_bytes());
    b.extend_from_slice(body);
    let mut f = Frame::read(vec![Msg::Raw(b)]).fixed();
    f.kind = 3;
    f
}

/// The document in a chain of blocks; the last one has number 0.
pub fn frames(r: &mut Rng, json: &[u8]) -> Vec<Frame> {
    const FIRST_MIN: usize = 12; // the opening of the document stays in one piece
    let mut cuts: Vec<usize> = vec![];
    if json.len() > FIRST_MIN + 1 {
        match r.below(8) {
            0 | 1 => {}
            2 => {
                // many small blocks
                let step = r.range(1, 9);
                let mut at = FIRST_MIN + r.below(3);
                while at < json.len() && cuts.len() < 600 {
                    cuts.push(at);
                    at += step;
                }
            }
            3 => cuts.push(FIRST_MIN),
            4 => cuts.push(json.len() - 1),
            5 => {
                let mut at = 0;
                loop {
                    at += *r.pick(&[255usize, 256, 257, 1024, 4096]);
                    if at >= json.len() {
                        break;
                    }
                    cuts.push(at);
                }
            }
            _ => {
                for _ in 0..r.range(1, 6) {
                    cuts.push(r.range(FIRST_MIN, json.len() - 1));
                }
                cuts.sort();
                cuts.dedup();
            }
        }
    }
    let mut out = vec![];
    let mut from = 0;
    let mut number = 1u16;
    for c in cuts {
        out.push(block_frame(number, &json[from..c]).glued());
        from = c;
        number += 1;
    }
    out.push(block_frame(0, &json[from..]));
    out
}
