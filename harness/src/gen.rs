//! Workload generators. A generated match is a structured demo along with the ground truth of what
//! happened in it; nothing here reads encoded bytes.

use std::collections::BTreeMap;

use crate::demo::*;
use crate::dict::Dict;
use crate::rng::Rng;
use crate::tables::*;
use crate::text;

// ---- texts ----------------------------------------------------------------------------------

pub fn has_needle(b: &[u8]) -> bool {
    NEEDLES.iter().any(|n| text::find(b, n).is_some())
}

fn name_ok(b: &[u8]) -> bool {
    !b.is_empty()
        && !b.iter().any(|c| matches!(*c, 0 | b'\\' | b'"' | b'\n'))
        && !has_needle(b)
        && unambiguous(b, &[], fragments_cached())
        && text::find(b, b"teammate").is_none()
}

pub fn fragments_cached() -> &'static Vec<Vec<u8>> {
    static F: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    F.get_or_init(fragments)
}

const WORDS: &[&str] = &[
    "HoLy", "dag", "eQu", "Milton", "mushi", "bps", "xantoM", "andeh", "z0mbie90", "[ServeMe]",
    "Kalle Dangerous", "nig", "/ bro", ": Timber", "> MrJustice", "lord_ee", "a", "n", "N", "n n",
    "'s", "x's", "by", " by ", "flag", "name", "team", "-s-", "=SF=", "(1)player", "player", "bot",
    "#1", "%s", "{}", "$name", "1", "0", "-1", "red", "blue", "spectator", "himself", "ÒÅÄ", "nobody",
    "Zz", "zZ", "ZZ", "zz", "A", "B",
];

pub fn gen_name(r: &mut Rng, d: &Dict) -> Vec<u8> {
    loop {
        let mut b: Vec<u8> = match r.below(20) {
            0..=6 => {
                const CS: &[u8] =
                    b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-+*!?()[]{}'#$%&/:;<>=@^`|~, ";
                let n = r.range(1, 15);
                (0..n).map(|_| *r.pick(CS)).collect()
            }
            7..=9 => {
                // colored text
                let n = r.range(1, 15);
                (0..n)
                    .map(|_| {
                        let c = r.range(0x21, 0x7e) as u8;
                        if r.chance(1, 2) {
                            c | 0x80
                        } else {
                            c
                        }
                    })
                    .collect()
            }
            10..=11 => {
                // quake digits, brackets, dots
                let n = r.range(1, 12);
                (0..n)
                    .map(|_| {
                        let c = *r.pick(&[16u8, 17, 18, 19, 27, 28, 29, 30, 31, 5, 14, 15, b'x', b'Y']);
                        if r.chance(1, 3) {
                            c | 0x80
                        } else {
                            c
                        }
                    })
                    .collect()
            }
            12..=13 => r.bytes(1).repeat(r.range(1, 4)),
            14 => {
                let n = r.range(1, 31);
                r.bytes(n)
            }
            15..=17 => text_bytes(r.pick(WORDS)),
            18 => d.str(r),
            _ => {
                let n = d.int(r, 1, 64) as usize;
                let n = n.min(64);
                (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect()
            }
        };
        if r.chance(1, 12) {
            b.insert(0, *r.pick(b" \xa0\x0d\x85x"));
        }
        if r.chance(1, 12) {
            b.push(*r.pick(b" \xa0\x0d\x85ns"));
        }
        b.truncate(80);
        for c in b.iter_mut() {
            if matches!(*c, 0 | b'\\' | b'"' | b'\n') {
                *c = b'_';
            }
        }
        if name_ok(&b) {
            return b;
        }
    }
}

fn text_bytes(s: &str) -> Vec<u8> {
    bytes(s)
}

pub fn gen_text(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.range(1, max.max(1));
    (0..n)
        .map(|_| match r.below(8) {
            0 => loop {
                let c = r.byte();
                if c != 0 {
                    break c;
                }
            },
            1 => b' ',
            _ => r.range(0x20, 0x7e) as u8,
        })
        .collect()
}

/// A value of an info string.
pub fn gen_value(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.range(1, max.max(1));
    (0..n)
        .map(|_| loop {
            let c = match r.below(6) {
                0 => r.byte(),
                _ => r.range(0x20, 0x7e) as u8,
            };
            if !matches!(c, 0 | b'\\' | b'"' | b'\n' | 0xa2 | 0xdc | 0x0d) {
                break c;
            }
        })
        .collect()
}

/// A value, now and then one the code under test knows.
pub fn gen_word(r: &mut Rng, d: &Dict, max: usize) -> Vec<u8> {
    if r.chance(1, 8) {
        let v = d.str(r);
        if !v.is_empty() && v.len() <= 32 && !v.iter().any(|c| matches!(*c, 0 | b'\\' | b'"' | b'\n' | 0x0d) || *c >= 0x80) && !has_needle(&v) {
            return v;
        }
    }
    gen_value(r, max)
}

// ---- clients --------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct ClientG {
    pub slot: u8,
    pub uid: u32,
    pub name: Vec<u8>,
    pub team: Option<Vec<u8>>,
    pub top: Option<u8>,
    pub bottom: Option<u8>,
    pub spec: Option<u8>,
    pub bot: Option<u8>,
    pub auth: Option<Vec<u8>>,
    pub flag: Option<Vec<u8>>,
    pub client: Option<Vec<u8>>,
    pub chat: Option<u8>,
    pub info: Vec<u8>,
}

impl ClientG {
    pub fn is_spec(&self) -> bool {
        self.spec.is_some_and(|v| v != 0)
    }
    pub fn is_bot(&self) -> bool {
        self.bot.is_some_and(|v| v != 0)
    }
    pub fn uname(&self) -> String {
        text::uni(&self.name)
    }
    pub fn uteam(&self) -> String {
        self.team.as_ref().map(|t| text::uni(t)).unwrap_or_default()
    }
    pub fn color(&self) -> [u8; 2] {
        [self.top.unwrap_or(0), self.bottom.unwrap_or(0)]
    }
    /// The client record expected from the parser.
    pub fn expected(&self) -> mvdparser::Client {
        mvdparser::Client {
            number: self.slot,
            name: self.uname(),
            team: self.uteam(),
            color: self.color(),
            is_spectator: self.is_spec(),
            is_bot: self.is_bot(),
            auth_username: self.auth.as_ref().map(|v| text::uni(v)),
            auth_cc: self.flag.as_ref().map(|v| text::uni(v)),
        }
    }
    pub fn expected_info(&self) -> quake_clientinfo::Clientinfo {
        quake_clientinfo::Clientinfo {
            name: Some(self.uname()),
            team: self.team.as_ref().map(|v| text::uni(v)),
            topcolor: self.top.map(|v| v as i32),
            bottomcolor: self.bottom.map(|v| v as i32),
            spectator: self.spec.map(|v| v as i32),
            auth: self.auth.as_ref().map(|v| text::uni(v)),
            flag: self.flag.as_ref().map(|v| text::uni(v)),
            client: self.client.as_ref().map(|v| text::uni(v)),
            bot: self.bot.map(|v| v as i32),
            chat: self.chat.map(|v| v as i32),
        }
    }

    fn build_info(&mut self, r: &mut Rng, name_first: bool) {
        let mut kv: Vec<(Vec<u8>, Vec<u8>)> = vec![(b"name".to_vec(), self.name.clone())];
        let mut put = |k: &str, v: Option<Vec<u8>>| {
            if let Some(v) = v {
                kv.push((k.as_bytes().to_vec(), v));
            }
        };
        let num = |v: Option<u8>| v.map(|v| v.to_string().into_bytes());
        put("team", self.team.clone());
        put("topcolor", num(self.top));
        put("bottomcolor", num(self.bottom));
        put("*spectator", num(self.spec));
        put("*bot", num(self.bot));
        put("*auth", self.auth.clone());
        put("*flag", self.flag.clone());
        put("*client", self.client.clone());
        put("chat", num(self.chat));
        if r.chance(1, 4) {
            put("gender", Some(b"m".to_vec()));
        }
        if r.chance(1, 4) {
            put("skin", Some(gen_value(r, 10)));
        }
        if r.chance(1, 6) {
            put("*qwfwd", Some(b"1.2".to_vec()));
        }
        r.shuffle(&mut kv);
        if name_first {
            let i = kv.iter().position(|(k, _)| k == b"name").unwrap_or(0);
            kv.swap(0, i);
        }
        let ser = |kv: &Vec<(Vec<u8>, Vec<u8>)>| {
            let mut o = vec![];
            for (k, v) in kv {
                o.push(b'\\');
                o.extend_from_slice(k);
                o.push(b'\\');
                o.extend_from_slice(v);
            }
            o
        };
        // now and then fill up to the maximum size of an info string
        let mut info = ser(&kv);
        if r.chance(1, 10) && info.len() + 8 < 256 {
            let total = match r.below(3) {
                0 => r.range(info.len(), 256),
                _ => *r.pick(&[256usize, 255, 254, 200, 100, 128]),
            };
            if total > info.len() + 4 {
                let n = total - info.len() - 4;
                let at = r.range(name_first as usize, kv.len());
                kv.insert(at, (b"zz".to_vec(), vec![b'z'; n]));
                info = ser(&kv);
            }
        }
        self.info = info;
    }
}

#[derive(Clone, Debug)]
pub struct WorldCfg {
    pub players: (usize, usize),
    pub specs: (usize, usize),
    /// clients occupy consecutive slots from 0 on
    pub dense: bool,
    pub teams: usize,
}

impl Default for WorldCfg {
    fn default() -> Self {
        WorldCfg {
            players: (1, 8),
            specs: (0, 4),
            dense: false,
            teams: 3,
        }
    }
}

pub fn gen_team(r: &mut Rng, d: &Dict) -> Vec<u8> {
    loop {
        let t = match r.below(6) {
            0 => b"red".to_vec(),
            1 => b"blue".to_vec(),
            2 => b"Red".to_vec(),
            3 => b"\xf2\xe5\xe4".to_vec(), // red, colored
            _ => {
                let mut n = gen_name(r, d);
                n.truncate(12);
                n
            }
        };
        if name_ok(&t) {
            return t;
        }
    }
}

/// Clients in slot order, unique names.
pub fn gen_clients(r: &mut Rng, d: &Dict, c: &WorldCfg) -> Vec<ClientG> {
    let np = r.range(c.players.0, c.players.1);
    let ns = r.range(c.specs.0, c.specs.1);
    let n = (np + ns).min(32);
    let mut slots: Vec<u8> = if c.dense {
        (0..n as u8).collect()
    } else {
        let hi = *r.pick(&[n, n, n + 2, n + 6, 24, 32, 32]);
        let hi = hi.clamp(n, 32);
        let mut all: Vec<u8> = (0..hi as u8).collect();
        r.shuffle(&mut all);
        let mut s = all[..n].to_vec();
        s.sort();
        // the parser looks 512 bytes ahead for the next client: at most 18 empty slots in a row
        let mut prev: i32 = -1;
        for v in s.iter_mut() {
            if *v as i32 - prev > 18 {
                *v = (prev + 18) as u8;
            }
            prev = *v as i32;
        }
        s
    };
    slots.dedup();
    let teams: Vec<Vec<u8>> = {
        let mut t: Vec<Vec<u8>> = vec![];
        while t.len() < c.teams.max(1) {
            let x = gen_team(r, d);
            if !t.contains(&x) || r.chance(1, 3) {
                t.push(x);
            }
        }
        t
    };
    let mut roles: Vec<bool> = (0..slots.len()).map(|i| i < np).collect();
    r.shuffle(&mut roles);
    let mut out: Vec<ClientG> = vec![];
    for (slot, player) in slots.into_iter().zip(roles) {
        let mut cl = loop {
            let name = gen_name(r, d);
            if out.iter().any(|c| c.name == name) {
                continue;
            }
            let team = if r.chance(9, 10) {
                Some(r.pick(&teams).clone())
            } else {
                None
            };
            let color = |r: &mut Rng| {
                if r.chance(1, 8) {
                    None
                } else if r.chance(1, 8) {
                    Some(r.byte())
                } else {
                    Some(r.below(17) as u8)
                }
            };
            let cl = ClientG {
                slot,
                uid: match r.below(8) {
                    0 => r.below(1 << 24) as u32,
                    1 => d.int(r, 0, 0xff_ffff) as u32,
                    2 => 0x5c5c5c, // uid bytes that look like delimiters
                    _ => r.below(600) as u32,
                },
                name,
                team,
                top: color(r),
                bottom: color(r),
                spec: if player {
                    if r.chance(1, 8) {
                        Some(0)
                    } else {
                        None
                    }
                } else {
                    Some(*r.pick(&[1u8, 1, 1, 2, 255]))
                },
                bot: match r.below(8) {
                    0 => Some(1),
                    1 => Some(*r.pick(&[1u8, 1, 1, 2, 10, 255])),
                    2 => Some(0),
                    _ => None,
                },
                auth: if r.chance(1, 5) {
                    Some(gen_word(r, d, 12))
                } else {
                    None
                },
                flag: if r.chance(1, 5) {
                    Some(gen_word(r, d, 4))
                } else {
                    None
                },
                client: if r.chance(2, 3) {
                    Some(b"ezQuake 1".to_vec())
                } else {
                    None
                },
                chat: if r.chance(1, 5) {
                    Some(r.below(4) as u8)
                } else {
                    None
                },
                info: vec![],
            };
            break cl;
        };
        // within reach of the parser's look ahead (512 bytes), whatever the order of the keys
        let prev = out.last().map(|c| c.slot as i32).unwrap_or(-1);
        let far = slot as i32 - prev > 9;
        loop {
            cl.build_info(r, far);
            if cl.info.len() <= 256 && text::count(&cl.info, b"\\name\\") >= 1 {
                break;
            }
            cl.auth = None;
            cl.flag = None;
            cl.client = None;
            cl.name.truncate(31);
            if !name_ok(&cl.name) || out.iter().any(|c| c.name == cl.name) {
                cl.name = format!("long{slot}").into_bytes();
            }
        }
        out.push(cl);
    }
    out
}

/// The messages by which the server describes all its slots.
pub fn client_list_msgs(r: &mut Rng, clients: &[ClientG], last_slot: u8) -> Vec<Vec<Msg>> {
    let mut per_slot = vec![];
    let (frags, rest) = *r.pick(&[(true, true), (true, true), (true, false), (false, false)]);
    for slot in 0..=last_slot {
        let c = clients.iter().find(|c| c.slot == slot);
        let mut v = vec![];
        if frags {
            v.push(Msg::Frags {
                slot,
                frags: r.below(50) as u16,
            });
        }
        if rest {
            v.push(Msg::PingPl {
                slot,
                ping: 999,
                pl: r.byte(),
            });
            let mut ent = vec![37, slot];
            ent.extend((0..4).map(|_| r.byte()));
            v.push(Msg::Raw(ent));
        }
        let (uid, info) = match c {
            Some(c) => (c.uid, c.info.clone()),
            None => (r.below(200) as u32, vec![]),
        };
        v.push(Msg::UserInfo { slot, uid, info });
        per_slot.push(v);
    }
    per_slot
}

// ---- serverinfo -----------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct ServerG {
    pub kv: Vec<(Vec<u8>, Vec<u8>)>,
}

impl ServerG {
    pub fn string(&self) -> Vec<u8> {
        let mut o = vec![];
        for (k, v) in &self.kv {
            o.push(b'\\');
            o.extend_from_slice(k);
            o.push(b'\\');
            o.extend_from_slice(v);
        }
        o
    }
    pub fn get(&self, k: &str) -> Option<String> {
        self.kv
            .iter()
            .find(|(a, _)| a == k.as_bytes())
            .map(|(_, v)| text::readable(v))
    }
    pub fn set(&mut self, k: &str, v: Option<Vec<u8>>) {
        self.kv.retain(|(a, _)| a != k.as_bytes());
        if let Some(v) = v {
            self.kv.insert(0, (k.as_bytes().to_vec(), v));
        }
    }
    pub fn int(&self, k: &str) -> Option<i32> {
        self.get(k)?.parse().ok()
    }
}

pub const SERVER_TEXT: &[&str] = &[
    "*admin", "*gamedir", "hostname", "ktxmode", "ktxver", "map", "matchtag", "mode", "*progs",
    "*qvm", "status", "serverdemo", "*version",
];
pub const SERVER_INT: &[&str] = &[
    "deathmatch", "epoch", "fpd", "fraglimit", "maxclients", "maxfps", "maxspectators", "needpass",
    "pm_ktjump", "sv_antilag", "teamplay", "timelimit", "*z_ext",
];

fn readable_value_ok(v: &[u8]) -> bool {
    let s = text::readable(v);
    !v.is_empty() && !s.contains(['"', '\\']) && !has_needle(v) && !has_needle(s.as_bytes())
}

pub fn gen_server(r: &mut Rng, d: &Dict) -> ServerG {
    let mut s = ServerG::default();
    for k in SERVER_TEXT {
        if r.chance(1, 2) {
            continue;
        }
        let v = loop {
            let v = match r.below(6) {
                0 => gen_name(r, d),
                1 => text_bytes(r.pick(&[
                    "1on1", "2on2", "4on4", "ffa", "ctf", "wipeout", "QUAKE.SE KTX:28501", "dm3", "n",
                    "duel_a_vs_b[dm2]20240426-1659.mvd", "Countdown", "3 min left", "kombat", "77",
                ])),
                _ => gen_word(r, d, 24),
            };
            if readable_value_ok(&v) && v != b"hoonymode" {
                break v;
            }
        };
        s.kv.push((k.as_bytes().to_vec(), v));
    }
    for k in SERVER_INT {
        if r.chance(1, 2) || *k == "epoch" {
            continue;
        }
        let v = match r.below(8) {
            0 => i32::MAX.to_string(),
            1 => r.irange(i32::MIN as i64, i32::MAX as i64).to_string(),
            2 => "abc".to_string(),
            3 => d.int(r, 0, i32::MAX as u64).to_string(),
            _ => r.below(100).to_string(),
        };
        s.kv.push((k.as_bytes().to_vec(), v.into_bytes()));
    }
    if r.chance(1, 4) {
        s.kv.push((b"unknown_key".to_vec(), b"value".to_vec()));
    }
    r.shuffle(&mut s.kv);
    if s.kv.is_empty() {
        s.kv.push((b"map".to_vec(), b"dm6".to_vec()));
    }
    s
}

pub fn server_frame(r: &mut Rng, s: &ServerG) -> Frame {
    let mut b = vec![0x0b];
    if r.chance(1, 2) {
        b.extend_from_slice(b"MVD1 \0\0\0");
    }
    b.extend_from_slice(&28u32.to_le_bytes());
    b.extend_from_slice(&[r.byte() & 0x7f, 0, 0, 0]);
    b.extend_from_slice(b"qw\0");
    b.extend((0..4).map(|_| r.byte() & 0x7f));
    let n = r.below(30);
    let title = gen_value(r, n + 1);
    if !has_needle(&title) {
        b.extend_from_slice(&title);
    }
    b.push(0);
    b.extend((0..40).map(|_| *r.pick(&[0u8, 0x80, 0x3f, 0x44])));
    b.push(9);
    b.extend_from_slice(b"fullserverinfo \"");
    b.extend_from_slice(&s.string());
    b.extend_from_slice(b"\"\n\0");
    Frame::read(vec![Msg::Raw(b)])
}

// ---- noise ----------------------------------------------------------------------------------

/// A message without meaning for any reader.
pub fn gen_noise_msg(r: &mut Rng, d: &Dict) -> Msg {
    loop {
        let first = *r.pick(&[
            1u8, 3, 6, 9, 10, 11, 12, 16, 19, 23, 26, 30, 32, 34, 35, 37, 38, 39, 41, 42, 43, 44, 45, 46,
            47, 48, 51, 52, 53, 54, 2, 60, 69, 83, 200, 255, 7, 13, 15, 4, 5, 0,
        ]);
        let n = if r.chance(1, 40) {
            d.int(r, 1, 9000) as usize
        } else {
            r.range(0, 24)
        };
        let mut b = vec![first];
        b.extend((0..n).map(|_| r.byte()));
        if !has_needle(&b) && text::find(&b, b"flag").is_none() {
            return Msg::Raw(b);
        }
    }
}

pub fn gen_empty_frame(r: &mut Rng) -> Frame {
    let mut f = Frame::read(vec![]);
    match r.below(4) {
        0 => {
            f.kind = 0;
            f.body = Body::None;
        }
        1 => {
            f.kind = 7;
            f.body = Body::None;
        }
        _ => random_target(r, &mut f),
    }
    f.hi = if r.chance(1, 3) { r.byte() & 31 } else { 0 };
    f
}

pub fn gen_set_frame(r: &mut Rng) -> Frame {
    let mut f = Frame::read(vec![]);
    f.kind = 2;
    let mut b = [0u8; 8];
    for x in b.iter_mut() {
        *x = r.byte();
    }
    if r.chance(1, 2) {
        b[0] = *r.pick(&[8u8, 14, 36, 40]);
    }
    f.body = Body::Set(b);
    f
}

/// A frame for no one: blocks of statistics, of user commands, of what was said to a team. What is
/// in there may well look like messages.
pub fn gen_hidden_frame(r: &mut Rng) -> Frame {
    loop {
        let mut o = vec![];
        match r.below(5) {
            0 => {
                for _ in 0..r.range(1, 3) {
                    let p: &[u8] = r.pick(&[
                        &b"ghost tries to leave\n"[..],
                        b"ghost died\n",
                        b"ghost sleeps with the fishes\n",
                        b"ghost got the Red flag!\n",
                        b"hidden",
                    ]);
                    Msg::Print { id: r.below(4) as u8, text: p.to_vec() }.encode(&mut o);
                }
            }
            1 => {
                for _ in 0..r.range(1, 4) {
                    Msg::PingPl { slot: r.below(32) as u8, ping: r.next() as u16, pl: r.byte() }.encode(&mut o);
                }
            }
            2 => Msg::Frags { slot: r.below(32) as u8, frags: r.next() as u16 }.encode(&mut o),
            _ => {
                for _ in 0..r.range(1, 4) {
                    // a block: its length, its type, its content
                    let n = match r.below(3) {
                        0 => *r.pick(&[8usize, 14, 36, 40]),
                        1 => *r.pick(&[8usize, 14, 36, 40]) + 256 * r.range(1, 2),
                        _ => r.range(0, 60),
                    };
                    o.extend_from_slice(&(n as u32).to_le_bytes());
                    o.extend_from_slice(&(r.range(0, 9) as u16).to_le_bytes());
                    let text = r.chance(1, 2);
                    o.extend((0..n).map(|_| if text { 32 + r.below(95) as u8 } else { r.byte() }));
                }
            }
        }
        if has_needle(&o) {
            continue;
        }
        let mut f = Frame::read(vec![Msg::Raw(o)]);
        f.kind = 3;
        f.mask = 0;
        if r.chance(1, 8) {
            f.hi = r.byte() & 31;
        }
        return f;
    }
}

pub fn gen_noise_frame(r: &mut Rng, d: &Dict) -> Frame {
    match r.below(8) {
        0 | 1 => gen_empty_frame(r),
        2 => gen_set_frame(r),
        3 | 4 => gen_hidden_frame(r),
        _ => {
            let mut f = Frame::read(vec![]);
            random_target(r, &mut f);
            let n = r.range(1, 3);
            // only the first message decides what the others are read as
            let m: Vec<Msg> = (0..n).map(|_| gen_noise_msg(r, d)).collect();
            f.body = Body::Read(m);
            f
        }
    }
}

pub fn random_target(r: &mut Rng, f: &mut Frame) {
    f.kind = *r.pick(&[6u8, 6, 6, 4, 5, 3, 1]);
    f.hi = match f.kind {
        4 | 5 => r.byte() & 31,
        _ if r.chance(1, 8) => r.byte() & 31,
        _ => 0,
    };
    if f.kind == 3 {
        // never 0: that is no address
        f.mask = match r.below(4) {
            0 => u32::MAX,
            1 => 1 << r.below(32),
            2 => 0x100 << r.below(20),
            _ => (r.next() as u32).max(1),
        };
    }
}

// ---- events ---------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Frag { killer: usize, victim: usize, pat: usize },
    Death { p: usize, pat: usize },
    Suicide { p: usize },
    SuicideByWeapon { p: usize, pat: usize },
    Teamkill { p: usize, pat: usize },
    TeamkillByUnknown { victim: usize, pat: usize },
}

/// Text of an obituary, or None if a reader could not tell what it means.
pub fn obit_text(ev: &Ev, names: &[Vec<u8>]) -> Option<Vec<u8>> {
    let mut m: Vec<u8> = vec![];
    let mut spans = vec![];
    let lit = |m: &mut Vec<u8>, spans: &mut Vec<(usize, usize)>, s: &str| {
        let a = m.len();
        m.extend_from_slice(s.as_bytes());
        spans.push((a, m.len()));
    };
    match ev {
        Ev::Frag {
            killer,
            victim,
            pat,
        } => {
            let (first, second, (a, b)) = if *pat < X_FRAG_Y.len() {
                (killer, victim, X_FRAG_Y[*pat])
            } else {
                (victim, killer, Y_FRAG_X[*pat - X_FRAG_Y.len()])
            };
            m.extend_from_slice(&names[*first]);
            lit(&mut m, &mut spans, a);
            m.extend_from_slice(&names[*second]);
            lit(&mut m, &mut spans, b);
        }
        Ev::Death { p, pat } => {
            m.extend_from_slice(&names[*p]);
            lit(&mut m, &mut spans, X_DEATH[*pat]);
        }
        Ev::Suicide { p } => {
            m.extend_from_slice(&names[*p]);
            lit(&mut m, &mut spans, X_SUICIDE);
        }
        Ev::SuicideByWeapon { p, pat } => {
            m.extend_from_slice(&names[*p]);
            lit(&mut m, &mut spans, X_SUICIDE_BY_WEAPON[*pat]);
        }
        Ev::Teamkill { p, pat } => {
            m.extend_from_slice(&names[*p]);
            lit(&mut m, &mut spans, X_TEAMKILL_UNKNOWN[*pat]);
        }
        Ev::TeamkillByUnknown { victim, pat } => {
            m.extend_from_slice(&names[*victim]);
            lit(&mut m, &mut spans, UNKNOWN_TEAMKILL_X[*pat]);
        }
    }
    unambiguous(&m, &spans, fragments_cached()).then_some(m)
}

/// A text which is nearly, but not quite, one that counts.
pub fn near_miss(r: &mut Rng, text: &[u8], keep: usize) -> Option<Vec<u8>> {
    let mut t = text.to_vec();
    if t.len() <= keep {
        return None;
    }
    let at = r.range(keep, t.len() - 1);
    match r.below(9) {
        0 => {
            t.remove(at);
        }
        1 => t[at] ^= 0x20,
        2 => t[at] ^= 0x80,
        3 => t.insert(at, *r.pick(b" .ase\xa0")),
        4 if at + 1 < t.len() => t.swap(at, at + 1),
        5 => t.truncate(at),
        6 => t.extend_from_slice(r.pick(&[&b" now"[..], b"!", b" (lag)", b"\n(ok)", b" "])),
        7 => {
            // another word
            for (a, b) in [(" his ", " its "), (" her ", " their "), ("himself", "itself"), ("herself", "themself"), (" was ", " is "), (" by ", " via "), ("'s ", "s' "), (" a ", " the "), ("flag!", "flag."), ("the ", "a ")] {
                if let Some(i) = text::find(&t[keep..], a.as_bytes()) {
                    t.splice(keep + i..keep + i + a.len(), b.bytes());
                    break;
                }
            }
        }
        _ => t[at] = 1 + r.byte() % 255,
    }
    (!t.is_empty() && !t.contains(&0) && !has_meaning(&t) && !has_needle(&t)).then_some(t)
}

pub fn gen_event(r: &mut Rng, n: usize, tk_unknown: bool) -> Ev {
    let p = r.below(n);
    match r.below(if tk_unknown { 14 } else { 11 }) {
        0..=5 => Ev::Frag {
            killer: p,
            victim: r.below(n),
            pat: r.below(X_FRAG_Y.len() + Y_FRAG_X.len()),
        },
        6 | 7 => Ev::Death {
            p,
            pat: r.below(X_DEATH.len()),
        },
        8 => Ev::Suicide { p },
        9 => Ev::SuicideByWeapon {
            p,
            pat: r.below(X_SUICIDE_BY_WEAPON.len()),
        },
        10 => Ev::Teamkill {
            p,
            pat: r.below(X_TEAMKILL_UNKNOWN.len()),
        },
        _ => Ev::TeamkillByUnknown {
            victim: p,
            pat: r.below(UNKNOWN_TEAMKILL_X.len()),
        },
    }
}

pub fn ev_kind(e: &Ev) -> &'static str {
    match e {
        Ev::Frag { .. } => "event.frag",
        Ev::Death { .. } => "event.death",
        Ev::Suicide { .. } => "event.suicide",
        Ev::SuicideByWeapon { .. } => "event.suicide_by_weapon",
        Ev::Teamkill { .. } => "event.teamkill",
        Ev::TeamkillByUnknown { .. } => "event.teamkill_by_unknown",
    }
}

// ---- a whole match --------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Cfg {
    pub world: WorldCfg,
    pub obits: (usize, usize),
    pub chats: (usize, usize),
    pub flags: (usize, usize),
    pub pings: (usize, usize),
    pub noise: (usize, usize),
    pub tk_unknown: bool,
    /// mostly unnamed team kills
    pub tk_bias: bool,
    pub server: bool,
    pub client_list: bool,
    pub matchdate: bool,
    pub match_over: bool,
    pub standby: bool,
    pub ktx: bool,
    pub end: bool,
    pub zero_ms: bool,
    /// obituary names beyond those of the clients
    pub strangers: usize,
    /// a name longer than any line
    pub long_names: bool,
    /// obituaries name spectators as well (they played before)
    pub spec_names: bool,
    /// one event over and over again, this many times
    pub burst: usize,
    /// texts that nearly are obituaries
    pub near: (usize, usize),
    /// one print of this many bytes
    pub long_print: usize,
    /// user infos which change during the match (anywhere far behind the client list)
    pub late_infos: usize,
    /// further client lists in the course of the demo
    pub late_lists: usize,
    /// values the server info must have (or must not have)
    pub server_set: Vec<(&'static str, Option<Vec<u8>>)>,
    /// the ktxstats document, if it is not a random one
    pub doc: Option<crate::ktx::Doc>,
    /// the text of the match date, if it is not a random one
    pub date_text: Option<String>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            world: WorldCfg::default(),
            obits: (0, 30),
            chats: (0, 10),
            flags: (0, 6),
            pings: (0, 12),
            noise: (0, 20),
            tk_unknown: true,
            tk_bias: false,
            server: true,
            client_list: true,
            matchdate: true,
            match_over: true,
            standby: true,
            ktx: false,
            end: true,
            zero_ms: false,
            strangers: 0,
            long_names: false,
            spec_names: false,
            burst: 0,
            near: (0, 0),
            long_print: 0,
            late_infos: 0,
            late_lists: 0,
            server_set: vec![],
            doc: None,
            date_text: None,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Match {
    pub demo: Demo,
    pub clients: Vec<ClientG>,
    pub server: ServerG,
    pub ktx: Option<crate::ktx::Doc>,
    /// obituary events with the index of their frame
    pub events: Vec<(usize, Ev)>,
    pub flag_events: Vec<(Vec<u8>, usize)>,
    pub names: Vec<Vec<u8>>,
    pub matchdate: Option<(String, String)>,
    pub clients_frame: usize,
    pub near_misses: usize,
    pub burst: Option<Ev>,
}

pub struct Truth {
    pub frags: BTreeMap<String, i64>,
    pub unattributed: u64,
    pub attributed: u64,
}

impl Match {
    /// Frag tallies of the obituaries, unnamed team kills attributed by the frag updates around
    /// them.
    pub fn ref_frags(&self) -> Truth {
        let mut t = Truth {
            frags: BTreeMap::new(),
            unattributed: 0,
            attributed: 0,
        };
        for (frame, ev) in &self.events {
            let name = |i: usize| text::uni(&self.names[i]);
            let mut add = |n: String, v: i64| *t.frags.entry(n).or_insert(0) += v;
            match ev {
                Ev::Frag { killer, .. } => add(name(*killer), 1),
                Ev::Death { p, .. } => add(name(*p), -1),
                Ev::Suicide { p } => add(name(*p), -2),
                Ev::SuicideByWeapon { p, .. } => add(name(*p), -1),
                Ev::Teamkill { p, .. } => add(name(*p), -1),
                Ev::TeamkillByUnknown { victim, .. } => {
                    match self.ref_team_killer(*frame, &self.names[*victim]) {
                        Some(k) => {
                            add(k, -1);
                            t.attributed += 1;
                        }
                        None => t.unattributed += 1,
                    }
                }
            }
        }
        t.frags.retain(|_, v| *v != 0);
        t
    }

    pub fn ref_team_killer(&self, frame: usize, victim: &[u8]) -> Option<String> {
        let mut slots = vec![];
        let fs = &self.demo.frames;
        if let Some(Msg::Frags { slot, .. }) = fs[frame].msgs().get(1) {
            slots.push(*slot);
        }
        for f in fs[frame + 1..].iter().filter(|f| f.has_messages()).take(2) {
            if let Some(Msg::Frags { slot, .. }) = f.msgs().first() {
                slots.push(*slot);
            }
        }
        let v = self.clients.iter().find(|c| c.name == victim)?;
        for s in slots {
            if let Some(c) = self.clients.iter().find(|c| c.slot == s) {
                if c.uteam() == v.uteam() && c.name != v.name {
                    return Some(c.uname());
                }
            }
        }
        None
    }

    pub fn ref_flags(&self) -> BTreeMap<String, [u64; 7]> {
        let mut m: BTreeMap<String, [u64; 7]> = BTreeMap::new();
        for (n, k) in &self.flag_events {
            m.entry(text::uni(n)).or_default()[*k] += 1;
        }
        m
    }

    pub fn players(&self) -> Vec<&ClientG> {
        self.clients.iter().filter(|c| !c.is_spec()).collect()
    }
}

pub fn gen_chat(r: &mut Rng, names: &[Vec<u8>], d: &Dict) -> Msg {
    let mut id = *r.pick(&[3u8, 3, 3, 0, 2, 2, 1]);
    if r.chance(1, 8) {
        id = *r.pick(&[4u8, 5, 129, 255]);
    }
    loop {
        let mut t = match r.below(10) {
            // what looks like an obituary is none unless it is a medium print
            0..=2 if id != 1 && !names.is_empty() => {
                let e = gen_event(r, names.len(), true);
                match obit_text(&e, names) {
                    Some(t) => t,
                    None => continue,
                }
            }
            3 => d.str(r),
            _ => gen_text(r, 60),
        };
        if r.chance(1, 2) {
            t.push(b'\n');
        }
        let t: Vec<u8> = t.into_iter().filter(|c| *c != 0).collect();
        if t.is_empty() || has_needle(&t) || text::find(&t, b"flag").is_some() {
            continue;
        }
        if id == 1 && !unambiguous(&t, &[], fragments_cached()) {
            continue;
        }
        return Msg::Print { id, text: t };
    }
}

fn gen_ms(r: &mut Rng, zero: bool) -> u8 {
    if zero {
        return 0;
    }
    match r.below(8) {
        0..=2 => 0,
        3 => 255,
        4 => 13,
        _ => r.byte(),
    }
}

/// Frames that announce one obituary, including what follows it in the demo.
fn obit_frames(r: &mut Rng, d: &Dict, ev: &Ev, text: Vec<u8>, clients: &[ClientG]) -> Vec<Frame> {
    let mut t = text;
    for _ in 0..*r.pick(&[1usize, 1, 1, 0, 2]) {
        t.push(b'\n');
    }
    let players: Vec<u8> = clients
        .iter()
        .filter(|c| !c.is_spec())
        .map(|c| c.slot)
        .collect();
    let frag_msg = |r: &mut Rng| {
        let slot = if players.is_empty() || r.chance(1, 8) {
            // a slot nobody plays in
            let free: Vec<u8> = (0..40).filter(|s| !clients.iter().any(|c| c.slot == *s)).collect();
            *r.pick(&free)
        } else {
            *r.pick(&players)
        };
        Msg::Frags {
            slot,
            frags: r.next() as u16,
        }
    };
    let mut first = vec![Msg::Print { id: 1, text: t }];
    match r.below(6) {
        0 | 1 => first.push(frag_msg(r)),
        2 => first.push(gen_noise_msg(r, d)),
        3 => {
            first.push(frag_msg(r));
            first.push(gen_noise_msg(r, d));
        }
        4 => first.push(gen_chat(r, &[], d)),
        _ => {}
    }
    let mut f = Frame::read(first);
    random_target(r, &mut f);
    let mut out = vec![f];
    if matches!(ev, Ev::TeamkillByUnknown { .. }) || r.chance(1, 6) {
        let n = r.below(4);
        for _ in 0..n {
            while r.chance(1, 3) {
                out.push(gen_empty_frame(r));
            }
            let mut f = Frame::read(vec![]);
            random_target(r, &mut f);
            let mut ms = vec![];
            match r.below(5) {
                0..=2 => {
                    ms.push(frag_msg(r));
                    if r.chance(1, 2) {
                        ms.push(frag_msg(r));
                    }
                }
                3 => {
                    ms.push(gen_noise_msg(r, d));
                    ms.push(frag_msg(r));
                }
                _ => ms.push(gen_chat(r, &[], d)),
            }
            f.body = Body::Read(ms);
            out.push(f);
        }
    }
    let last = out.len() - 1;
    for (i, f) in out.iter_mut().enumerate() {
        f.glued = i < last || matches!(ev, Ev::TeamkillByUnknown { .. });
    }
    out
}

/// A flag message; High prints, possibly split in parts.
pub fn flag_frame(r: &mut Rng, d: &Dict, name: &[u8], text: &str) -> Option<Frame> {
    let tail = bytes(text);
    let mut full = name.to_vec();
    full.extend_from_slice(&tail);
    let a = name.len();
    if !unambiguous(&full, &[(a, full.len())], fragments_cached()) {
        return None;
    }
    let mut msgs = vec![];
    let side = |r: &mut Rng, msgs: &mut Vec<Msg>| {
        // other prints in the same frame
        if r.chance(1, 4) {
            let mut t = gen_text(r, 20);
            t.push(b'\n');
            if unambiguous(&t, &[], fragments_cached()) && !has_needle(&t) {
                msgs.push(Msg::Print {
                    id: *r.pick(&[0u8, 2, 3]),
                    text: t,
                });
            }
        }
    };
    side(r, &mut msgs);
    if r.chance(1, 3) {
        // parts never split the word by which the message is found
        let at = text::rfind(&full, b"flag").unwrap();
        let mut cuts: Vec<usize> = (1..full.len())
            .filter(|c| *c <= at || *c >= at + 4)
            .collect();
        r.shuffle(&mut cuts);
        let k = r.range(1, 3).min(cuts.len());
        let mut cs = cuts[..k].to_vec();
        cs.sort();
        let mut from = 0;
        for c in cs {
            msgs.push(Msg::Print {
                id: 2,
                text: full[from..c].to_vec(),
            });
            from = c;
        }
        msgs.push(Msg::Print {
            id: 2,
            text: full[from..].to_vec(),
        });
    } else {
        msgs.push(Msg::Print { id: 2, text: full });
    }
    side(r, &mut msgs);
    let _ = d;
    let mut f = Frame::read(msgs);
    random_target(r, &mut f);
    Some(f)
}

pub fn ping_frame(r: &mut Rng, d: &Dict, clients: &[ClientG]) -> Frame {
    let mut msgs = vec![];
    let mut slots: Vec<u8> = clients.iter().map(|c| c.slot).collect();
    match r.below(6) {
        0 => {
            slots.truncate(r.below(slots.len() + 1));
        }
        1 => {
            let s = r.byte();
            slots.push(s);
        }
        2 => {
            if let Some(s) = slots.first().copied() {
                slots.push(s);
            }
        }
        _ => {}
    }
    if slots.is_empty() {
        slots.push(0);
    }
    for slot in slots {
        let ping = match r.below(8) {
            0 => 65535,
            1 => 0,
            2 => d.int(r, 0, 65535) as u16,
            3 => 10,
            4 => r.next() as u16,
            _ => r.range(5, 120) as u16,
        };
        msgs.push(Msg::PingPl {
            slot,
            ping,
            pl: r.byte(),
        });
    }
    if r.chance(1, 3) {
        msgs.push(gen_noise_msg(r, d));
        if r.chance(1, 2) {
            // not leading any more
            msgs.push(Msg::PingPl {
                slot: r.below(8) as u8,
                ping: 777,
                pl: 0,
            });
        }
    }
    let mut f = Frame::read(msgs);
    random_target(r, &mut f);
    f
}

pub fn gen_matchdate(r: &mut Rng) -> (String, i64) {
    // (text, utc seconds)
    let y = *r.pick(&[1996i64, 1999, 2000, 2004, 2016, 2020, 2023, 2024, 2025, 2026, 2038, 2100]);
    let m = r.range(1, 12) as i64;
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
    let day = match r.below(4) {
        0 => 1,
        1 => dim,
        _ => r.range(1, dim as usize) as i64,
    };
    let (h, mi, s) = match r.below(4) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        _ => (r.below(24) as i64, r.below(60) as i64, r.below(60) as i64),
    };
    let (tz, off) = match r.below(4) {
        0 | 1 => {
            let v: Vec<&(&str, i32)> = TZ
                .iter()
                .filter(|(a, _)| a.len() >= 2 && *a != "AST" && *a != "LHST")
                .collect();
            let t = r.pick(&v);
            (t.0.to_string(), t.1)
        }
        2 => {
            let hh = r.below(13);
            let sign = *r.pick(&[1i32, -1]);
            (
                format!("{}{hh:02}", if sign > 0 { '+' } else { '-' }),
                sign * hh as i32 * 60,
            )
        }
        _ => {
            let hh = r.below(12);
            let mm = *r.pick(&[0usize, 15, 30, 45, 59, 1]);
            let sign = *r.pick(&[1i32, -1]);
            (
                format!("{}{hh:02}{mm:02}", if sign > 0 { '+' } else { '-' }),
                sign * (hh as i32 * 60 + mm as i32),
            )
        }
    };
    let txt = format!("{y:04}-{m:02}-{day:02} {h:02}:{mi:02}:{s:02} {tz}");
    let secs = days_from_civil(y, m, day) * 86400 + h * 3600 + mi * 60 + s - off as i64 * 60;
    (txt, secs)
}

/// Days since 1970-01-01 (proleptic Gregorian calendar).
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn gen_match(r: &mut Rng, d: &Dict, c: &Cfg) -> Match {
    let mut m = Match::default();
    m.clients = gen_clients(r, d, &c.world);
    m.server = gen_server(r, d);
    for (k, v) in &c.server_set {
        m.server.set(k, v.clone());
    }
    if m.server.kv.is_empty() {
        m.server.set("map", Some(b"dm6".to_vec()));
    }
    let spec_names = c.spec_names;
    m.names = m.clients.iter().filter(|c| spec_names || !c.is_spec()).map(|c| c.name.clone()).collect();
    for _ in 0..c.strangers {
        let n = gen_name(r, d);
        if !m.names.contains(&n) {
            m.names.push(n);
        }
    }
    if c.long_names {
        let n = d.int(r, 40, 1200) as usize;
        let mut name = vec![];
        while name.len() < n {
            name.extend_from_slice(&gen_name(r, d));
        }
        if name_ok(&name) && !m.names.contains(&name) {
            m.names.push(name);
        }
    }
    if m.names.is_empty() {
        m.names.push(b"stranger".to_vec());
    }

    let mut fs: Vec<Frame> = vec![];
    if c.server {
        fs.push(server_frame(r, &m.server).fixed());
        for _ in 0..r.below(4) {
            fs.push(gen_noise_frame(r, d));
        }
    }
    if c.client_list {
        let tail = gen_value(r, 30);
        let mut spawn = vec![0x1d];
        if !has_needle(&tail) {
            spawn.extend_from_slice(&tail);
        }
        spawn.extend_from_slice(b"\x00\x09cmd spawn ");
        spawn.extend_from_slice(r.below(2000).to_string().as_bytes());
        spawn.extend_from_slice(b" 0\n\0");
        fs.push(Frame::read(vec![Msg::Raw(spawn)]).glued().fixed());
        m.clients_frame = fs.len();
        let last = m.clients.iter().map(|c| c.slot).max().unwrap_or(0);
        let last = (last as usize + r.below(4)).min(31) as u8;
        let per_slot = client_list_msgs(r, &m.clients, last);
        if r.chance(1, 3) && per_slot.len() > 1 {
            // the server starts a new frame when a message gets too long
            let at = r.range(1, per_slot.len() - 1);
            let a: Vec<Msg> = per_slot[..at].concat();
            let b: Vec<Msg> = per_slot[at..].concat();
            fs.push(Frame::read(a).glued().fixed());
            fs.push(Frame::read(b).fixed());
        } else {
            fs.push(Frame::read(per_slot.concat()).fixed());
        }
        // whatever follows must not look like another client within reach
        let filler = Frame::read(vec![Msg::Raw([vec![47], vec![0; r.range(0, 40)]].concat())]);
        fs.push(filler);
        if c.late_infos + c.late_lists > 0 {
            fs.push(Frame::read(vec![Msg::Raw([vec![47], vec![r.byte() & 0x7f; r.range(512, 700)]].concat())]));
        }
    }
    let head = fs.len();

    // the body of the match
    let mut body: Vec<Vec<Frame>> = vec![];
    let n_obits = r.range(c.obits.0, c.obits.1);
    let mut evs: Vec<(usize, Ev)> = vec![]; // (body index, event)
    let mut items: Vec<u8> = vec![];
    items.extend(vec![0u8; n_obits]);
    let n = r.range(c.chats.0, c.chats.1);
    items.extend(vec![1u8; n]);
    let n = r.range(c.flags.0, c.flags.1);
    items.extend(vec![2u8; n]);
    let n = r.range(c.pings.0, c.pings.1);
    items.extend(vec![3u8; n]);
    let n = r.range(c.noise.0, c.noise.1);
    items.extend(vec![4u8; n]);
    if c.near.1 > 0 {
        let n = r.range(c.near.0, c.near.1);
        items.extend(vec![5u8; n]);
    }
    items.extend(vec![6u8; c.late_infos]);
    items.extend(vec![7u8; c.late_lists]);
    r.shuffle(&mut items);
    // a few players are in the news more often than others
    let star = r.below(m.names.len());
    for it in items {
        match it {
            0 => {
                let mut ev = gen_event(r, m.names.len(), c.tk_unknown);
                if c.tk_bias && r.chance(2, 3) {
                    ev = Ev::TeamkillByUnknown {
                        victim: r.below(m.names.len()),
                        pat: r.below(UNKNOWN_TEAMKILL_X.len()),
                    };
                }
                if r.chance(1, 3) {
                    if let Ev::Frag { killer, .. } = &mut ev {
                        *killer = star;
                    }
                }
                if let Some(t) = obit_text(&ev, &m.names) {
                    let f = obit_frames(r, d, &ev, t, &m.clients);
                    evs.push((body.len(), ev));
                    body.push(f);
                }
            }
            1 => {
                let n = r.range(1, 3);
                let mut ms: Vec<Msg> = (0..n).map(|_| gen_chat(r, &m.names, d)).collect();
                if r.chance(1, 3) {
                    let x = ms[0].clone();
                    ms.push(x);
                }
                if r.chance(1, 6) {
                    ms.insert(r.below(ms.len() + 1), Msg::print(2, b""));
                }
                if r.chance(1, 4) {
                    ms.push(gen_noise_msg(r, d));
                    if r.chance(1, 2) {
                        ms.push(gen_chat(r, &m.names, d));
                    }
                }
                let mut f = Frame::read(ms);
                random_target(r, &mut f);
                let again = r.chance(1, 4);
                body.push(if again { vec![f.clone(), f] } else { vec![f] });
            }
            2 => {
                let (t, k) = FLAG_TEXT[r.below(FLAG_TEXT.len())];
                let i = r.below(m.names.len());
                let name = m.names[i].clone();
                if let Some(f) = flag_frame(r, d, &name, t) {
                    m.flag_events.push((name, k));
                    body.push(vec![f]);
                }
            }
            3 => body.push(vec![ping_frame(r, d, &m.clients)]),
            5 => {
                let ev = gen_event(r, m.names.len(), c.tk_unknown);
                let keep = r.below(3);
                if let Some(t) = obit_text(&ev, &m.names).and_then(|t| near_miss(r, &t, keep)) {
                    m.near_misses += 1;
                    body.push(obit_frames(r, d, &ev, t, &m.clients));
                }
            }
            6 => {
                let info = late_info(r, d, &m.clients);
                let mut f = Frame::read(vec![info]);
                random_target(r, &mut f);
                body.push(vec![f]);
            }
            7 => {
                let cmd = format!("\x09cmd spawn {} 0\n\0", r.below(2000));
                let mut ms = vec![Msg::Raw(cmd.into_bytes())];
                ms.extend((0..r.below(4)).map(|_| late_info(r, d, &m.clients)));
                body.push(vec![Frame::read(ms)]);
            }
            _ => body.push(vec![gen_noise_frame(r, d)]),
        }
    }
    if c.burst > 0 {
        for _ in 0..20 {
            let ev = gen_event(r, m.names.len(), false);
            let Some(t) = obit_text(&ev, &m.names) else { continue };
            for k in 0..c.burst {
                let mut msgs = vec![Msg::Print { id: 1, text: [&t[..], b"\n"].concat() }];
                if k % 7 == 0 {
                    msgs.push(Msg::Frags { slot: (k % 32) as u8, frags: k as u16 });
                }
                evs.push((body.len(), ev.clone()));
                body.push(vec![Frame::read(msgs).glued()]);
            }
            m.burst = Some(ev);
            break;
        }
    }
    if c.long_print > 0 {
        let t = vec![b'z'; c.long_print];
        body.push(vec![Frame::read(vec![Msg::Print { id: 3, text: t }])]);
    }

    // place the match date
    let date_at = r.below(body.len() + 1);
    let mut k = 0;
    for (bi, part) in body.into_iter().enumerate() {
        if c.matchdate && bi == date_at {
            fs.push(date_frame(r, &mut m, c));
        }
        for (j, f) in part.into_iter().enumerate() {
            if j == 0 && k < evs.len() && evs[k].0 == bi {
                m.events.push((fs.len(), evs[k].1.clone()));
                k += 1;
            }
            fs.push(f);
        }
    }
    if c.matchdate && m.matchdate.is_none() {
        fs.push(date_frame(r, &mut m, c));
    }
    // room for the last window
    for _ in 0..r.below(3) {
        fs.push(gen_noise_frame(r, d));
    }
    for f in fs[head..].iter_mut() {
        f.ms = gen_ms(r, c.zero_ms);
    }
    for f in fs[..head].iter_mut() {
        if r.chance(1, 4) {
            f.ms = gen_ms(r, c.zero_ms);
        }
    }
    if c.match_over {
        let mut f = Frame::read(vec![Msg::print(2, b"The match is over\n")]);
        f.ms = gen_ms(r, c.zero_ms);
        fs.push(f);
        for _ in 0..r.below(6) {
            let mut f = gen_noise_frame(r, d);
            f.ms = gen_ms(r, c.zero_ms);
            fs.push(f);
        }
    }
    if c.ktx {
        let doc = match &c.doc {
            Some(doc) => doc.clone(),
            None => crate::ktx::gen_doc(r, d),
        };
        fs.extend(crate::ktx::frames(r, &doc.json));
        m.ktx = Some(doc);
    }
    if c.standby {
        let mut f = Frame::read(vec![Msg::Raw(b"4status\0Standby\0".to_vec())]);
        f.ms = gen_ms(r, c.zero_ms);
        fs.push(f);
        for _ in 0..r.below(3) {
            let mut f = gen_noise_frame(r, d);
            f.ms = gen_ms(r, c.zero_ms);
            fs.push(f);
        }
    }
    if c.end {
        fs.push(Frame::read(vec![Msg::Raw(b"\x02EndOfDemo\0".to_vec())]).fixed());
    }
    m.demo = Demo { frames: fs };
    m
}

/// A client gets another name, or a new one comes, long after the list.
fn late_info(r: &mut Rng, d: &Dict, clients: &[ClientG]) -> Msg {
    let slot = match r.below(3) {
        0 if !clients.is_empty() => r.pick(clients).slot,
        _ => r.below(32) as u8,
    };
    let mut info = b"\\name\\".to_vec();
    info.extend(gen_name(r, d));
    info.extend_from_slice(b"\\team\\");
    info.extend(gen_team(r, d));
    if r.chance(1, 3) {
        info.extend_from_slice(b"\\*spectator\\1");
    }
    Msg::UserInfo { slot, uid: r.below(200) as u32, info }
}

fn date_frame(r: &mut Rng, m: &mut Match, c: &Cfg) -> Frame {
    let (mut t, secs) = gen_matchdate(r);
    if let Some(x) = &c.date_text {
        t = x.clone();
    }
    m.matchdate = Some((t.clone(), secs.to_string()));
    let mut f = Frame::read(vec![Msg::print(2, format!("matchdate: {t}\n").as_bytes())]);
    random_target(r, &mut f);
    f
}

/// Does the encoded demo have exactly the markers that were put in on purpose?
pub fn well_formed(c: &Cfg, data: &[u8]) -> bool {
    let one = |n: &[u8], want: bool| text::count(data, n) == want as usize;
    one(b"fullserverinfo \"", c.server)
        && text::count(data, b"\x09cmd spawn") == c.client_list as usize + c.late_lists
        && one(b"matchdate: ", c.matchdate)
        && one(b"The match is over", c.match_over)
        && one(b"4status\0Standby\0", c.standby)
        && text::count(data, b"{\"version\": ") == c.ktx as usize
        && one(b"EndOfDemo", c.end)
}

pub fn gen_valid_match(r: &mut Rng, d: &Dict, c: &Cfg) -> (Match, Vec<u8>) {
    for _ in 0..50 {
        let m = gen_match(r, d, c);
        let data = m.demo.encode();
        if well_formed(c, &data) {
            return (m, data);
        }
    }
    panic!("harness: no well formed match");
}
