//! Small demos written by hand, for the demonstrations.
#![allow(dead_code)]

/// A frame for everybody, with messages.
pub fn frame(ms: u8, body: &[u8]) -> Vec<u8> {
    frame_to(ms, 6, body)
}

/// A frame with the given type byte (low three bits: addressing).
pub fn frame_to(ms: u8, target: u8, body: &[u8]) -> Vec<u8> {
    let mut f = vec![ms, target];
    if target & 7 == 3 {
        f.extend(1u32.to_le_bytes());
    }
    f.extend((body.len() as u32).to_le_bytes());
    f.extend(body);
    f
}

/// Sequence numbers.
pub fn set_frame(ms: u8) -> Vec<u8> {
    vec![ms, 2, 1, 0, 0, 0, 2, 0, 0, 0]
}

pub fn print(level: u8, text: &str) -> Vec<u8> {
    let mut m = vec![8, level];
    m.extend(latin(text));
    m.push(0);
    m
}

/// Quake characters: one byte each.
pub fn latin(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

pub fn server(info: &str) -> Vec<u8> {
    let mut m = vec![9];
    m.extend(latin(&format!("fullserverinfo \"{info}\"\n")));
    m.push(0);
    frame(0, &m)
}

/// The client list: (slot, info string).
pub fn clients(list: &[(u8, &str)]) -> Vec<u8> {
    let mut out = vec![];
    let mut body = vec![];
    for (slot, info) in list {
        body.push(40);
        body.push(*slot);
        body.extend(1u32.to_le_bytes());
        body.extend(latin(info));
        body.push(0);
    }
    let mut m = vec![9];
    m.extend(b"cmd spawn 1 0\n\0");
    m.extend(body);
    out.extend(frame(0, &m));
    out
}

pub fn ping(slot: u8, ping: u16) -> Vec<u8> {
    let mut m = vec![36, slot];
    m.extend(ping.to_le_bytes());
    m.extend([53, slot, 0]);
    m
}

pub fn update_frags(slot: u8, frags: i16) -> Vec<u8> {
    let mut m = vec![14, slot];
    m.extend(frags.to_le_bytes());
    m
}

/// A hidden block of a statistics document.
pub fn block(number: u16, body: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    b.extend((body.len() as u32 + 2).to_le_bytes());
    b.extend(3u16.to_le_bytes());
    b.extend(number.to_le_bytes());
    b.extend(body);
    let mut f = vec![0, 3, 0, 0, 0, 0];
    f.extend((b.len() as u32).to_le_bytes());
    f.extend(b);
    f
}

pub fn end() -> Vec<u8> {
    // the last bytes of every complete recording
    frame(0, b"\x02EndOfDemo\0")
}

pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}

pub fn doc(players: &str, rest: &str) -> String {
    format!("{{\"version\": 3, \"date\": \"2024-04-26 17:15:59 +0200\", \"map\": \"dm4\", \"hostname\": \"host\", \"ip\": \"10.0.0.1\", \"port\": 28501, \"mode\": \"duel\", \"tl\": 10, \"dmm\": 3, \"demo\": \"x.mvd\", \"teams\": [], {rest}\"players\": [{players}]}}")
}

/// A player of a statistics document.
pub fn doc_player(name: &str, team: &str, frags: i32, ping: i32, colors: (i32, i32), extra: &str) -> String {
    format!("{{\"top-color\": {}, \"bottom-color\": {}, \"ping\": {ping}, \"login\": \"\", \"name\": \"{name}\", \"team\": \"{team}\", {extra}\"stats\": {{\"frags\": {frags}, \"deaths\": 1, \"tk\": 0, \"spawn-frags\": 0, \"kills\": 1, \"suicides\": 0}}, \"dmg\": {{\"taken\": 1, \"given\": 1, \"team\": 0, \"self\": 0, \"team-weapons\": 0, \"enemy-weapons\": 0, \"taken-to-die\": 1}}, \"xferRL\": 0, \"xferLG\": 0, \"spree\": {{\"max\": 1, \"quad\": 0}}, \"control\": 1.0, \"speed\": {{\"max\": 1.0, \"avg\": 1.0}}, \"weapons\": {{}}, \"items\": {{}}}}", colors.0, colors.1)
}
