//! Independent statement of the Quake text conversions used by the library.

/// Quake byte string -> unicode string (byte value = code point).
pub fn uni(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}

/// Quake byte -> readable character.
pub fn readable_char(b: u8) -> char {
    match b & 0x7f {
        16 => '[',
        17 => ']',
        c @ 18..=27 => (b'0' + (c - 18)) as char,
        c @ 32..=126 => c as char,
        0 | 5 | 14 | 15 | 28 => '\u{2022}',
        _ => ' ',
    }
}

pub fn readable(b: &[u8]) -> String {
    b.iter().map(|c| readable_char(*c)).collect()
}

/// Key by which names are listed: readable text, case insensitive.
pub fn sort_key(u: &str) -> String {
    let b: Vec<u8> = u.chars().map(|c| c as u32 as u8).collect();
    readable(&b).to_lowercase()
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        match *c {
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*c as char),
            c => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|i| h[*i] == n[0] && &h[*i..*i + n.len()] == n)
}

pub fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len())
        .rev()
        .find(|i| h[*i] == n[0] && &h[*i..*i + n.len()] == n)
}

pub fn count(h: &[u8], n: &[u8]) -> usize {
    let mut c = 0;
    let mut i = 0;
    while i + n.len() <= h.len() {
        if h[i] == n[0] && &h[i..i + n.len()] == n {
            c += 1;
            i += n.len();
        } else {
            i += 1;
        }
    }
    c
}
