//! Structured demos: frames made of messages, the encoder, and reference readers which work on the
//! structure (never on the encoded bytes).

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    Print { id: u8, text: Vec<u8> },
    Frags { slot: u8, frags: u16 },
    PingPl { slot: u8, ping: u16, pl: u8 },
    UserInfo { slot: u8, uid: u32, info: Vec<u8> },
    Raw(Vec<u8>),
}

impl Msg {
    pub fn encode(&self, o: &mut Vec<u8>) {
        match self {
            Msg::Print { id, text } => {
                o.push(8);
                o.push(*id);
                o.extend_from_slice(text);
                o.push(0);
            }
            Msg::Frags { slot, frags } => {
                o.push(14);
                o.push(*slot);
                o.extend_from_slice(&frags.to_le_bytes());
            }
            Msg::PingPl { slot, ping, pl } => {
                o.push(36);
                o.push(*slot);
                o.extend_from_slice(&ping.to_le_bytes());
                o.push(53);
                o.push(*slot);
                o.push(*pl);
            }
            Msg::UserInfo { slot, uid, info } => {
                o.push(40);
                o.push(*slot);
                o.extend_from_slice(&uid.to_le_bytes());
                o.extend_from_slice(info);
                o.push(0);
            }
            Msg::Raw(b) => o.extend_from_slice(b),
        }
    }

    pub fn print(id: u8, text: &[u8]) -> Msg {
        Msg::Print {
            id,
            text: text.to_vec(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    /// size prefixed sequence of messages
    Read(Vec<Msg>),
    /// sequence numbers, 8 bytes
    Set([u8; 8]),
    /// no body at all
    None,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub ms: u8,
    /// low 3 bits of the type byte
    pub kind: u8,
    /// high 5 bits of the type byte
    pub hi: u8,
    /// target mask (kind 3 only)
    pub mask: u32,
    pub body: Body,
    /// no frame may be inserted after this one (it is followed by related frames)
    pub glued: bool,
    /// the header must stay as it is
    pub fixed: bool,
}

impl Frame {
    pub fn read(msgs: Vec<Msg>) -> Frame {
        Frame {
            ms: 0,
            kind: 6,
            hi: 0,
            mask: 0,
            body: Body::Read(msgs),
            glued: false,
            fixed: false,
        }
    }
    pub fn ms(mut self, ms: u8) -> Frame {
        self.ms = ms;
        self
    }
    pub fn glued(mut self) -> Frame {
        self.glued = true;
        self
    }
    pub fn fixed(mut self) -> Frame {
        self.fixed = true;
        self
    }
    pub fn encode(&self, o: &mut Vec<u8>) {
        o.push(self.ms);
        o.push((self.hi << 3) | self.kind);
        if self.kind == 3 {
            o.extend_from_slice(&self.mask.to_le_bytes());
        }
        match &self.body {
            Body::Read(ms) => {
                let at = o.len();
                o.extend_from_slice(&[0; 4]);
                for m in ms {
                    m.encode(o);
                }
                let n = (o.len() - at - 4) as u32;
                o[at..at + 4].copy_from_slice(&n.to_le_bytes());
            }
            Body::Set(b) => o.extend_from_slice(b),
            Body::None => {}
        }
    }
    /// Addressed to no one: carries blocks for parsers, not messages for clients.
    pub fn is_hidden(&self) -> bool {
        self.kind == 3 && self.mask == 0
    }
    /// The messages of the frame.
    pub fn msgs(&self) -> &[Msg] {
        if self.is_hidden() {
            return &[];
        }
        self.content()
    }
    /// What the body is made of, hidden or not.
    pub fn content(&self) -> &[Msg] {
        match &self.body {
            Body::Read(m) => m,
            _ => &[],
        }
    }
    /// Does the frame have messages?
    pub fn has_messages(&self) -> bool {
        self.msgs().iter().any(|m| match m {
            Msg::Raw(b) => !b.is_empty(),
            _ => true,
        })
    }
}

#[derive(Clone, Debug, Default)]
pub struct Demo {
    pub frames: Vec<Frame>,
}

impl Demo {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        for f in &self.frames {
            f.encode(&mut o);
        }
        o
    }

    /// Encoded bytes, and the offset of each frame (plus the end).
    pub fn encode_with_offsets(&self) -> (Vec<u8>, Vec<usize>) {
        let mut o = vec![];
        let mut at = vec![];
        for f in &self.frames {
            at.push(o.len());
            f.encode(&mut o);
        }
        at.push(o.len());
        (o, at)
    }

    // ---- reference readers ------------------------------------------------------------------

    /// (level, content) of the print messages which lead the frame bodies, consecutive equals once.
    pub fn ref_prints(&self) -> Vec<(u8, Vec<u8>)> {
        let mut v: Vec<(u8, Vec<u8>)> = vec![];
        for f in &self.frames {
            for m in f.msgs() {
                match m {
                    Msg::Print { id, text } => {
                        if text.is_empty() {
                            continue;
                        }
                        let p = (*id, text.clone());
                        if v.last() != Some(&p) {
                            v.push(p);
                        }
                    }
                    Msg::Raw(b) if b.is_empty() => {}
                    _ => break,
                }
            }
        }
        v
    }

    /// Average ping per slot over the first eight frames which lead with ping messages.
    pub fn ref_pings(&self) -> Option<std::collections::BTreeMap<u8, u32>> {
        let mut sum: std::collections::BTreeMap<u8, (u64, u64)> = Default::default();
        let mut frames = 0;
        for f in &self.frames {
            let mut any = false;
            for m in f.msgs() {
                match m {
                    Msg::PingPl { slot, ping, .. } => {
                        let e = sum.entry(*slot).or_default();
                        e.0 += *ping as u64;
                        e.1 += 1;
                        any = true;
                    }
                    Msg::Raw(b) if b.is_empty() => {}
                    _ => break,
                }
            }
            if any {
                frames += 1;
                if frames == 8 {
                    break;
                }
            }
        }
        if sum.is_empty() {
            return None;
        }
        Some(
            sum.iter()
                .map(|(k, (s, n))| (*k, (s / n) as u32))
                .collect(),
        )
    }
}
