//! Message texts as the game servers write them (ported from the fragfile of the QW group tools).
//! Written down independently of the parser: the monitors never read the parser's own tables.

pub const X_DEATH: &[&str] = &[
    " sleeps with the fishes",
    " sucks it down",
    " gulped a load of slime",
    " can't exist on slime alone",
    " burst into flames",
    " turned into hot slag",
    " visits the Volcano God",
    " cratered",
    " fell to his death",
    " fell to her death",
    " blew up",
    " was spiked",
    " was zapped",
    " ate a lavaball",
    " died",
    " tried to leave",
    " was squished",
];

pub const X_SUICIDE_BY_WEAPON: &[&str] = &[
    " tries to put the pin back in",
    " becomes bored with life",
    " discovers blast radius",
    " electrocutes himself",
    " electrocutes herself",
    " railcutes himself",
    " railcutes herself",
    " discharges into the slime",
    " discharges into the lava",
    " discharges into the water",
    " heats up the water",
];

pub const X_SUICIDE: &str = " suicides";

pub const X_TEAMKILL_UNKNOWN: &[&str] = &[
    " squished a teammate",
    " mows down a teammate",
    " checks his glasses",
    " checks her glasses",
    " gets a frag for the other team",
    " loses another friend",
];

pub const UNKNOWN_TEAMKILL_X: &[&str] = &[
    " was telefragged by his teammate",
    " was telefragged by her teammate",
    " was crushed by his teammate",
    " was crushed by her teammate",
    " was jumped by his teammate",
    " was jumped by her teammate",
];

/// (text before the second name, text after it)
pub const X_FRAG_Y: &[(&str, &str)] = &[(" stomps ", ""), (" squishes ", ""), (" rips ", " a new one")];

pub const Y_FRAG_X: &[(&str, &str)] = &[
    (" was ax-murdered by ", ""),
    (" softens ", "'s fall"),
    (" tried to catch ", ""),
    (" was crushed by ", ""),
    (" was jumped by ", ""),
    (" chewed on ", "'s boomstick"),
    (" was body pierced by ", ""),
    (" was nailed by ", ""),
    (" was railed by ", ""),
    (" was telefragged by ", ""),
    (" accepts ", "'s discharge"),
    (" drains ", "'s batteries"),
    (" was lead poisoned by ", ""),
    (" accepts ", "'s shaft"),
    (" ate 2 loads of ", "'s buckshot"),
    (" was perforated by ", ""),
    (" was punctured by ", ""),
    (" was ventilated by ", ""),
    (" ate 8 loads of ", "'s buckshot"),
    (" gets a natural disaster from ", ""),
    (" rides ", "'s rocket"),
    (" was gibbed by ", "'s rocket"),
    (" was straw-cuttered by ", ""),
    (" eats ", "'s pineapple"),
    (" was gibbed by ", "'s grenade"),
    (" was brutalized by ", "'s quad rocket"),
    (" was smeared by ", "'s quad rocket"),
    (" was hooked by ", ""),
];

pub const FLAG_CAPTURED: usize = 0;
pub const FLAG_PICKUP: usize = 1;
pub const FLAG_RETURN: usize = 2;
pub const FLAG_ASSIST: usize = 3;
pub const FLAG_DEFEND: usize = 4;
pub const FLAG_DEFEND_CARRIER: usize = 5;
pub const FLAG_DEFEND_CARRIER_AGGR: usize = 6;
pub const FLAG_FIELDS: [&str; 7] = [
    "captures",
    "pickups",
    "returns",
    "carrier_frags",
    "defends",
    "carrier_defends",
    "carrier_defends_vs_aggressive",
];

/// (text after the name; code points are the bytes of the message, counter)
pub const FLAG_TEXT: &[(&str, usize)] = &[
    (" ãáðôõòåä the ÒÅÄ flag!\n", FLAG_CAPTURED),
    (" ãáðôõòåä the ÂÌÕÅ flag!\n", FLAG_CAPTURED),
    (" defends the ÒÅÄ flag\n", FLAG_DEFEND),
    (" defends the ÂÌÕÅ flag\n", FLAG_DEFEND),
    (" defends ÒÅÄ's flag carrier\n", FLAG_DEFEND_CARRIER),
    (" defends ÂÌÕÅ's flag carrier\n", FLAG_DEFEND_CARRIER),
    (
        " defends ÒÅÄ's flag carrier against an aggressive enemy\n",
        FLAG_DEFEND_CARRIER_AGGR,
    ),
    (
        " defends ÂÌÕÅ's flag carrier against an aggressive enemy\n",
        FLAG_DEFEND_CARRIER_AGGR,
    ),
    (" çïô the ÒÅÄ flag!\n", FLAG_PICKUP),
    (" çïô the ÂÌÕÅ flag!\n", FLAG_PICKUP),
    (" òåôõòîåä the ÒÅÄ flag!\n", FLAG_RETURN),
    (" òåôõòîåä the ÂÌÕÅ flag!\n", FLAG_RETURN),
    (" gets an assist for returning his flag!\n", FLAG_ASSIST),
    (" gets an assist for fragging the flag carrier!\n", FLAG_ASSIST),
];

pub fn bytes(u: &str) -> Vec<u8> {
    u.chars().map(|c| c as u32 as u8).collect()
}

/// Pieces of text that decide what a message means; a name made of them is ambiguous.
pub fn fragments() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for s in X_DEATH
        .iter()
        .chain(X_SUICIDE_BY_WEAPON)
        .chain(X_TEAMKILL_UNKNOWN)
        .chain(UNKNOWN_TEAMKILL_X)
        .chain([&X_SUICIDE])
    {
        v.push(s.as_bytes().to_vec());
    }
    for (a, b) in X_FRAG_Y.iter().chain(Y_FRAG_X) {
        v.push(a.as_bytes().to_vec());
        if !b.is_empty() {
            v.push(b.as_bytes().to_vec());
        }
    }
    for (t, _) in FLAG_TEXT {
        v.push(bytes(t.trim_end_matches('\n')));
    }
    v.sort();
    v.dedup();
    v
}

/// Texts with a meaning for some reader of the whole buffer.
pub const NEEDLES: &[&[u8]] = &[
    b"fullserverinfo",
    b"cmd spawn",
    b"\\name\\",
    b"matchdate: ",
    b"{\"version\": ",
    b"\"bot\": {",
    b"The match is over",
    b"4status\0Standby\0",
    b"EndOfDemo",
    b"Server is paused",
    b"paused the game",
    &[0xCD, 0xE1, 0xF4, 0xE3, 0xE8, 0x20, 0xF3, 0xF4, 0xEF, 0xF0],
];

/// Is every piece of message text in `msg` part of the intended `spans`?
pub fn unambiguous(msg: &[u8], spans: &[(usize, usize)], frags: &[Vec<u8>]) -> bool {
    for f in frags {
        if msg.len() < f.len() {
            continue;
        }
        for i in 0..=msg.len() - f.len() {
            if msg[i] == f[0]
                && &msg[i..i + f.len()] == f.as_slice()
                && !spans.iter().any(|(a, b)| *a <= i && i + f.len() <= *b)
            {
                return false;
            }
        }
    }
    true
}

/// Abbreviation -> offset from UTC in minutes.
pub const TZ: &[(&str, i32)] = &[
    ("ACDT", 630),
    ("ACST", 570),
    ("ACT", 570),
    ("ACWST", 525),
    ("ADT", -180),
    ("AEDT", 660),
    ("AEST", 600),
    ("AFT", 270),
    ("AKDT", -480),
    ("AKST", -540),
    ("ALMT", 360),
    ("AMST", -180),
    ("AMT", 240),
    ("ANAT", 720),
    ("AQTT", 300),
    ("ART", -180),
    ("AST", 180),
    ("AWST", 480),
    ("AZOST", 0),
    ("AZOT", -60),
    ("AZT", 240),
    ("BIOT", 360),
    ("BIT", -720),
    ("BNT", 480),
    ("BOT", -240),
    ("BRST", -120),
    ("BRT", -180),
    ("BST", 60),
    ("BTT", 360),
    ("CAT", 120),
    ("CCT", 390),
    ("CDT", -300),
    ("CEST", 120),
    ("CET", 60),
    ("CHADT", 825),
    ("CHAST", 765),
    ("CHOST", 540),
    ("CHOT", 480),
    ("CHST", 600),
    ("CHUT", 600),
    ("CIST", -480),
    ("CKT", -600),
    ("CLST", -180),
    ("CLT", -240),
    ("COST", -240),
    ("COT", -300),
    ("CST", -360),
    ("CVT", -60),
    ("CWST", 525),
    ("CXT", 420),
    ("DAVT", 420),
    ("DDUT", 600),
    ("DFT", 60),
    ("EASST", -300),
    ("EAST", -360),
    ("EAT", 180),
    ("ECT", -300),
    ("EDT", -240),
    ("EEST", 180),
    ("EET", 120),
    ("EGST", 0),
    ("EGT", -60),
    ("EST", -300),
    ("FET", 180),
    ("FJT", 720),
    ("FKST", -180),
    ("FKT", -240),
    ("FNT", -120),
    ("GALT", -360),
    ("GAMT", -540),
    ("GET", 240),
    ("GFT", -180),
    ("GILT", 720),
    ("GIT", -540),
    ("GMT", 0),
    ("GST", -120),
    ("GYT", -240),
    ("HAEC", 120),
    ("HDT", -540),
    ("HKT", 480),
    ("HMT", 300),
    ("HOVST", 480),
    ("HOVT", 420),
    ("HST", -600),
    ("ICT", 420),
    ("IDLW", -720),
    ("IDT", 180),
    ("IOT", 360),
    ("IRDT", 270),
    ("IRKT", 480),
    ("IRST", 210),
    ("IST", 60),
    ("JST", 540),
    ("KALT", 120),
    ("KGT", 360),
    ("KOST", 660),
    ("KRAT", 420),
    ("KST", 540),
    ("LHST", 630),
    ("LINT", 840),
    ("MAGT", 720),
    ("MART", -570),
    ("MAWT", 300),
    ("MDT", -360),
    ("MEST", 120),
    ("MET", 60),
    ("MHT", 720),
    ("MIST", 660),
    ("MIT", -570),
    ("MMT", 390),
    ("MSK", 180),
    ("MST", -420),
    ("MUT", 240),
    ("MVT", 300),
    ("MYT", 480),
    ("NCT", 660),
    ("NDT", -150),
    ("NFT", 660),
    ("NOVT", 420),
    ("NPT", 345),
    ("NST", -210),
    ("NT", -210),
    ("NUT", -660),
    ("NZDT", 780),
    ("NZST", 720),
    ("OMST", 360),
    ("ORAT", 300),
    ("PDT", -420),
    ("PET", -300),
    ("PETT", 720),
    ("PGT", 600),
    ("PHOT", 780),
    ("PHST", 480),
    ("PHT", 480),
    ("PKT", 300),
    ("PMDT", -120),
    ("PMST", -180),
    ("PONT", 660),
    ("PST", -480),
    ("PWT", 540),
    ("PYST", -180),
    ("PYT", -240),
    ("RET", 240),
    ("ROTT", -180),
    ("SAKT", 660),
    ("SAMT", 240),
    ("SAST", 120),
    ("SBT", 660),
    ("SCT", 240),
    ("SDT", -600),
    ("SGT", 480),
    ("SLST", 330),
    ("SRET", 660),
    ("SRT", -180),
    ("SST", 480),
    ("SYOT", 180),
    ("TAHT", -600),
    ("TFT", 300),
    ("THA", 420),
    ("TJT", 300),
    ("TKT", 780),
    ("TLT", 540),
    ("TMT", 300),
    ("TOT", 780),
    ("TRT", 180),
    ("TST", 480),
    ("TVT", 720),
    ("ULAST", 540),
    ("ULAT", 480),
    ("UTC", 0),
    ("UYST", -120),
    ("UYT", -180),
    ("UZT", 300),
    ("VET", -240),
    ("VLAT", 600),
    ("VOLT", 180),
    ("VOST", 360),
    ("VUT", 660),
    ("WAKT", 720),
    ("WAST", 120),
    ("WAT", 60),
    ("WEST", 60),
    ("WET", 0),
    ("WGST", -120),
    ("WGT", -180),
    ("WIB", 420),
    ("WIT", 540),
    ("WITA", 480),
    ("WST", 480),
    ("YAKT", 540),
    ("YEKT", 300),
];

/// Does a reader find an obituary or a flag message in this text?
pub fn has_meaning(t: &[u8]) -> bool {
    use crate::text::find;
    for s in X_DEATH.iter().chain(X_SUICIDE_BY_WEAPON).chain(X_TEAMKILL_UNKNOWN).chain(UNKNOWN_TEAMKILL_X) {
        if find(t, s.as_bytes()).is_some() {
            return true;
        }
    }
    let line = match t.iter().rposition(|c| *c != b'\n') {
        Some(i) => &t[..=i],
        None => return false,
    };
    if line.ends_with(X_SUICIDE.as_bytes()) {
        return true;
    }
    for (a, b) in X_FRAG_Y.iter().chain(Y_FRAG_X) {
        if let Some(i) = find(t, a.as_bytes()) {
            if b.is_empty() || find(&t[i + a.len()..], b.as_bytes()).is_some() {
                return true;
            }
        }
    }
    FLAG_TEXT.iter().any(|(x, _)| find(t, &bytes(x)).is_some())
}
