//! C20 reassembly of the statistics document, C21 players and server taken from it.

use super::Check;
use crate::demo::*;
use crate::gen::{self, Cfg, WorldCfg};
use crate::ktx::{self, Doc};
use crate::sup::{CaseResult, Ctx};
use mvdparser::all as m;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C20",
            case: c20,
            quick: 450_000,
            thorough: 4_500_000,
            rule: "generated statistics documents in chains of blocks of any number and size, complete and truncated; observed document compared with the one put in; a demo counts when it has a chain and is distinct by content hash",
            assumptions: &["the opening of the document is in one block", "the blocks of a chain are consecutive frames addressed to multiple players, the last one has number 0"],
            must_observe: &["chain.one_block", "chain.several_blocks", "chain.more_than_255_blocks", "chain.splits_character", "chain.truncated", "chain.other_type_behind", "chain.two_documents", "chain.absent", "typed.compared"],
            cross_process: false,
        },
        Check {
            id: "C21",
            case: c21,
            quick: 350_000,
            thorough: 3_500_000,
            rule: "generated statistics documents; observed players and server compared with the document; a demo counts when it has a document with players and is distinct by content hash",
            assumptions: &["players of equal frags and name may come in any order"],
            must_observe: &["players.compared", "players.equal_frags", "players.bot", "players.negative_ping", "players.login", "fallback.no_document", "fallback.broken_document"],
            cross_process: false,
        },
    ]
}

fn cfg(ctx: &mut Ctx) -> Cfg {
    Cfg {
        world: WorldCfg {
            players: (0, 4),
            specs: (0, 2),
            ..WorldCfg::default()
        },
        obits: (0, 6),
        chats: (0, 4),
        flags: (0, 1),
        pings: (0, 4),
        noise: (0, 6),
        server: ctx.rng.chance(3, 4),
        client_list: ctx.rng.chance(7, 8),
        match_over: ctx.rng.chance(1, 2),
        standby: ctx.rng.chance(1, 2),
        matchdate: ctx.rng.chance(1, 2),
        ..Cfg::default()
    }
}

fn big_doc(ctx: &mut Ctx) -> Doc {
    let mut d = ktx::gen_doc(&mut ctx.rng, ctx.dict);
    // text which takes several bytes per character, so that blocks end inside of one
    if ctx.rng.chance(1, 2) {
        let n = if ctx.rng.chance(1, 200) {
            ctx.rng.range(1000, 40_000)
        } else {
            ctx.rng.range(1, 30)
        };
        d.hostname = "ÅÄÖ日本🎮 ".repeat(n);
        d.json = ktx::render(&mut ctx.rng, &d);
    }
    d
}

fn blocks(fs: &[Frame]) -> Vec<&[u8]> {
    fs.iter()
        .map(|f| match f.content() {
            [Msg::Raw(b)] => &b[8..],
            _ => panic!("harness: no block"),
        })
        .collect()
}

fn c20(ctx: &mut Ctx) -> CaseResult {
    let c = cfg(ctx);
    let (mt, base) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    if ctx.rng.chance(1, 16) {
        ctx.ev("chain.absent");
        for f in ["ktxstats_string", "ktxstats_v3", "server", "match_duration_from_ktxstats"] {
            let r = ctx.call(f, &base);
            ctx.expect(&base, &format!("{f} (no document)"), crate::api::norm(&r), "Err")?;
        }
        return Ok(());
    }
    let mut demo = mt.demo.clone();
    let put = |demo: &mut Demo, fs: Vec<Frame>, at: usize| {
        demo.frames.splice(at..at, fs);
    };
    let mut doc = big_doc(ctx);
    let mut typed = true;
    let closed = doc.json.trim_ascii_end().len();
    match ctx.rng.below(24) {
        0 | 1 => {
            // bytes behind the closing brace are part of what was sent
            let t: &[u8] = *ctx.rng.pick(&[&b"\0"[..], b" ", b"\n\n", b"\0\0\0", b"\r\n", b"}", b" \t", "\u{feff}".as_bytes()]);
            typed = t.trim_ascii().is_empty();
            doc.json.extend_from_slice(t);
            ctx.ev("document.bytes_behind");
        }
        2 | 3 => {
            // no text any more
            let i = ctx.rng.range(12, doc.json.len() - 1);
            doc.json[i] = *ctx.rng.pick(&[0xffu8, 0xc3, 0x80, 0xed, 0xf0, 0xc0]);
            if std::str::from_utf8(&doc.json).is_err() {
                ctx.ev("document.invalid_text");
                let chain = ktx::frames(&mut ctx.rng, &doc.json);
                let at = demo.frames.len();
                put(&mut demo, chain, at);
                let data = demo.encode();
                ctx.nontrivial(&data);
                for f in ["ktxstats_string", "ktxstats_v3", "server", "derived.players_from_ktxstats"] {
                    let r = ctx.call(f, &data);
                    ctx.expect(&data, &format!("{f} (byte {i} of the document is no text)"), crate::api::norm(&r), "Err")?;
                }
            }
            return Ok(());
        }
        _ => {}
    }
    let chain = ktx::frames(&mut ctx.rng, &doc.json);
    let n = chain.len();
    let split = blocks(&chain).iter().any(|b| std::str::from_utf8(b).is_err());
    // not inside of the client list
    let at = ctx.rng.range(mt.clients_frame.min(demo.frames.len() - 1) + 1, demo.frames.len());
    let at = if at == demo.frames.len() || !demo.frames[at - 1].fixed { at } else { demo.frames.len() };
    match ctx.rng.below(5) {
        0 => {
            // two documents: the later one counts
            let first = big_doc(ctx);
            let fs = ktx::frames(&mut ctx.rng, &first.json);
            put(&mut demo, chain, at);
            put(&mut demo, fs, at);
            ctx.ev("chain.two_documents");
        }
        1 => {
            // the end of the chain is missing
            let k = ctx.rng.below(n);
            let mut have: Vec<u8> = vec![];
            for b in &blocks(&chain)[..k] {
                have.extend_from_slice(b);
            }
            let mut fs = chain[..k].to_vec();
            let mut tail: Vec<Frame> = vec![];
            let whole = have.clone();
            let mut data;
            if ctx.rng.chance(1, 2) {
                // inside of a block, at the end of the data
                let at = demo.frames.len();
                demo.frames.truncate(at);
                data = demo.encode();
                for f in &fs {
                    f.encode(&mut data);
                }
                let mut b = vec![];
                chain[k].encode(&mut b);
                let cut = ctx.rng.below(b.len());
                data.extend_from_slice(&b[..cut]);
                have.extend_from_slice(&b[18.min(cut)..cut]);
            } else {
                // other frames follow
                if ctx.rng.chance(1, 2) {
                    // hidden data of another type
                    let t = *ctx.rng.pick(&[0u16, 1, 2, 4, 7, 8, 10, 0x103, 0x203, 0x300, 0x8003, 0xff03, 0xffff, 0xdead]);
                    let n = ctx.rng.below(80);
                    let mut b = ((n + 2) as u32).to_le_bytes().to_vec();
                    b.extend_from_slice(&t.to_le_bytes());
                    b.extend_from_slice(&(ctx.rng.below(3) as u16).to_le_bytes());
                    b.extend((0..n).map(|_| ctx.rng.range(0x20, 0x7e) as u8));
                    let mut f = Frame::read(vec![Msg::Raw(b)]).fixed();
                    f.kind = 3;
                    tail.push(f);
                    ctx.ev("chain.other_type_behind");
                }
                for _ in 0..ctx.rng.range(1, 4) {
                    let mut f = Frame::read(vec![Msg::print(3, b"hello there, how are you\n")]);
                    f.ms = ctx.rng.byte();
                    tail.push(f);
                }
                fs.extend(tail);
                put(&mut demo, fs, at);
                data = demo.encode();
            }
            if have.contains(&b'}') && have.len() >= closed {
                return Ok(());
            }
            ctx.ev("chain.truncated");
            ctx.nontrivial(&data);
            let what = format!("({} of {} bytes of the document, {k} of {n} blocks complete)", have.len(), doc.json.len());
            for f in ["ktxstats_v3", "server", "derived.players_from_ktxstats"] {
                let r = ctx.call(f, &data);
                ctx.expect(&data, &format!("{f} {what}"), crate::api::norm(&r), "Err")?;
            }
            if let Ok(s) = ctx.lib(&data, "ktxstats_string", || m::ktxstats_string(&data))? {
                ctx.expect(&data, &format!("ktxstats_string {what}: the whole blocks"), &s, &String::from_utf8_lossy(&whole))?;
            }
            ctx.sample(|| what);
            return Ok(());
        }
        _ => put(&mut demo, chain, at),
    }
    let data = demo.encode();
    ctx.nontrivial(&data);
    ctx.ev(if n == 1 { "chain.one_block" } else { "chain.several_blocks" });
    if n > 255 {
        ctx.ev("chain.more_than_255_blocks");
    }
    if split {
        ctx.ev("chain.splits_character");
    }
    ctx.st.max("blocks_in_one_chain", n as u64);
    ctx.st.max("document_bytes", doc.json.len() as u64);
    let want = String::from_utf8(doc.json.clone()).expect("utf-8");
    let got = ctx.lib(&data, "ktxstats_string", || m::ktxstats_string(&data))?;
    match got {
        Ok(s) => ctx.expect(&data, &format!("ktxstats_string ({n} blocks)"), &s, &want)?,
        Err(e) => return Err(ctx.viol(&data, format!("ktxstats_string ({n} blocks, {} bytes): error {e}", want.len()))),
    }
    if !typed {
        return Ok(());
    }
    let got = ctx.lib(&data, "ktxstats_v3", || m::ktxstats_v3(&data))?;
    match got {
        Ok(s) => {
            ctx.ev("typed.compared");
            let players = |v: Vec<(String, String, i32)>| format!("{v:?}");
            let a = format!(
                "{} {} {} {} {} {:?}",
                s.version,
                s.hostname,
                s.ip,
                s.port,
                s.duration,
                players(s.players.iter().map(|p| (p.name.clone(), p.team.clone(), p.stats.frags)).collect())
            );
            let b = format!(
                "{} {} {} {} {} {:?}",
                3,
                doc.hostname,
                doc.ip,
                doc.port,
                doc.duration.unwrap_or(0),
                players(doc.players.iter().map(|p| (p.name.clone(), p.team.clone(), p.frags)).collect())
            );
            ctx.expect(&data, &format!("ktxstats_v3 ({n} blocks)"), &a, &b)?;
        }
        Err(e) => return Err(ctx.viol(&data, format!("ktxstats_v3 ({n} blocks): error {e}\n  document {want}"))),
    }
    ctx.sample(|| format!("{} bytes of JSON in {n} blocks at frame {at} of {}", want.len(), demo.frames.len()));
    Ok(())
}

fn expected_player(p: &ktx::KPlayer) -> m::Player {
    m::Player {
        name: p.name.clone(),
        team: p.team.clone(),
        color: [p.top as u8, p.bottom as u8],
        frags: p.frags,
        ping: p.ping.max(0) as u32,
        is_bot: p.bot.is_some() || p.ping == 10,
        auth_username: p.login.clone().filter(|l| !l.is_empty()),
        auth_cc: None,
    }
}

fn c21(ctx: &mut Ctx) -> CaseResult {
    let mut c = cfg(ctx);
    c.ktx = true;
    let mut doc = big_doc(ctx);
    // ties, and extremes
    if doc.players.len() > 1 && ctx.rng.chance(1, 2) {
        let k = ctx.rng.irange(-3, 30) as i32;
        for p in doc.players.iter_mut() {
            if ctx.rng.chance(1, 2) {
                p.frags = k;
            }
        }
    }
    if ctx.rng.chance(1, 6) {
        for p in doc.players.iter_mut() {
            p.frags = ktx::gen_i32(&mut ctx.rng, ctx.dict);
            p.ping = ktx::gen_i32(&mut ctx.rng, ctx.dict);
        }
    }
    doc.json = ktx::render(&mut ctx.rng, &doc);
    match ctx.rng.below(8) {
        0 => c.ktx = false,
        1 => {
            // a document which is none
            let s = String::from_utf8(doc.json.clone()).unwrap();
            doc.json = match ctx.rng.below(4) {
                0 => s.replacen("\"players\": [", "\"players\": {", 1),
                1 => s.replacen("\"map\": \"dm6\"", "\"map\": dm6", 1),
                2 => s.trim_end().trim_end_matches('}').to_string(),
                _ => s.replacen("\"tl\": 10", "\"tl\": \"ten\"", 1),
            }
            .into_bytes();
            c.doc = Some(doc.clone());
            let (_, data) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
            ctx.ev("fallback.broken_document");
            return fallback(ctx, &data, "broken document");
        }
        _ => {}
    }
    if !c.ktx {
        let (_, data) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
        ctx.ev("fallback.no_document");
        return fallback(ctx, &data, "no document");
    }
    c.doc = Some(doc.clone());
    let (_, data) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    if !doc.players.is_empty() {
        ctx.nontrivial(&data);
    }
    let mut want: Vec<m::Player> = doc.players.iter().map(expected_player).collect();
    want.sort_by(|a, b| b.frags.cmp(&a.frags).then(a.name.cmp(&b.name)));
    for (i, p) in want.iter().enumerate() {
        ctx.ev("players.compared");
        if p.is_bot {
            ctx.ev("players.bot");
        }
        if p.auth_username.is_some() {
            ctx.ev("players.login");
        }
        if i > 0 && want[i - 1].frags == p.frags {
            ctx.ev("players.equal_frags");
        }
    }
    if doc.players.iter().any(|p| p.ping < 0) {
        ctx.ev("players.negative_ping");
    }
    let d = &data;
    let stats = ctx.lib(d, "ktxstats_v3", || m::ktxstats_v3(d))?;
    let stats = stats.map_err(|e| ctx.viol(d, format!("ktxstats_v3: error {e}")))?;
    for (f, got) in [
        ("players", ctx.lib(d, "players", || m::players(d))?),
        ("players_from_ktxstats", ctx.lib(d, "players_from_ktxstats", || m::players_from_ktxstats(&stats))?),
    ] {
        let got = got.map_err(|e| ctx.viol(d, format!("{f}: error {e}")))?;
        let w = canon(&want);
        let g = canon(&got);
        ctx.expect(d, f, &g, &w)?;
    }
    let got = ctx.lib(d, "server", || m::server(d))?;
    let got = got.map_err(|e| ctx.viol(d, format!("server: error {e}")))?;
    let w = m::Server {
        hostname: doc.hostname.clone(),
        address: format!("{}:{}", doc.ip, doc.port),
        ip: doc.ip.clone(),
        port: doc.port,
    };
    ctx.expect(d, "server", &format!("{got:?}"), &format!("{w:?}"))?;
    ctx.sample(|| format!("{:?}", want.iter().map(|p| (&p.name, p.frags)).collect::<Vec<_>>()));
    Ok(())
}

/// The list with players of equal frags and name in a fixed order.
pub fn canon(v: &[m::Player]) -> String {
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j].frags == v[i].frags && v[j].name == v[i].name {
            j += 1;
        }
        let mut g: Vec<String> = v[i..j].iter().map(|p| format!("{p:?}")).collect();
        g.sort();
        out.extend(g);
        i = j;
    }
    format!("{out:#?}")
}

fn fallback(ctx: &mut Ctx, data: &[u8], what: &str) -> CaseResult {
    ctx.nontrivial(data);
    let a = ctx.call("players", data);
    let b = ctx.call("players_from_parsing", data);
    ctx.expect(data, &format!("players ({what}: as parsed from the messages)"), crate::api::norm(&a), crate::api::norm(&b))?;
    let r = ctx.call("ktxstats_v3", data);
    ctx.expect(data, &format!("ktxstats_v3 ({what})"), crate::api::norm(&r), "Err")?;
    let r = ctx.call("server", data);
    ctx.expect(data, &format!("server ({what})"), crate::api::norm(&r), "Err")?;
    Ok(())
}
