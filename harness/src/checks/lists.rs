//! C12 clients, C13 name lists, C14 serverinfo.

use super::Check;
use crate::demo::*;
use crate::gen::{self, Cfg, ClientG, ServerG, WorldCfg};
use crate::sup::{CaseResult, Ctx};
use crate::text;
use mvdparser::all as m;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C12",
            case: c12,
            quick: 320_000,
            thorough: 4_000_000,
            rule: "generated demos with 0 to 32 clients; observed client records compared with the clients put in; a demo counts when it has clients and is distinct by content hash",
            assumptions: &["client info strings of up to 256 bytes, as servers allow", "at most 18 unused slots in a row", "clients are described in slot order"],
            must_observe: &["clients.compared", "clients.none", "clients.spectator", "clients.bot", "clients.longest_info", "clients.slot_gap", "clients.no_list", "clients.later_list", "clients.later_change"],
            cross_process: false,
        },
        Check {
            id: "C13",
            case: c13,
            quick: 280_000,
            thorough: 3_500_000,
            rule: "generated demos; observed name lists compared with the clients put in, sorted by readable text without regard to case; a demo counts when it has clients and is distinct by content hash",
            assumptions: &["names which differ only in color or case keep the order of their slots"],
            must_observe: &["names.compared", "names.equal_keys", "teams.shared", "bots.only_in_stats", "partition"],
            cross_process: false,
        },
        Check {
            id: "C14",
            case: c14,
            quick: 750_000,
            thorough: 7_500_000,
            rule: "generated server info strings at chosen places; observed string, settings and file name compared with what was put in; a demo counts when distinct by content hash",
            assumptions: &["the string ends within the first 1280 bytes", "no value is empty or contains a byte which reads as a quote or backslash"],
            must_observe: &["server.compared", "server.ends_at_1280", "server.absent", "server.out_of_reach", "server.filename", "server.integer_out_of_range"],
            cross_process: false,
        },
    ]
}

fn world(ctx: &mut Ctx) -> WorldCfg {
    match ctx.rng.below(8) {
        0 => WorldCfg {
            players: (0, 0),
            specs: (0, 0),
            ..WorldCfg::default()
        },
        1 => WorldCfg {
            players: (16, 32),
            specs: (0, 16),
            teams: 6,
            ..WorldCfg::default()
        },
        2 => WorldCfg {
            players: (1, 2),
            specs: (0, 1),
            ..WorldCfg::default()
        },
        _ => WorldCfg {
            players: (0, 10),
            specs: (0, 8),
            teams: ctx.rng.range(1, 6),
            ..WorldCfg::default()
        },
    }
}

fn quiet_cfg(ctx: &mut Ctx) -> Cfg {
    Cfg {
        world: world(ctx),
        obits: (0, 4),
        chats: (0, 3),
        flags: (0, 1),
        pings: (0, 2),
        noise: (0, 5),
        ktx: ctx.rng.chance(1, 5),
        match_over: ctx.rng.chance(1, 2),
        standby: ctx.rng.chance(1, 2),
        matchdate: ctx.rng.chance(1, 2),
        server: ctx.rng.chance(7, 8),
        late_infos: if ctx.rng.chance(1, 4) { ctx.rng.range(1, 4) } else { 0 },
        ..Cfg::default()
    }
}

fn c12(ctx: &mut Ctx) -> CaseResult {
    let mut c = quiet_cfg(ctx);
    c.client_list = !ctx.rng.chance(1, 20);
    if c.client_list && ctx.rng.chance(1, 6) {
        c.late_lists = ctx.rng.range(1, 2);
        ctx.ev("clients.later_list");
    }
    if c.late_infos > 0 {
        ctx.ev("clients.later_change");
    }
    let (mt, data) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    let cl = &mt.clients;
    if !c.client_list {
        ctx.ev("clients.no_list");
        for f in ["clients", "clientinfo", "clientinfo_strings", "player_clients", "spectator_clients"] {
            let r = ctx.call(f, &data);
            ctx.expect(&data, &format!("{f} (no client list)"), crate::api::norm(&r), "Err")?;
        }
        let r = ctx.call("has_clients", &data);
        return ctx.expect(&data, "has_clients (no client list)", &r, "false");
    }
    if cl.is_empty() {
        ctx.ev("clients.none");
    } else {
        ctx.nontrivial(&data);
    }
    let mut prev = -1i32;
    for x in cl {
        ctx.ev("clients.compared");
        if x.is_spec() {
            ctx.ev("clients.spectator");
        }
        if x.is_bot() {
            ctx.ev("clients.bot");
        }
        if x.info.len() == 256 {
            ctx.ev("clients.longest_info");
        }
        if x.slot as i32 - prev > 1 {
            ctx.ev("clients.slot_gap");
        }
        prev = x.slot as i32;
    }
    ctx.st.max("clients_in_one_demo", cl.len() as u64);
    let list = |f: &dyn Fn(&&ClientG) -> bool| -> String {
        format!("Ok({:?})", cl.iter().filter(|c| f(c)).map(|c| c.expected()).collect::<Vec<_>>())
    };
    let infos = format!("Ok({:?})", cl.iter().map(|c| c.expected_info()).collect::<Vec<_>>());
    let strings = format!("Ok({:?})", cl.iter().map(|c| text::uni(&c.info)).collect::<Vec<_>>());
    for (f, want) in [
        ("clientinfo_strings", strings),
        ("clientinfo", infos),
        ("clients", list(&|_| true)),
        ("player_clients", list(&|c| !c.is_spec())),
        ("spectator_clients", list(&|c| c.is_spec())),
        ("has_clients", (!cl.is_empty()).to_string()),
    ] {
        let got = ctx.call(f, &data);
        ctx.expect(&data, f, &got, &want)?;
    }
    ctx.sample(|| {
        format!(
            "{} clients in slots {:?}: {:?}",
            cl.len(),
            cl.iter().map(|c| c.slot).collect::<Vec<_>>(),
            cl.iter().map(|c| c.uname()).collect::<Vec<_>>()
        )
    });
    Ok(())
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort_by_key(|s| text::sort_key(s));
    v
}

fn c13(ctx: &mut Ctx) -> CaseResult {
    let c = quiet_cfg(ctx);
    let mut mt;
    let mut data;
    let mut tries = 0;
    loop {
        let (a, b) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
        mt = a;
        data = b;
        tries += 1;
        // prefer lists with something to sort
        if mt.clients.len() > 1 || tries > 1 {
            break;
        }
    }
    // names which only differ in color or case
    if mt.clients.len() > 1 && ctx.rng.chance(1, 3) {
        let i = ctx.rng.below(mt.clients.len());
        let j = ctx.rng.below(mt.clients.len());
        if let Some((m2, d2)) = twin_names(ctx, &c, &mt, i, j) {
            mt = m2;
            data = d2;
        }
    }
    let cl = &mt.clients;
    if !cl.is_empty() {
        ctx.nontrivial(&data);
    }
    let names = |spec: bool| sorted(cl.iter().filter(|c| c.is_spec() == spec).map(|c| c.uname()).collect());
    let mut teams: Vec<String> = vec![];
    let mut shared = false;
    for x in cl.iter().filter(|c| !c.is_spec()) {
        if teams.contains(&x.uteam()) {
            shared = true;
        } else {
            teams.push(x.uteam());
        }
    }
    if shared {
        ctx.ev("teams.shared");
    }
    let keys: Vec<String> = cl.iter().map(|c| text::sort_key(&c.uname())).collect();
    if (1..keys.len()).any(|i| keys[..i].contains(&keys[i])) {
        ctx.ev("names.equal_keys");
    }
    let bot_player = cl.iter().any(|c| !c.is_spec() && c.is_bot());
    let stats_bot = mt.ktx.as_ref().is_some_and(|k| text::count(&k.json, b"\"bot\": {") > 0)
        || text::count(&data, b"\"bot\": {") > 0;
    if stats_bot && !bot_player {
        ctx.ev("bots.only_in_stats");
    }
    let human = cl.iter().any(|c| !c.is_spec() && !c.is_bot());
    ctx.evn("names.compared", cl.len() as u64);
    for (f, want) in [
        ("player_names", format!("Ok({:?})", names(false))),
        ("spectator_names", format!("Ok({:?})", names(true))),
        ("team_names", format!("Ok({:?})", sorted(teams))),
        ("has_bot_players", format!("Ok({})", bot_player || stats_bot)),
        ("has_human_players", format!("Ok({human})")),
    ] {
        let got = ctx.call(f, &data);
        ctx.expect(&data, f, &got, &want)?;
    }
    // every client is in exactly one of the two lists
    let d = &data;
    let all = ctx.lib(d, "clients", || m::clients(d).unwrap_or_default())?;
    let p = ctx.lib(d, "player_clients", || m::player_clients(d).unwrap_or_default())?;
    let s = ctx.lib(d, "spectator_clients", || m::spectator_clients(d).unwrap_or_default())?;
    ctx.ev("partition");
    if all.len() != p.len() + s.len()
        || p.iter().any(|c| c.is_spectator || !all.contains(c))
        || s.iter().any(|c| !c.is_spectator || !all.contains(c))
    {
        return Err(ctx.viol(d, format!("players and spectators do not partition the clients\n  clients {all:?}\n  players {p:?}\n  spectators {s:?}")));
    }
    ctx.sample(|| format!("players {:?}, spectators {:?}", names(false), names(true)));
    Ok(())
}

/// The same match where client j is called like client i, in another color or case.
fn twin_names(ctx: &mut Ctx, c: &Cfg, mt: &gen::Match, i: usize, j: usize) -> Option<(gen::Match, Vec<u8>)> {
    if i == j {
        return None;
    }
    let mut name = mt.clients[i].name.clone();
    let k = ctx.rng.below(name.len());
    name[k] ^= if ctx.rng.chance(1, 2) && name[k].is_ascii_alphabetic() { 0x20 } else { 0x80 };
    if name.iter().any(|b| matches!(*b, 0 | b'\\' | b'"' | b'\n'))
        || mt.clients.iter().any(|c| c.name == name)
        || gen::has_needle(&name)
    {
        return None;
    }
    let mut m2 = mt.clone();
    let old = m2.clients[j].info.clone();
    let old_name = m2.clients[j].name.clone();
    // the key, not a value of the same text
    let parts: Vec<&[u8]> = old.split(|b| *b == b'\\').collect();
    let k = (1..parts.len()).step_by(2).find(|k| parts[*k] == b"name")?;
    let at = parts[..=k].iter().map(|p| p.len() + 1).sum::<usize>();
    let end = at + old_name.len();
    if old.get(at..end)? != old_name.as_slice() {
        return None;
    }
    let mut info = old[..at].to_vec();
    info.extend_from_slice(&name);
    info.extend_from_slice(&old[end..]);
    if info.len() > 256 {
        return None;
    }
    for f in m2.demo.frames.iter_mut() {
        if let Body::Read(ms) = &mut f.body {
            for x in ms.iter_mut() {
                if let Msg::UserInfo { info: v, .. } = x {
                    if *v == old {
                        *v = info.clone();
                    }
                }
            }
        }
    }
    m2.clients[j].name = name;
    m2.clients[j].info = info;
    let data = m2.demo.encode();
    gen::well_formed(c, &data).then_some((m2, data))
}

pub fn expected_settings(s: &ServerG) -> m::Settings {
    m::Settings {
        admin: s.get("*admin"),
        deathmatch: s.int("deathmatch"),
        epoch: s.int("epoch"),
        fpd: s.int("fpd"),
        fraglimit: s.int("fraglimit"),
        gamedir: s.get("*gamedir"),
        hostname: s.get("hostname"),
        ktxmode: s.get("ktxmode"),
        ktxver: s.get("ktxver"),
        map: s.get("map"),
        matchtag: s.get("matchtag"),
        maxclients: s.int("maxclients"),
        maxfps: s.int("maxfps"),
        maxspectators: s.int("maxspectators"),
        mode: s.get("mode"),
        needpass: s.int("needpass"),
        pm_ktjump: s.int("pm_ktjump"),
        progs: s.get("*progs"),
        qvm: s.get("*qvm"),
        status: s.get("status"),
        serverdemo: s.get("serverdemo"),
        sv_antilag: s.int("sv_antilag"),
        teamplay: s.int("teamplay"),
        timelimit: s.int("timelimit"),
        version: s.get("*version"),
        z_ext: s.int("*z_ext"),
    }
}

fn c14(ctx: &mut Ctx) -> CaseResult {
    let absent = ctx.rng.chance(1, 12);
    let (server, data) = if ctx.rng.chance(1, 2) {
        let c = Cfg {
            server: !absent,
            ..quiet_cfg(ctx)
        };
        let (mt, d) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
        (mt.server, d)
    } else {
        // the string at a chosen place
        let mut s = gen::gen_server(&mut ctx.rng, ctx.dict);
        if ctx.rng.chance(1, 3) {
            let v = ctx.rng.irange(-(1 << 40), 1 << 40);
            s.set("epoch", Some(v.to_string().into_bytes()));
        }
        if ctx.rng.chance(1, 6) {
            // a string of about the maximum size
            let room = 1000usize.saturating_sub(s.string().len());
            s.kv.push((b"filler".to_vec(), vec![b'f'; room.max(1)]));
        }
        let str = s.string();
        let total = 16 + str.len() + 1;
        let lead = match ctx.rng.below(6) {
            4 => {
                // only a part of it, or nothing at all, within reach
                let k = *ctx.rng.pick(&[0usize, 1, 2, 16, 17, total / 2, total - 1, total]);
                1281 - total.min(1281) + k
            }
            5 => 1264 + ctx.dict.int(&mut ctx.rng, 0, 6000) as usize,
            0 => 1280usize.saturating_sub(total),
            1 => 1280usize.saturating_sub(total + ctx.rng.below(3)),
            2 => 0,
            _ => ctx.rng.range(0, 1280usize.saturating_sub(total)),
        };
        let mut d: Vec<u8> = ctx.rng.bytes(lead);
        // the beginning of the marker, but not more than that
        if lead > 40 && ctx.rng.chance(1, 4) {
            let at = ctx.rng.below(lead - 15);
            d[at..at + 15].copy_from_slice(b"fullserverinfo ");
            d[at + 15] = b'_';
        }
        if lead + total == 1280 && !absent {
            ctx.ev("server.ends_at_1280");
        }
        if !absent {
            d.extend_from_slice(b"fullserverinfo \"");
            d.extend_from_slice(&str);
            d.push(b'"');
        }
        let tail = ctx.rng.below(60);
        let tail = if ctx.rng.chance(1, 3) { 0 } else { tail };
        let t = ctx.rng.bytes(tail);
        d.extend(t);
        if lead + total > 1280 && !absent {
            // the first opening is not complete: no info at all
            if text::count(&d[..d.len().min(lead + 16)], b"fullserverinfo \"") != 1 || d.len() < lead + total || str.contains(&b'"') {
                return Ok(());
            }
            if ctx.rng.chance(1, 3) {
                let n = ctx.rng.range(1, 6000);
                d.extend(vec![b'"'; n]);
            }
            ctx.nontrivial(&d);
            ctx.ev("server.out_of_reach");
            for f in ["serverinfo_string", "serverinfo", "filename", "timestamp_from_epoch"] {
                let r = ctx.call(f, &d);
                ctx.expect(&d, &format!("{f} (server info ends at byte {})", lead + total), crate::api::norm(&r), "Err")?;
            }
            return Ok(());
        }
        // something alike later on has no meaning
        if ctx.rng.chance(1, 4) && !absent {
            d.extend_from_slice(b"fullserverinfo \"\\map\\e1m1\\epoch\\1\"");
        }
        (s, d)
    };
    if absent {
        if text::count(&data, b"fullserverinfo \"") > 0 {
            return Ok(());
        }
        ctx.ev("server.absent");
        for f in ["serverinfo_string", "serverinfo", "filename", "timestamp_from_epoch"] {
            let r = ctx.call(f, &data);
            ctx.expect(&data, &format!("{f} (no server info)"), crate::api::norm(&r), "Err")?;
        }
        return Ok(());
    }
    let at = text::find(&data, b"fullserverinfo \"").unwrap();
    let str = server.string();
    if data.get(at + 16..at + 16 + str.len()) != Some(&str[..]) || at + 16 + str.len() >= 1280 {
        ctx.ev("skipped.out_of_range");
        return Ok(());
    }
    ctx.nontrivial(&data);
    ctx.ev("server.compared");
    let want = format!("Ok({:?})", text::readable(&str));
    let got = ctx.call("serverinfo_string", &data);
    ctx.expect(&data, "serverinfo_string", &got, &want)?;
    let set = expected_settings(&server);
    if server.get("epoch").is_some() && set.epoch.is_none() {
        ctx.ev("server.integer_out_of_range");
    }
    let want = format!("Ok({set:?})");
    let got = ctx.call("serverinfo", &data);
    ctx.expect(&data, "serverinfo", &got, &want)?;
    let got = ctx.call("filename", &data);
    match &set.serverdemo {
        Some(f) => {
            ctx.ev("server.filename");
            ctx.expect(&data, "filename", &got, &format!("Ok({f:?})"))?;
        }
        None => ctx.expect(&data, "filename (none given)", crate::api::norm(&got), "Err")?,
    }
    ctx.sample(|| text::readable(&str));
    Ok(())
}
