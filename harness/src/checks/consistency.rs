//! C22 players from parsing, C23 teams, C24 agreement of overlapping functions.

use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use super::Check;
use crate::gen::{self, Cfg, WorldCfg};
use crate::hostile::hostile;
use crate::ktx::{self, Doc, KPlayer};
use crate::sup::{CaseResult, Ctx};
use crate::text;
use mvdparser::all as m;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C22",
            case: c22,
            quick: 200_000,
            thorough: 2_500_000,
            rule: "generated matches without statistics document; observed player records compared with clients, obituaries and pings put in; a demo counts when it has players and is distinct by content hash",
            assumptions: &["names are unique and do not contain the text of an obituary"],
            must_observe: &["players.compared", "players.with_frags", "players.with_ping", "players.without_ping", "players.equal_frags", "spectators.with_frags", "no_pings", "no_list"],
            cross_process: false,
        },
        Check {
            id: "C23",
            case: c23,
            quick: 450_000,
            thorough: 4_500_000,
            rule: "generated player lists and matches; observed teams compared with sums, means and counts over the players; a list counts when it has players and is distinct by content hash",
            assumptions: &["frag sums within 32 bits"],
            must_observe: &["teams.compared", "teams.same_but_for_case", "teams.color_majority", "teams.color_tie", "teams.half_ping", "teams.of_matches", "teams.many_players", "teams.65536_players"],
            cross_process: false,
        },
        Check {
            id: "C24",
            case: c24,
            quick: 135_000,
            thorough: 2_250_000,
            rule: "generated, damaged and recorded demos; results of functions which tell the same facts compared with each other, and matches told twice (messages and statistics) compared; an input counts when it is not empty and distinct by content hash",
            assumptions: &[],
            must_observe: &["input.damaged", "input.recorded", "input.told_twice", "relations", "twice.players"],
            cross_process: false,
        },
    ]
}

fn c22(ctx: &mut Ctx) -> CaseResult {
    let full = ctx.rng.chance(1, 12);
    let spec_names = ctx.rng.chance(1, 3);
    let c = Cfg {
        world: WorldCfg {
            players: if full { (28, 32) } else { (0, 12) },
            specs: if full { (0, 1) } else { (0, 5) },
            teams: ctx.rng.range(1, 4),
            ..WorldCfg::default()
        },
        spec_names,
        tk_unknown: !spec_names,
        strangers: ctx.rng.below(3),
        obits: (0, 30),
        pings: if ctx.rng.chance(1, 10) { (0, 0) } else { (1, 12) },
        client_list: ctx.rng.chance(19, 20),
        server: ctx.rng.chance(7, 8),
        late_infos: if ctx.rng.chance(1, 4) { 2 } else { 0 },
        ..Cfg::default()
    };
    let (mt, data) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    let pings = mt.demo.ref_pings();
    let d = &data;
    let got = ctx.lib(d, "players_from_parsing", || m::players_from_parsing(d))?;
    if !c.client_list {
        ctx.ev("no_list");
        let g = if got.is_err() { "Err" } else { "Ok" };
        return ctx.expect(d, "players_from_parsing (no client list)", g, "Err");
    }
    let Some(pings) = pings else {
        ctx.ev("no_pings");
        let g = if got.is_err() { "Err" } else { "Ok" };
        return ctx.expect(d, "players_from_parsing (no pings)", g, "Err");
    };
    let frags = mt.ref_frags().frags;
    if mt.clients.iter().any(|c| c.is_spec() && frags.contains_key(&c.uname())) {
        ctx.ev("spectators.with_frags");
    }
    let mut want: Vec<m::Player> = mt
        .players()
        .iter()
        .map(|c| m::Player {
            name: c.uname(),
            team: c.uteam(),
            color: c.color(),
            frags: frags.get(&c.uname()).copied().unwrap_or(0) as i32,
            ping: pings.get(&c.slot).copied().unwrap_or(0),
            is_bot: c.is_bot(),
            auth_username: c.auth.as_ref().map(|v| text::uni(v)),
            auth_cc: c.flag.as_ref().map(|v| text::uni(v)),
        })
        .collect();
    want.sort_by(|a, b| b.frags.cmp(&a.frags).then(a.name.cmp(&b.name)));
    for (i, p) in want.iter().enumerate() {
        ctx.ev("players.compared");
        if p.frags != 0 {
            ctx.ev("players.with_frags");
        }
        ctx.ev(if p.ping > 0 { "players.with_ping" } else { "players.without_ping" });
        if i > 0 && want[i - 1].frags == p.frags {
            ctx.ev("players.equal_frags");
        }
    }
    if !want.is_empty() {
        ctx.nontrivial(d);
    }
    if want.len() == 32 {
        ctx.ev("players.all_32_slots");
    }
    let got = got.map_err(|e| ctx.viol(d, format!("players_from_parsing: error {e}")))?;
    ctx.expect(d, "players_from_parsing", &format!("{got:#?}"), &format!("{want:#?}"))?;
    // no document: this is what players returns
    let p = ctx.lib(d, "players", || m::players(d))?;
    let p = p.map_err(|e| ctx.viol(d, format!("players: error {e}")))?;
    ctx.expect(d, "players", &format!("{p:#?}"), &format!("{want:#?}"))?;
    ctx.sample(|| format!("{:?}", want.iter().map(|p| (&p.name, &p.team, p.frags, p.ping)).collect::<Vec<_>>()));
    Ok(())
}

/// The teams of a list of players, checked against sums, means and counts.
fn check_teams(ctx: &mut Ctx, input: &[u8], what: &str, players: &[m::Player], teams: &[m::Team]) -> CaseResult {
    let mut groups: Vec<(String, Vec<&m::Player>)> = vec![];
    for p in players {
        match groups.iter_mut().find(|(n, _)| *n == p.team) {
            Some((_, v)) => v.push(p),
            None => groups.push((p.team.clone(), vec![p])),
        }
    }
    groups.sort_by(|a, b| a.0.to_lowercase().cmp(&b.0.to_lowercase()).then(a.0.cmp(&b.0)));
    for w in groups.windows(2) {
        if w[0].0.to_lowercase() == w[1].0.to_lowercase() {
            ctx.ev("teams.same_but_for_case");
        }
    }
    let names = |v: Vec<&str>| format!("{v:?}");
    ctx.expect(
        input,
        &format!("{what}: names of the teams"),
        &names(teams.iter().map(|t| t.name.as_str()).collect()),
        &names(groups.iter().map(|g| g.0.as_str()).collect()),
    )?;
    for (t, (name, ps)) in teams.iter().zip(&groups) {
        let frags: i64 = ps.iter().map(|p| p.frags as i64).sum();
        let sum: u64 = ps.iter().map(|p| p.ping as u64).sum();
        let n = ps.len() as u64;
        let ping = (2 * sum + n) / (2 * n);
        if (2 * sum) % (2 * n) == n {
            ctx.ev("teams.half_ping");
        }
        let show = |f: i64, p: u64, v: &[&m::Player]| format!("frags {f} ping {p} players {v:#?}");
        ctx.ev("teams.compared");
        if i32::try_from(frags).is_ok() {
            ctx.expect(
                input,
                &format!("{what}: team {name:?}"),
                &show(t.frags as i64, t.ping as u64, &t.players.iter().collect::<Vec<_>>()),
                &show(frags, ping, ps),
            )?;
        }
        let mut counts = std::collections::BTreeMap::new();
        for p in ps {
            *counts.entry(p.color).or_insert(0usize) += 1;
        }
        let count = |c: [u8; 2]| counts[&c];
        let most = ps.iter().map(|p| count(p.color)).max().unwrap_or(0);
        let best: BTreeSet<[u8; 2]> = ps.iter().map(|p| p.color).filter(|c| count(*c) == most).collect();
        ctx.ev(if best.len() > 1 { "teams.color_tie" } else if most < ps.len() { "teams.color_majority" } else { "teams.color_common" });
        ctx.st.ev("oracle_comparisons", 1);
        let first = ps.iter().map(|p| p.color).find(|c| count(*c) == most);
        if Some(t.color) != first {
            return Err(ctx.viol(
                input,
                format!(
                    "{what}: team {name:?} has color {:?}, but the first of the colors {best:?}, which most of its players have, is {first:?}: {:?}",
                    t.color,
                    ps.iter().map(|p| p.color).collect::<Vec<_>>()
                ),
            ));
        }
    }
    Ok(())
}

fn c23(ctx: &mut Ctx) -> CaseResult {
    if ctx.idx % 6 == 0 {
        let c = Cfg {
            world: WorldCfg {
                players: (1, 12),
                specs: (0, 3),
                teams: ctx.rng.range(1, 5),
                ..WorldCfg::default()
            },
            ktx: ctx.rng.chance(1, 2),
            pings: (1, 10),
            ..Cfg::default()
        };
        let (_, data) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
        let d = &data;
        let p = ctx.lib(d, "players", || m::players(d))?;
        let t = ctx.lib(d, "teams", || m::teams(d))?;
        return match (p, t) {
            (Ok(p), Ok(t)) => {
                ctx.nontrivial(d);
                ctx.ev("teams.of_matches");
                check_teams(ctx, d, "teams", &p, &t)
            }
            (Err(_), Err(_)) => Ok(()),
            (p, t) => Err(ctx.viol(d, format!("players {p:?} but teams {t:?}"))),
        };
    }
    let n = match ctx.rng.below(8) {
        _ if ctx.idx % 45_000 == 13 => ctx.rng.range(65_530, 65_545),
        _ if ctx.idx % 300 == 11 => {
            let b = *ctx.rng.pick(&[64usize, 128, 256, 256, 512, 1024]);
            ctx.rng.range(b - 2, b + 3)
        }
        0 => 0,
        1 => ctx.rng.range(17, 40),
        _ => ctx.rng.range(1, 12),
    };
    if n > 60 {
        ctx.ev(if n > 65_000 { "teams.65536_players" } else { "teams.many_players" });
    }
    let names = [
        "red", "Red", "RED", "blue", "", "oeks", "Öeks", "öeks", "öa", "Öb", "\u{f2}\u{e5}\u{e4}", "zz", "ZZ", "-s-", "[a]", "_a", "Ab", "aB", "\u{df}", "\u{17f}", "SS", "\u{3a3}", "\u{3c2}", "\u{130}",
        " red", "red ", "10", "9",
    ];
    let k = if ctx.rng.chance(1, 40) { ctx.rng.range(20, 300) } else { ctx.rng.range(1, 5) };
    let teams: Vec<String> = (0..k)
        .map(|_| {
            let mut t = ctx.rng.pick(&names).to_string();
            if ctx.rng.chance(1, 8) || k > 10 {
                t.push_str(&ctx.rng.below(2 * k).to_string());
            }
            t
        })
        .collect();
    let colors = match ctx.rng.below(8) {
        0 => 255,
        1 => 17,
        _ => ctx.rng.range(1, 4) as u8,
    };
    let mut left = 1i64 << 31;
    let players: Vec<m::Player> = (0..n)
        .map(|i| {
            let frags = match ctx.rng.below(6) {
                0 => -(ctx.rng.below(30) as i64),
                1 => ctx.rng.irange(-100_000, 100_000),
                2 => ctx.dict.int(&mut ctx.rng, 0, 1 << 20) as i64,
                3 if left > 1 << 28 => ctx.rng.irange(-(1 << 27), 1 << 27),
                _ => ctx.rng.below(90) as i64,
            };
            left -= frags.abs();
            m::Player {
                name: format!("p{}", ctx.rng.below(6).max(i % 4)),
                team: ctx.rng.pick(&teams).clone(),
                color: [ctx.rng.byte() % colors, ctx.rng.byte() % colors],
                frags: frags as i32,
                ping: match ctx.rng.below(8) {
                    0 => 0,
                    1 => ctx.rng.below(1 << 20) as u32,
                    2 => ctx.dict.int(&mut ctx.rng, 0, 70_000) as u32,
                    3 => u32::MAX - ctx.rng.below(5) as u32,
                    _ => ctx.rng.range(5, 100) as u32,
                },
                is_bot: ctx.rng.chance(1, 5),
                auth_username: ctx.rng.chance(1, 5).then(|| "auth".to_string()),
                auth_cc: None,
            }
        })
        .collect();
    let input = format!("{players:#?}");
    if n > 0 {
        ctx.nontrivial(input.as_bytes());
    }
    let got = ctx.lib(input.as_bytes(), "teams_from_players", || m::teams_from_players(&players))?;
    check_teams(ctx, input.as_bytes(), "teams_from_players", &players, &got)?;
    // one team of all of them
    if n > 0 {
        let same: Vec<m::Player> = players
            .iter()
            .cloned()
            .map(|mut p| {
                p.team = "x".into();
                p
            })
            .collect();
        let one = ctx.lib(input.as_bytes(), "Team::from", || m::Team::from(same.as_slice()))?;
        check_teams(ctx, input.as_bytes(), "Team::from", &same, &[one])?;
    }
    ctx.sample(|| format!("{:?}", got.iter().map(|t| (&t.name, t.color, t.frags, t.ping, t.players.len())).collect::<Vec<_>>()));
    Ok(())
}

// ---- C24 ------------------------------------------------------------------------------------

fn res<T: std::fmt::Debug>(r: &anyhow::Result<T>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(_) => "error".into(),
    }
}

fn relations(ctx: &mut Ctx, d: &[u8]) -> CaseResult {
    let mut n = 0u64;
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {{
            n += 1;
            ctx.expect(d, $what, &$a, &$b)?;
        }};
    }
    let clients = ctx.lib(d, "clients", || m::clients(d))?;
    let pc = ctx.lib(d, "player_clients", || m::player_clients(d))?;
    let sc = ctx.lib(d, "spectator_clients", || m::spectator_clients(d))?;
    let cl = clients.as_ref().ok();
    let part = |spec: bool| -> String {
        match cl {
            Some(v) => format!("{:?}", v.iter().filter(|c| c.is_spectator == spec).collect::<Vec<_>>()),
            None => "error".into(),
        }
    };
    eq!("player_clients are the clients which do not watch", res(&pc), part(false));
    eq!("spectator_clients are the clients which watch", res(&sc), part(true));
    let ci = ctx.lib(d, "clientinfo", || m::clientinfo(d))?;
    let cs = ctx.lib(d, "clientinfo_strings", || m::clientinfo_strings(d))?;
    let len = |r: Option<usize>| format!("{r:?}");
    eq!("one clientinfo per client", len(ci.as_ref().ok().map(|v| v.len())), len(cl.map(|v| v.len())));
    eq!("one clientinfo string per client", len(cs.as_ref().ok().map(|v| v.len())), len(cl.map(|v| v.len())));
    let names = |v: &anyhow::Result<Vec<String>>| match v {
        Ok(v) => {
            let mut v = v.clone();
            v.sort();
            format!("{v:?}")
        }
        Err(_) => "error".into(),
    };
    let names_of = |v: &anyhow::Result<Vec<m::Client>>, team: bool| -> anyhow::Result<Vec<String>> {
        match v {
            Ok(v) => {
                let mut n: Vec<String> = v.iter().map(|c| if team { c.team.clone() } else { c.name.clone() }).collect();
                n.sort();
                if team {
                    n.dedup();
                }
                Ok(n)
            }
            Err(_) => Err(anyhow::anyhow!("error")),
        }
    };
    let x = ctx.lib(d, "player_names", || m::player_names(d))?;
    eq!("player_names are the names of player_clients", names(&x), names(&names_of(&pc, false)));
    let x = ctx.lib(d, "spectator_names", || m::spectator_names(d))?;
    eq!("spectator_names are the names of spectator_clients", names(&x), names(&names_of(&sc, false)));
    let x = ctx.lib(d, "team_names", || m::team_names(d))?;
    eq!("team_names are the teams of player_clients", names(&x), names(&names_of(&pc, true)));
    let x = ctx.lib(d, "has_human_players", || m::has_human_players(d))?;
    let y = pc.as_ref().map(|v| v.iter().any(|c| !c.is_bot)).map_err(|_| anyhow::anyhow!("e"));
    eq!("has_human_players", res(&x), res(&y));
    let x = ctx.lib(d, "has_bot_players", || m::has_bot_players(d))?;
    let in_stats = ctx
        .lib(d, "ktxstats_string", || m::ktxstats_string(d))?
        .is_ok_and(|s| text::find(s.as_bytes(), b"\"bot\": {").is_some());
    let y = pc
        .as_ref()
        .map(|v| v.iter().any(|c| c.is_bot) || in_stats || text::find(d, b"\"bot\": {").is_some())
        .map_err(|_| anyhow::anyhow!("e"));
    eq!("has_bot_players", res(&x), res(&y));
    let has = ctx.lib(d, "has_clients", || m::has_clients(d))?;
    eq!("has_clients", has.to_string(), cl.is_some_and(|v| !v.is_empty()).to_string());

    let si = ctx.lib(d, "serverinfo", || m::serverinfo(d))?;
    let ss = ctx.lib(d, "serverinfo_string", || m::serverinfo_string(d))?;
    eq!("serverinfo and its string", si.is_ok().to_string(), ss.is_ok().to_string());
    let x = ctx.lib(d, "filename", || mvdparser::filename(d))?;
    let y = si.as_ref().ok().and_then(|s| s.serverdemo.clone());
    eq!("filename is the serverdemo of serverinfo", format!("{:?}", x.ok()), format!("{y:?}"));
    let end = ctx.lib(d, "has_end_of_demo_print", || m::has_end_of_demo_print(d))?;
    let x = ctx.lib(d, "is_valid", || m::is_valid(d))?;
    eq!("is_valid", x.to_string(), (d.len() >= 1024 && end && si.is_ok() && has).to_string());
    let paused = ctx.lib(d, "is_paused", || mvdparser::is_paused(d))?;
    eq!("a finished demo is not paused", (paused && end).to_string(), "false".to_string());

    let te = ctx.lib(d, "timestamp_from_epoch", || m::timestamp_from_epoch(d))?;
    let md = ctx.lib(d, "matchdate", || m::matchdate(d))?;
    let ms = ctx.lib(d, "matchdate_string", || m::matchdate_string(d))?;
    let ts = ctx.lib(d, "timestamp", || m::timestamp(d))?;
    let epoch = si.as_ref().ok().and_then(|s| s.epoch);
    eq!("timestamp_from_epoch is the epoch of serverinfo", format!("{:?}", te.as_ref().ok().map(|t| t.timestamp())), format!("{:?}", epoch.map(|v| v as i64)));
    let want = te.as_ref().ok().or(md.as_ref().ok());
    eq!("timestamp is the one of the epoch, else of the match date", format!("{:?}", ts.as_ref().ok()), format!("{want:?}"));
    eq!("matchdate without matchdate_string", (md.is_ok() && ms.is_err()).to_string(), "false".to_string());

    let ks = ctx.lib(d, "ktxstats_string", || m::ktxstats_string(d))?;
    let kv = ctx.lib(d, "ktxstats_v3", || m::ktxstats_v3(d))?;
    eq!("ktxstats_v3 without ktxstats_string", (kv.is_ok() && ks.is_err()).to_string(), "false".to_string());
    let dd = ctx.lib(d, "demo_duration", || m::demo_duration(d))?;
    let cd = ctx.lib(d, "countdown_duration", || m::countdown_duration(d))?;
    let seek = ctx.lib(d, "match_duration_from_seeking", || m::match_duration_from_seeking(d))?;
    let kd = ctx.lib(d, "match_duration_from_ktxstats", || m::match_duration_from_ktxstats(d))?;
    let md = ctx.lib(d, "match_duration", || m::match_duration(d))?;
    let hoony = si.as_ref().is_ok_and(|s| s.mode.as_deref() == Some("hoonymode"));
    let y = dd
        .as_ref()
        .map(|e| e.saturating_sub(*cd.as_ref().unwrap_or(&Duration::ZERO)))
        .map_err(|_| anyhow::anyhow!("e"));
    eq!("match_duration_from_seeking is demo minus countdown", res(&seek), res(&y));
    let y = if hoony { &seek } else if kd.is_ok() { &kd } else { &seek };
    eq!("match_duration is that of the statistics, else from seeking", res(&md), res(y));
    if hoony {
        eq!("no countdown in hoonymode", res(&cd), res(&Ok(Duration::ZERO)));
    }

    let pp = ctx.lib(d, "players_from_parsing", || m::players_from_parsing(d))?;
    let p = ctx.lib(d, "players", || m::players(d))?;
    match &kv {
        Ok(s) => {
            let k = ctx.lib(d, "players_from_ktxstats", || m::players_from_ktxstats(s))?;
            eq!("players are those of the statistics", format!("{:?}", p.as_ref().ok().map(|v| super::ktx::canon(v))), format!("{:?}", k.as_ref().ok().map(|v| super::ktx::canon(v))));
            let sv = ctx.lib(d, "server", || m::server(d))?;
            let y = (s.hostname.clone(), s.ip.clone(), s.port, format!("{}:{}", s.ip, s.port));
            eq!("server is that of the statistics", format!("{:?}", sv.ok().map(|s| (s.hostname, s.ip, s.port, s.address))), format!("{:?}", Some(y)));
        }
        Err(_) => eq!("players are those of the messages", res(&p), res(&pp)),
    }
    let frags: BTreeMap<String, i32> = ctx.lib(d, "frags_per_player_name", || m::frags_per_player_name(d))?.into_iter().collect();
    let pings = ctx.lib(d, "ping_per_player_number", || m::ping_per_player_number(d))?;
    if let Ok(v) = &pp {
        let allowed = pc.as_ref().map(|c| c.len()).unwrap_or(0);
        eq!("not more players than player_clients", (v.len() > allowed).to_string(), "false".to_string());
        for x in v {
            eq!("frags of a player are those of its name", x.frags.to_string(), frags.get(&x.name).copied().unwrap_or(0).to_string());
            let ok = pc.as_ref().is_ok_and(|c| {
                c.iter().any(|c| {
                    c.name == x.name
                        && c.team == x.team
                        && c.color == x.color
                        && c.is_bot == x.is_bot
                        && pings.as_ref().is_ok_and(|p| p.get(&c.number).copied().unwrap_or(0) == x.ping)
                })
            });
            eq!(&format!("a player_client like {x:?}"), ok.to_string(), "true".to_string());
        }
        for w in v.windows(2) {
            let sorted = w[0].frags > w[1].frags || (w[0].frags == w[1].frags && w[0].name <= w[1].name);
            eq!("players by frags, then by name", sorted.to_string(), "true".to_string());
        }
    } else {
        eq!("players_from_parsing fails for want of clients or pings", (clients.is_err() || pings.is_err()).to_string(), "true".to_string());
    }
    let t = ctx.lib(d, "teams", || m::teams(d))?;
    let y = p.as_ref().map(|p| m::teams_from_players(p)).map_err(|_| anyhow::anyhow!("e"));
    eq!("teams are those of the players", res(&t), res(&y));
    // flag events are told by prints
    if !super::readers::observed_flags(ctx, d)?.is_empty() {
        eq!("flag events without the word flag", text::find(d, b"flag").is_some().to_string(), "true".to_string());
    }
    ctx.evn("relations", n);
    Ok(())
}

/// A match told by messages and again by its statistics.
fn told_twice(ctx: &mut Ctx) -> CaseResult {
    let c = Cfg {
        world: WorldCfg {
            players: (1, 10),
            specs: (0, 4),
            teams: ctx.rng.range(1, 3),
            ..WorldCfg::default()
        },
        pings: (1, 12),
        ktx: false,
        ..Cfg::default()
    };
    let (mut mt, _) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    let Some(pings) = mt.demo.ref_pings() else {
        return Ok(());
    };
    let frags = mt.ref_frags().frags;
    let mut players: Vec<KPlayer> = vec![];
    for x in mt.players() {
        let ping = pings.get(&x.slot).copied().unwrap_or(0) as i32;
        players.push(KPlayer {
            name: x.uname(),
            team: x.uteam(),
            login: x.auth.as_ref().map(|v| text::uni(v)),
            top: x.color()[0] as i32,
            bottom: x.color()[1] as i32,
            ping,
            frags: frags.get(&x.uname()).copied().unwrap_or(0) as i32,
            bot: x.is_bot().then_some(5),
        });
    }
    ctx.rng.shuffle(&mut players);
    let mut doc = Doc {
        hostname: "h".into(),
        ip: "1.2.3.4".into(),
        port: 28501,
        duration: Some(600),
        mode: "duel".into(),
        players,
        json: vec![],
    };
    doc.json = ktx::render(&mut ctx.rng, &doc);
    let fs = ktx::frames(&mut ctx.rng, &doc.json);
    let at = mt.demo.frames.len() - 1;
    mt.demo.frames.splice(at..at, fs);
    let data = mt.demo.encode();
    let d = &data;
    if text::count(d, b"{\"version\": ") != 1 {
        return Ok(());
    }
    ctx.ev("input.told_twice");
    ctx.nontrivial(d);
    let p = ctx.lib(d, "players", || m::players(d))?;
    let q = ctx.lib(d, "players_from_parsing", || m::players_from_parsing(d))?;
    let facts = |v: &anyhow::Result<Vec<m::Player>>| match v {
        Ok(v) => format!("{:#?}", v.iter().map(|p| (&p.name, &p.team, p.color, p.frags, p.ping, &p.auth_username)).collect::<Vec<_>>()),
        Err(e) => format!("error {e}"),
    };
    ctx.expect(d, "players of the statistics and of the messages of the same match", &facts(&q), &facts(&p))?;
    ctx.evn("twice.players", doc.players.len() as u64);
    let t = ctx.lib(d, "teams", || m::teams(d))?.unwrap_or_default();
    let sum: i64 = t.iter().map(|t| t.frags as i64).sum();
    let want: i64 = doc.players.iter().map(|p| p.frags as i64).sum();
    ctx.expect(d, "frags of all teams and of all players", &sum.to_string(), &want.to_string())?;
    let mut a: Vec<String> = t.iter().map(|t| t.name.clone()).collect();
    let mut b = ctx.lib(d, "team_names", || m::team_names(d))?.unwrap_or_default();
    a.sort();
    b.sort();
    ctx.expect(d, "names of the teams and team_names", &format!("{a:?}"), &format!("{b:?}"))?;
    relations(ctx, d)
}

fn c24(ctx: &mut Ctx) -> CaseResult {
    if ctx.idx % 3 == 0 {
        return told_twice(ctx);
    }
    if ctx.idx % 211 == 1 && !ctx.files.demos.is_empty() {
        let k = (ctx.idx / 211) as usize % ctx.files.demos.len();
        let d = ctx.files.demos[k].1.clone();
        ctx.ev("input.recorded");
        ctx.nontrivial(&d);
        return relations(ctx, &d);
    }
    let d = if ctx.idx % 3 == 1 {
        let c = crate::hostile::small_cfg(&mut ctx.rng);
        gen::gen_match(&mut ctx.rng, ctx.dict, &c).demo.encode()
    } else {
        ctx.ev("input.damaged");
        hostile(ctx).data
    };
    if !d.is_empty() {
        ctx.nontrivial(&d);
    }
    ctx.sample(|| format!("{} bytes: all relations hold", d.len()));
    relations(ctx, &d)
}
