//! The public surface of mvdparser as observed by the monitors: every function of a demo buffer,
//! with a canonical rendering of what it returned (or that it panicked).

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

use mvdparser::all as m;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs `f`; a panic becomes Err(message at location).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn res<T: Debug>(r: anyhow::Result<T>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({e})"),
    }
}

fn sorted<K: Ord + Debug + Clone, V: Debug>(map: std::collections::HashMap<K, V>) -> String {
    let b: BTreeMap<K, String> = map.into_iter().map(|(k, v)| (k, format!("{v:?}"))).collect();
    format!("{b:?}")
}

fn prints(d: &[u8]) -> String {
    let mut s = String::new();
    for p in m::prints(d) {
        s.push_str(&format!("{:?} {:?}; ", p.id, p.content));
    }
    s
}

pub struct Api {
    pub name: &'static str,
    pub call: fn(&[u8]) -> String,
    /// result size can be a large multiple of the input (JSON document -> typed record)
    pub ktx: bool,
}

pub const NO_CALL: &str = "(call panicked)";

pub fn table() -> Vec<Api> {
    macro_rules! api {
        ($name:expr, $ktx:expr, $f:expr) => {
            Api {
                name: $name,
                call: $f,
                ktx: $ktx,
            }
        };
    }
    vec![
        api!("is_aborted", false, |d| format!("{}", m::is_aborted(d))),
        api!("is_paused", false, |d| format!("{}", mvdparser::is_paused(d))),
        api!("is_valid", false, |d| format!("{}", m::is_valid(d))),
        api!("has_clients", false, |d| format!("{}", m::has_clients(d))),
        api!("has_end_of_demo_print", false, |d| format!(
            "{}",
            m::has_end_of_demo_print(d)
        )),
        api!("clientinfo", false, |d| res(m::clientinfo(d))),
        api!("clientinfo_strings", false, |d| res(m::clientinfo_strings(d))),
        api!("clients", false, |d| res(m::clients(d))),
        api!("has_bot_players", false, |d| res(m::has_bot_players(d))),
        api!("has_human_players", false, |d| res(m::has_human_players(d))),
        api!("player_clients", false, |d| res(m::player_clients(d))),
        api!("player_names", false, |d| res(m::player_names(d))),
        api!("spectator_clients", false, |d| res(m::spectator_clients(d))),
        api!("spectator_names", false, |d| res(m::spectator_names(d))),
        api!("team_names", false, |d| res(m::team_names(d))),
        api!("countdown_duration", false, |d| res(m::countdown_duration(d))),
        api!("demo_duration", false, |d| res(m::demo_duration(d))),
        api!("match_duration", false, |d| res(m::match_duration(d))),
        api!("match_duration_from_seeking", false, |d| res(
            m::match_duration_from_seeking(d)
        )),
        api!("match_duration_from_ktxstats", false, |d| res(
            m::match_duration_from_ktxstats(d)
        )),
        api!("filename", false, |d| res(mvdparser::filename(d))),
        api!("flag_events_per_player_name", false, |d| sorted(
            m::flag_events_per_player_name(d)
        )),
        api!("frags_per_player_name", false, |d| sorted(
            m::frags_per_player_name(d)
        )),
        api!("ktxstats_string", false, |d| res(m::ktxstats_string(d))),
        api!("ktxstats_v3", true, |d| res(m::ktxstats_v3(d))),
        api!("matchdate", false, |d| res(m::matchdate(d))),
        api!("matchdate_string", false, |d| res(m::matchdate_string(d))),
        api!("ping_per_player_number", false, |d| match m::ping_per_player_number(d) {
            Ok(v) => format!("Ok({})", sorted(v)),
            Err(e) => format!("Err({e})"),
        }),
        api!("players", true, |d| res(m::players(d))),
        api!("players_from_parsing", false, |d| res(m::players_from_parsing(d))),
        api!("prints", false, prints),
        api!("server", true, |d| res(m::server(d))),
        api!("serverinfo", false, |d| res(m::serverinfo(d))),
        api!("serverinfo_string", false, |d| res(m::serverinfo_string(d))),
        api!("teams", true, |d| res(m::teams(d))),
        api!("timestamp", false, |d| res(m::timestamp(d))),
        api!("timestamp_from_epoch", false, |d| res(m::timestamp_from_epoch(d))),
        api!("derived.players_from_ktxstats", true, |d| res(
            m::ktxstats_v3(d).and_then(|s| m::players_from_ktxstats(&s))
        )),
        api!("derived.teams_from_ktxstats", true, |d| res(
            m::ktxstats_v3(d).and_then(|s| m::teams_from_ktxstats(&s))
        )),
        api!("derived.teams_from_players", true, |d| res(
            m::players(d).map(|p| m::teams_from_players(&p))
        )),
    ]
}

impl Api {
    /// Canonical result; a panic is rendered as such.
    pub fn run(&self, d: &[u8]) -> String {
        match guard(|| (self.call)(d)) {
            Ok(s) => s,
            Err(e) => format!("{NO_CALL} {e}"),
        }
    }
}

/// Result with the wording of the error removed.
pub fn norm(s: &str) -> &str {
    if s.starts_with("Err(") {
        "Err"
    } else {
        s
    }
}
