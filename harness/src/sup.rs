//! Supervisor / worker: cases run in worker processes, so that a crash, an out of memory or a hang
//! of the code under test is an observation like any other. Verdicts are three valued: violated
//! (with a replay), held on what was observed, inconclusive (recorded in the evidence, never a
//! violation and never counted as held).

use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::api;
use crate::checks::{self, Check};
use crate::dict::Dict;
use crate::files::Files;
use crate::rng::{hash, splitmix, Rng};
use crate::search::{Genome, Search};
use crate::text::esc;

#[derive(Default, Clone)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub inputs: HashSet<u64>,
    pub samples: Vec<String>,
    /// event log: (input, function) -> (result, case), of checks which compare across processes
    pub log: BTreeMap<(u64, u16), (u64, u64)>,
    /// edges of the code under test which were taken
    pub edges: Vec<u8>,
}

impl Stats {
    pub fn ev(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.maxima.entry(k.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
}

pub struct Viol {
    pub what: String,
    pub input: Vec<u8>,
}

pub struct Ctx<'a> {
    pub idx: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub st: &'a mut Stats,
    pub dict: &'a Dict,
    pub files: &'a Files,
    pub apis: &'a [api::Api],
}

pub type CaseResult = Result<(), Viol>;

impl Ctx<'_> {
    pub fn ev(&mut self, k: &str) {
        self.st.ev(k, 1);
    }
    pub fn evn(&mut self, k: &str, n: u64) {
        self.st.ev(k, n);
    }
    pub fn nontrivial(&mut self, input: &[u8]) {
        self.st.inputs.insert(hash(input));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.st.samples.len() < 3 {
            let mut t = s();
            if t.len() > 600 {
                let mut n = 600;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push_str(" ...");
            }
            self.st.samples.push(format!("case {}: {}", self.idx, t));
        }
    }
    pub fn viol(&self, input: &[u8], what: impl Into<String>) -> Viol {
        Viol {
            what: what.into(),
            input: input.to_vec(),
        }
    }
    /// Observe one API function.
    pub fn call(&mut self, name: &'static str, d: &[u8]) -> String {
        self.st.ev("api_calls", 1);
        let a = self
            .apis
            .iter()
            .find(|a| a.name == name)
            .unwrap_or_else(|| panic!("harness: unknown api {name}"));
        a.run(d)
    }
    /// The oracle: observed == expected, else a violation.
    pub fn expect(&mut self, input: &[u8], what: &str, got: &str, want: &str) -> CaseResult {
        self.st.ev("oracle_comparisons", 1);
        if got == want {
            return Ok(());
        }
        Err(self.viol(input, diff(what, got, want)))
    }
    /// A call into the library (typed); a panic is a violation.
    pub fn lib<T>(&mut self, input: &[u8], what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
        self.st.ev("api_calls", 1);
        api::guard(f).map_err(|e| self.viol(input, format!("{what} panicked: {e}")))
    }
}

pub fn diff(what: &str, got: &str, want: &str) -> String {
    let g = got.as_bytes();
    let w = want.as_bytes();
    let at = g.iter().zip(w).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let from = at.saturating_sub(60);
        let b = s.as_bytes();
        let to = (at + 240).min(b.len());
        String::from_utf8_lossy(&b[from.min(b.len())..to]).to_string()
    };
    format!(
        "{what}: observed differs from expected at byte {at}\n  observed: ..{}\n  expected: ..{}",
        cut(got),
        cut(want)
    )
}

pub struct Opts {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub repo: String,
    pub evidence: String,
    pub replays: String,
}

fn case_seed(id: &str, seed: u64, idx: u64) -> u64 {
    let mut s = hash(id.as_bytes()) ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut s);
    s ^= idx.wrapping_mul(0xD129_0F2C_9E5B_1A2D);
    splitmix(&mut s)
}

pub fn run_case(
    check: &Check,
    seed: u64,
    idx: u64,
    thorough: bool,
    st: &mut Stats,
    env: (&Dict, &Files, &[api::Api]),
) -> CaseResult {
    run_choices(check, Rng::new(case_seed(check.id, seed, idx)), idx, thorough, st, env).0
}

fn run_choices(
    check: &Check,
    rng: Rng,
    idx: u64,
    thorough: bool,
    st: &mut Stats,
    env: (&Dict, &Files, &[api::Api]),
) -> (CaseResult, Vec<u64>) {
    let mut ctx = Ctx {
        idx,
        thorough,
        rng,
        st,
        dict: env.0,
        files: env.1,
        apis: env.2,
    };
    let r = (check.case)(&mut ctx);
    (r, ctx.rng.drawn())
}

/// Cases found by search, not by number: SEARCH + number of the worker.
const SEARCH: u64 = 1 << 40;

/// Checks whose observations span many cases or depend on time: numbered cases only.
fn searches(check: &Check) -> bool {
    !check.cross_process && !matches!(check.id, "C02" | "C04" | "C26")
}

fn limit(resource: i32, soft: u64, hard: u64) {
    extern "C" {
        fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
    }
    let lim = [soft, hard];
    unsafe {
        setrlimit(resource, &lim);
    }
}

/// `worker ID SEED TIER START STEP COUNT DEADLINE_S OUT REPO`
pub fn worker(args: &[String]) {
    let id = &args[0];
    let seed: u64 = args[1].parse().unwrap();
    let thorough = args[2] == "thorough";
    let start: u64 = args[3].parse().unwrap();
    let step: u64 = args[4].parse().unwrap();
    let count: u64 = args[5].parse().unwrap();
    let deadline = Duration::from_secs(args[6].parse().unwrap());
    let out = &args[7];
    let repo = &args[8];
    let cpu_limit: u64 = args.get(9).map(|v| v.parse().unwrap()).unwrap_or(0);
    if std::env::var_os("MVD_FLAVOUR").is_none() {
        limit(9, 3 << 30, 3 << 30); // address space
    }
    limit(4, 0, 0); // no core files
    if cpu_limit > 0 {
        // SIGXCPU tells a hang from a process ended from outside
        limit(0, cpu_limit, cpu_limit + 10);
    }
    api::install_panic_hook();
    let check = checks::get(id);
    let dict = Dict::load(&format!("{repo}/src"));
    let files = Files::load(repo);
    let apis = api::table();
    let mut st = Stats::default();
    let mut slot = std::fs::File::create(format!("{out}.slot")).unwrap();
    let t0 = Instant::now();
    let mut viols = 0;
    let mut done = 0u64;
    let mut idx = start;
    let mut timed_out = false;
    let mut mark = |idx: u64, n: u64| {
        slot.seek(SeekFrom::Start(0)).unwrap();
        let mut b = idx.to_le_bytes().to_vec();
        b.extend_from_slice(&n.to_le_bytes());
        slot.write_all(&b).unwrap();
    };
    let mut seen = crate::cov::Seen::new();
    let verdict = |r: Result<CaseResult, String>, idx: u64| -> CaseResult {
        match r {
            Ok(r) => r,
            Err(e) if e.rsplit(" at ").next().is_some_and(|l| l.starts_with('/')) => Err(Viol {
                what: format!("panic in a call: {e}"),
                input: vec![],
            }),
            Err(e) => {
                // A panic of the harness itself: never a violation.
                eprintln!("harness error in case {idx}: {e}");
                std::fs::write(format!("{out}.err"), format!("case {idx}: {e}")).ok();
                std::process::exit(3);
            }
        }
    };
    let mut report = |v: Viol, idx: u64, g: Option<&Genome>| -> bool {
        std::fs::write(format!("{out}.viol{viols}.bin"), &v.input).unwrap();
        std::fs::write(format!("{out}.viol{viols}.txt"), format!("{idx}\n{}", v.what)).unwrap();
        if let Some(g) = g {
            std::fs::write(format!("{out}.viol{viols}.genome"), g.to_bytes()).unwrap();
        }
        viols += 1;
        viols >= 3
    };
    if let Ok(path) = std::env::var("MVD_GENOME") {
        // one case of a search again
        let g = std::fs::read(path).ok().and_then(|b| Genome::from_bytes(&b)).expect("genome");
        mark(start, 0);
        let r = api::guard(|| run_choices(&check, g.rng(), g.idx, thorough, &mut st, (&dict, &files, &apis)).0);
        if let Err(v) = verdict(r, start) {
            report(v, start, Some(&g));
        }
        write_stats(&st, 1, false, out);
        return;
    }
    let mut enough = false;
    let search = searches(&check) && crate::cov::edges() > 0 && step > 1;
    // leave some time for the search
    let numbered = if search && thorough { deadline * 2 / 3 } else { deadline };
    // only the search, for so many seconds (to look for wrong alarms, and for more)
    let only: Option<u64> = std::env::var("MVD_SEARCH_S").ok().and_then(|v| v.parse().ok());
    while idx < count && !enough && only.is_none() {
        if t0.elapsed() > numbered {
            timed_out = true;
            break;
        }
        mark(idx, 0);
        let r = api::guard(|| run_case(&check, seed, idx, thorough, &mut st, (&dict, &files, &apis)));
        done += 1;
        if let Err(v) = verdict(r, idx) {
            enough = report(v, idx, None);
        }
        idx += step;
    }
    seen.update();
    if search && !enough {
        let me = SEARCH + start % step;
        let rounds = count / step / if thorough { 1 } else { 3 };
        // what is found may be slow: no more time than the numbered cases took
        let (t1, most) = (Instant::now(), t0.elapsed().max(Duration::from_secs(2)));
        let (most, rounds, deadline) = match only {
            Some(s) => (Duration::from_secs(2 * s), u64::MAX, Duration::from_secs(s)),
            None => (most, rounds, deadline),
        };
        let mut search = Search::new(case_seed(check.id, seed, me), &dict.ints);
        let mut file = std::fs::File::create(format!("{out}.genome")).unwrap();
        for n in 0..rounds {
            if t1.elapsed() > most / if thorough { 1 } else { 2 } || t0.elapsed() > deadline {
                break;
            }
            let g = search.next();
            let b = g.to_bytes();
            file.seek(SeekFrom::Start(0)).unwrap();
            file.write_all(&b).unwrap();
            mark(me, n + 1);
            crate::cov::clear();
            let r = api::guard(|| run_choices(&check, g.rng(), g.idx, thorough, &mut st, (&dict, &files, &apis)));
            done += 1;
            st.ev("search.cases", 1);
            match r {
                Ok((Ok(()), choices)) => search.learn(Genome { choices, ..g }),
                Ok((r, _)) => enough = report(r.unwrap_err(), me, Some(&g)),
                Err(e) => {
                    if let Err(v) = verdict(Err(e), me) {
                        enough = report(v, me, Some(&g));
                    }
                }
            }
            if enough {
                break;
            }
        }
        st.ev("search.kept", search.kept);
        for (a, b) in seen.map.iter_mut().zip(&search.seen.map) {
            *a |= *b;
        }
    }
    st.edges = seen.map.iter().map(|m| (*m != 0) as u8).collect();
    write_stats(&st, done, timed_out, out);
}

fn write_stats(st: &Stats, done: u64, timed_out: bool, out: &str) {
    let mut o = String::new();
    o.push_str(&format!("done {done}\n"));
    o.push_str(&format!("timeout {}\n", timed_out as u8));
    for (k, v) in &st.counters {
        o.push_str(&format!("ev {v} {k}\n"));
    }
    for (k, v) in &st.maxima {
        o.push_str(&format!("max {v} {k}\n"));
    }
    for s in &st.samples {
        o.push_str(&format!("sample {}\n", s.replace('\n', " ")));
    }
    for h in &st.inputs {
        o.push_str(&format!("in {h:x}\n"));
    }
    if !st.edges.is_empty() {
        let s: String = st.edges.iter().map(|e| (b'0' + e) as char).collect();
        o.push_str(&format!("edges {s}\n"));
    }
    for ((i, f), (r, idx)) in &st.log {
        o.push_str(&format!("log {i:x} {f} {r:x} {idx}\n"));
    }
    std::fs::write(format!("{out}.stats"), o).unwrap();
}

pub fn emit(seed: u64, count: u64, dir: &str, repo: &str) {
    api::install_panic_hook();
    let dict = Dict::load(&format!("{repo}/src"));
    let files = Files::load(repo);
    let apis = api::table();
    let mut st = Stats::default();
    for idx in 0..count {
        let mut ctx = Ctx {
            thorough: false,
            idx,
            rng: Rng::new(case_seed("C04.small", seed, idx)),
            st: &mut st,
            dict: &dict,
            files: &files,
            apis: &apis,
        };
        let d = checks::small_input(&mut ctx);
        std::fs::write(format!("{dir}/{idx}.in"), d).expect("write");
    }
}

pub fn interpret(args: &[String]) {
    let dir = &args[0];
    let start: u64 = args[1].parse().unwrap();
    let step: u64 = args[2].parse().unwrap();
    let deadline = Duration::from_secs(args[3].parse().unwrap());
    let out = &args[4];
    api::install_panic_hook();
    let dict = Dict::default();
    let files = Files { demos: vec![] };
    let apis = api::table();
    let mut st = Stats::default();
    let t0 = Instant::now();
    let mut idx = start;
    let mut done = 0;
    while let Ok(d) = std::fs::read(format!("{dir}/{idx}.in")) {
        if t0.elapsed() > deadline {
            break;
        }
        std::fs::write(format!("{out}.slot"), idx.to_string()).unwrap();
        let mut ctx = Ctx {
            thorough: false,
            idx,
            rng: Rng::new(idx),
            st: &mut st,
            dict: &dict,
            files: &files,
            apis: &apis,
        };
        let d: Box<[u8]> = d.into_boxed_slice();
        // one input in four on shared data
        let threads = if (idx / step) % 4 == 0 { 2 } else { 0 };
        if let Err(v) = checks::observe_all(&mut ctx, &d, threads) {
            std::fs::write(format!("{out}.viol0.txt"), v.what).unwrap();
            break;
        }
        done += 1;
        idx += step;
    }
    write_stats(&st, done, false, out);
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// The case a worker is at, and where in a search.
fn read_slot(out: &str) -> Option<(u64, u64)> {
    let mut f = std::fs::File::open(format!("{out}.slot")).ok()?;
    let mut b = [0u8; 16];
    f.read_exact(&mut b).ok()?;
    Some((u64::from_le_bytes(b[..8].try_into().ok()?), u64::from_le_bytes(b[8..].try_into().ok()?)))
}

const HANG_CPU_S: u64 = 40;

enum Confirm {
    Crash(String),
    Hang,
    Clean,
    Violation,
}

fn confirm(o: &Opts, exe: &std::path::Path, idx: u64, out: &str) -> Confirm {
    let st = Command::new(exe)
        .args([
            "worker",
            &o.id,
            &o.seed.to_string(),
            if o.thorough { "thorough" } else { "quick" },
            &idx.to_string(),
            "1",
            &(idx + 1).to_string(),
            "100000",
            out,
            &o.repo,
            &HANG_CPU_S.to_string(),
        ])
        .envs(std::path::Path::new(&format!("{out}.genome")).exists().then(|| ("MVD_GENOME", format!("{out}.genome"))))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output();
    let Ok(r) = st else {
        return Confirm::Clean;
    };
    use std::os::unix::process::ExitStatusExt;
    let err = String::from_utf8_lossy(&r.stderr).to_string();
    if r.status.success() {
        if std::path::Path::new(&format!("{out}.viol0.txt")).exists() {
            return Confirm::Violation;
        }
        if !std::path::Path::new(&format!("{out}.stats")).exists() {
            return Confirm::Crash("the process exits, without a panic".to_string());
        }
        return Confirm::Clean;
    }
    match r.status.signal() {
        Some(24) => Confirm::Hang, // SIGXCPU
        Some(9) => Confirm::Clean, // ended from outside: inconclusive
        Some(s) => Confirm::Crash(format!("signal {s}: {}", tail(&err))),
        None => Confirm::Crash(format!("exit {:?}: {}", r.status.code(), tail(&err))),
    }
}

fn tail(s: &str) -> String {
    let v: Vec<&str> = s.lines().rev().take(6).collect();
    v.into_iter().rev().collect::<Vec<_>>().join(" | ")
}

fn sanitizer_report(err: &str) -> Option<String> {
    let at = ["ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer"]
        .iter()
        .filter_map(|m| err.find(m))
        .min()?;
    let r: Vec<&str> = err[at..].lines().take(40).collect();
    let first = r.first().copied().unwrap_or("");
    // resources, not the property
    if first.contains("out of memory") || first.contains("allocation-size-too-big") || first.contains("failed to allocate") {
        return None;
    }
    Some(r.join("\n"))
}

pub struct Found {
    pub idx: u64,
    pub what: String,
    pub input: Vec<u8>,
    /// the choices of a case which was found by search
    pub genome: Option<Vec<u8>>,
}

/// Runs one case again, in every process of the check; 1 if the violation shows again.
pub fn replay(id: &str, repo: &str, out: &str, w: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let mut log: BTreeMap<(String, String), String> = BTreeMap::new();
    let mut bad = false;
    for (pass, env) in passes(&checks::get(id), repo).iter().enumerate() {
        let mut w = w.to_vec();
        w[7] = format!("{out}.p{pass}");
        let st = Command::new(&exe)
            .arg("worker")
            .args(&w)
            .envs(env.iter().map(|(k, v)| (k, v)))
            .status()
            .expect("worker");
        if !st.success() {
            println!("process {pass} of case {} ended: {st}", w[3]);
            bad = true;
        }
        if let Ok(t) = std::fs::read_to_string(format!("{}.viol0.txt", w[7])) {
            println!("{t}");
            bad = true;
        }
        let stats = std::fs::read_to_string(format!("{}.stats", w[7])).unwrap_or_default();
        for l in stats.lines().filter_map(|l| l.strip_prefix("log ")) {
            let f: Vec<&str> = l.split(' ').collect();
            let key = (f[0].to_string(), f[1].to_string());
            if log.get(&key).is_some_and(|v| v != f[2]) {
                let name = api::table()[f[1].parse::<usize>().unwrap_or(0)].name;
                println!("{name}: process {pass} returned another result for the input with hash {} than the processes before", f[0]);
                bad = true;
            }
            log.entry(key).or_insert(f[2].to_string());
        }
    }
    if !bad {
        println!("case {} of {id}: no violation", w[3]);
    }
    bad as i32
}

/// The processes of a check: their number, and the environment of each.
pub fn passes(check: &Check, repo: &str) -> Vec<Vec<(String, String)>> {
    if !check.cross_process {
        return vec![vec![]];
    }
    let envs: [&[(&str, &str)]; 3] = [
        &[("TZ", "UTC"), ("LANG", "C")],
        &[("TZ", "Pacific/Auckland"), ("LANG", "tr_TR.UTF-8"), ("RUST_BACKTRACE", "1"), ("HOME", "/nonexistent")],
        &[("TZ", "America/Caracas"), ("LC_ALL", "ja_JP.UTF-8"), ("COLUMNS", "3"), ("RUST_LOG", "trace")],
    ];
    // whatever text of the tree could be the name of a variable
    let names: Vec<String> = Dict::load(&format!("{repo}/src"))
        .strs
        .iter()
        .filter(|s| s.len() > 1 && s.iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || *c == b'_'))
        .filter_map(|s| String::from_utf8(s.clone()).ok())
        .filter(|s| s != "TZ" && s != "PATH" && !s.starts_with("LD_") && !s.starts_with("MVD_"))
        .collect();
    let mut out: Vec<Vec<(String, String)>> = vec![];
    for (i, e) in envs.iter().enumerate() {
        let mut v: Vec<(String, String)> = vec![("MVD_PASS".to_string(), i.to_string())];
        if i > 0 {
            v.extend(names.iter().map(|n| (n.clone(), i.to_string())));
        }
        v.extend(e.iter().map(|(k, x)| (k.to_string(), x.to_string())));
        out.push(v);
    }
    out
}

/// Runs the cases of one check over the worker processes; returns the process exit code.
pub fn supervise(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let check = checks::get(&o.id);
    let exe = std::env::current_exe().unwrap();
    let n_workers: u64 = 8;
    let count = if o.thorough {
        check.thorough
    } else {
        check.quick
    };
    let deadline: u64 = if o.thorough { 420 } else { 150 };
    let mut found: Vec<Found> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut total = Stats::default();
    let mut done = 0u64;
    let mut processes = 0u64;
    let mut log: BTreeMap<(u64, u16), (u64, usize)> = BTreeMap::new();
    let mut log_events = 0u64;

    // Passes: checks whose property spans processes repeat the same cases under another environment.
    let passes = passes(&check, &o.repo);
    let cap = if check.cross_process { deadline / 2 } else { deadline };

    for (pass, env) in passes.iter().enumerate() {
        let mut pending: Vec<(u64, u64)> = (0..n_workers).map(|w| (w, w)).collect(); // (worker, start)
        let mut running: Vec<(u64, String, std::process::Child, (u64, u64), u64)> = vec![];
        let mut generation = 0;
        let mut hung = false;
        while !pending.is_empty() || !running.is_empty() {
            if hung {
                // enough is known; the other workers may take as long in the same trap
                for (_, _, c, _, _) in &mut running {
                    c.kill().ok();
                    c.wait().ok();
                }
                break;
            }
            while let Some((w, start)) = pending.pop() {
                generation += 1;
                let out = format!("{}/p{pass}w{w}g{generation}", o.out);
                let errf = std::fs::File::create(format!("{out}.stderr")).unwrap();
                let child = Command::new(&exe)
                    .args([
                        "worker",
                        &o.id,
                        &o.seed.to_string(),
                        if o.thorough { "thorough" } else { "quick" },
                        &start.to_string(),
                        &n_workers.to_string(),
                        &count.to_string(),
                        &cap.to_string(),
                        &out,
                        &o.repo,
                    ])
                    .envs(env.iter().map(|(k, v)| (k, v)))
                    .current_dir(if pass == 1 { o.out.as_str() } else { "." })
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(errf)
                    .spawn()
                    .expect("spawn worker");
                processes += 1;
                running.push((w, out, child, (u64::MAX, 0), 0));
            }
            std::thread::sleep(Duration::from_millis(20));
            let mut i = 0;
            while i < running.len() && !hung {
                let (w, out, child, last_idx, since) = &mut running[i];
                let at = read_slot(out).unwrap_or((u64::MAX, 0));
                let idx = at.0;
                let exited = child.try_wait().expect("wait");
                let mut crashed: Option<String> = None;
                if let Some(status) = exited {
                    use std::os::unix::process::ExitStatusExt;
                    if status.code() == Some(3) {
                        inconclusive.push(format!(
                            "harness error: {}",
                            std::fs::read_to_string(format!("{out}.err")).unwrap_or_default()
                        ));
                    } else if !status.success() {
                        crashed = Some(match status.signal() {
                            Some(s) => format!("worker ended by signal {s}"),
                            None => format!("worker exit code {:?}", status.code()),
                        });
                    } else if !std::path::Path::new(&format!("{out}.stats")).exists() {
                        crashed = Some("worker exited in the middle of a case".to_string());
                    }
                } else {
                    let ticks = cpu_ticks(child.id()).unwrap_or(0);
                    if at != *last_idx {
                        *last_idx = at;
                        *since = ticks;
                    } else if idx != u64::MAX && ticks.saturating_sub(*since) > HANG_CPU_S * 100 {
                        child.kill().ok();
                        child.wait().ok();
                        crashed = Some(format!(
                            "no answer after {HANG_CPU_S} s of processor time in one case"
                        ));
                    } else {
                        i += 1;
                        continue;
                    }
                    if crashed.is_none() {
                        i += 1;
                        continue;
                    }
                }
                let w = *w;
                let out = out.clone();
                running.remove(i);
                if let Some(what) = crashed {
                    // the report of a sanitizer needs no confirmation
                    let err = std::fs::read_to_string(format!("{out}.stderr")).unwrap_or_default();
                    if let Some(r) = sanitizer_report(&err) {
                        found.push(Found { idx, what: r, input: vec![], genome: None });
                        continue;
                    }
                    let cout = format!("{out}.confirm");
                    let genome = (idx >= SEARCH && idx != u64::MAX)
                        .then(|| std::fs::read(format!("{out}.genome")).unwrap_or_default());
                    if let Some(g) = &genome {
                        std::fs::write(format!("{cout}.genome"), g).ok();
                    }
                    match confirm(o, &exe, idx, &cout) {
                        Confirm::Crash(e) => found.push(Found {
                            idx,
                            what: format!("the process died in this case ({what}); again when run alone: {e}"),
                            input: vec![],
                            genome,
                        }),
                        Confirm::Hang => {
                            hung = true;
                            found.push(Found {
                                idx,
                                what: format!("the case does not end ({what}); again when run alone: more than {HANG_CPU_S} s of processor time"),
                                input: vec![],
                                genome,
                            })
                        }
                        Confirm::Violation => {
                            let what = std::fs::read_to_string(format!("{cout}.viol0.txt")).unwrap_or_default();
                            let input = std::fs::read(format!("{cout}.viol0.bin")).unwrap_or_default();
                            found.push(Found { idx, what, input, genome });
                        }
                        Confirm::Clean => inconclusive.push(format!(
                            "case {idx}: {what}, not reproduced when run alone"
                        )),
                    }
                    // go on after the offending case
                    if found.len() < 3 && inconclusive.len() < 8 && idx < SEARCH {
                        pending.push((w, idx + n_workers));
                    }
                    continue;
                }
                // collect
                for k in 0..3 {
                    if let Ok(t) = std::fs::read_to_string(format!("{out}.viol{k}.txt")) {
                        let (a, b) = t.split_once('\n').unwrap_or(("0", ""));
                        found.push(Found {
                            idx: a.parse().unwrap_or(0),
                            what: b.to_string(),
                            input: std::fs::read(format!("{out}.viol{k}.bin")).unwrap_or_default(),
                            genome: std::fs::read(format!("{out}.viol{k}.genome")).ok(),
                        });
                    }
                }
                let s = std::fs::read_to_string(format!("{out}.stats")).unwrap_or_default();
                for line in s.lines() {
                    let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
                    match k {
                        "done" => done += rest.parse::<u64>().unwrap_or(0),
                        "timeout" => {
                            if rest == "1" {
                                total.ev("workers_stopped_by_deadline", 1);
                            }
                        }
                        "ev" => {
                            let (n, name) = rest.split_once(' ').unwrap();
                            total.ev(name, n.parse().unwrap_or(0));
                        }
                        "max" => {
                            let (n, name) = rest.split_once(' ').unwrap();
                            total.max(name, n.parse().unwrap_or(0));
                        }
                        "sample" => {
                            if total.samples.len() < 6 {
                                total.samples.push(rest.to_string());
                            }
                        }
                        "edges" => {
                            total.edges.resize(rest.len(), 0);
                            for (e, c) in total.edges.iter_mut().zip(rest.bytes()) {
                                *e |= c - b'0';
                            }
                        }
                        "in" => {
                            total.inputs.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                        }
                        "log" => {
                            log_events += 1;
                            let f: Vec<&str> = rest.split(' ').collect();
                            let key = (
                                u64::from_str_radix(f[0], 16).unwrap(),
                                f[1].parse::<u16>().unwrap(),
                            );
                            let val = u64::from_str_radix(f[2], 16).unwrap();
                            match log.get(&key) {
                                Some((v, _)) if *v != val => {
                                    let name = api::table()[key.1 as usize].name;
                                    found.push(Found {
                                        idx: f.get(3).and_then(|v| v.parse().ok()).unwrap_or(0),
                                        what: format!("{name}: two processes returned different results for the same input (input hash {:x}); first differing pass {pass}", key.0),
                                        input: vec![],
                                        genome: None,
                                    });
                                }
                                Some((_, n)) => {
                                    let n = *n + 1;
                                    log.insert(key, (val, n));
                                }
                                None => {
                                    log.insert(key, (val, 1));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if found.len() >= 3 || hung {
            break;
        }
    }

    if check.cross_process {
        total.ev("cross_process_log_events", log_events);
        total.ev("cross_process_keys", log.len() as u64);
        total.ev(
            "cross_process_keys_seen_by_all_processes",
            log.values().filter(|v| v.1 >= passes.len()).count() as u64,
        );
    }
    total.ev("worker_processes", processes);
    if !total.edges.is_empty() {
        let n = total.edges.iter().filter(|e| **e != 0).count();
        total.max("code_edges_taken", n as u64);
        total.max("code_edges", total.edges.len() as u64);
    }

    // the monitors must have observed what they are there for
    for k in check.must_observe {
        if total.counters.get(*k).copied().unwrap_or(0) == 0 && found.is_empty() {
            inconclusive.push(format!("no event of kind {k:?} was observed"));
        }
    }

    found.sort_by_key(|f| f.idx);
    found.dedup_by_key(|f| f.idx);
    let mut code = 0;
    let mut replays = vec![];
    for f in found.iter().take(3) {
        let dir = format!("{}/{}", o.replays, o.id);
        std::fs::create_dir_all(&dir).ok();
        let base = format!("{dir}/seed{}-case{}", o.seed, f.idx);
        std::fs::write(format!("{base}.bin"), &f.input).ok();
        let case = match &f.genome {
            Some(g) => {
                std::fs::write(format!("{base}.genome"), g).ok();
                format!("{base}.genome")
            }
            None => f.idx.to_string(),
        };
        std::fs::write(
            format!("{base}.txt"),
            format!(
                "property {}\n{}\n\ninput ({} bytes): {base}.bin\nfirst bytes: {}\n\nreplay: {}bash /verif/run.sh replay {} {} {} {}\n",
                o.id,
                f.what,
                f.input.len(),
                esc(&f.input[..f.input.len().min(400)]),
                std::env::var("MVD_FLAVOUR").map(|v| format!("MVD_FLAVOUR={v} ")).unwrap_or_default(),
                o.id,
                o.seed,
                if o.thorough { "thorough" } else { "quick" },
                case
            ),
        )
        .ok();
        println!("{}", f.what);
        println!("VIOLATION property={} replay={base}.txt", o.id);
        replays.push(format!("{base}.txt"));
        code = 1;
    }

    write_evidence(
        o,
        &check,
        &total,
        done,
        &inconclusive,
        found.len(),
        t0.elapsed().as_secs_f64(),
    );
    println!(
        "{}: {} cases, {} distinct non-trivial inputs, {} comparisons, {} api calls, {:.1} s, {} violation(s), {} inconclusive",
        o.id,
        done,
        total.inputs.len(),
        total.counters.get("oracle_comparisons").unwrap_or(&0),
        total.counters.get("api_calls").unwrap_or(&0),
        t0.elapsed().as_secs_f64(),
        found.len(),
        inconclusive.len()
    );
    for i in &inconclusive {
        println!("INCONCLUSIVE {i}");
    }
    if code == 0 && !inconclusive.is_empty() && inconclusive.iter().any(|i| i.starts_with("harness error") || i.starts_with("no event")) {
        // The check itself failed to observe: neither held nor violated.
        return 2;
    }
    code
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(v: &[String]) -> String {
    format!(
        "[{}]",
        v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    )
}

fn write_evidence(
    o: &Opts,
    check: &Check,
    t: &Stats,
    done: u64,
    inconclusive: &[String],
    violations: usize,
    wall: f64,
) {
    let map = |m: &BTreeMap<String, u64>| {
        format!(
            "{{{}}}",
            m.iter()
                .map(|(k, v)| format!("{}: {v}", jstr(k)))
                .collect::<Vec<_>>()
                .join(", ")
        )
    };
    let assumptions: Vec<String> = check.assumptions.iter().map(|s| s.to_string()).collect();
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {done},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"observed_events\": {},\n  \"observed_maxima\": {},\n  \"inconclusive\": {},\n  \"exhaustive\": false\n }},\n \"assumptions\": {},\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        jstr(&o.id),
        jstr(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        t.inputs.len(),
        jstr(check.rule),
        jlist(&t.samples),
        map(&t.counters),
        map(&t.maxima),
        jlist(inconclusive),
        jlist(&assumptions),
    );
    std::fs::write(&o.evidence, j).expect("write evidence");
}
