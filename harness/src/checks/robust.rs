//! C01 totality, C02 bounded resources, C03 determinism and purity; C04 workload for sanitizers.

use super::Check;
use crate::alloc;
use crate::api::{guard, NO_CALL};
use crate::gen::{self, Cfg, WorldCfg};
use crate::hostile::{hostile, small_cfg};
use crate::rng::{hash, Rng};
use crate::sup::{CaseResult, Ctx};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use mvdparser::all as m;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            case: c01,
            quick: 250_000,
            thorough: 5_000_000,
            rule: "hostile inputs (random bytes, token soup, cut markers, damaged and truncated demos, windows of recorded matches) through every public function, and extreme typed values through the conversions; an input counts when it is not empty and distinct by content hash",
            assumptions: &["inputs up to about 100 KB", "built with overflow checks and debug assertions"],
            must_observe: &["class.random_bytes", "class.token_soup", "class.damaged_demo", "class.truncated_demo", "class.recorded_match_window", "class.odd_values", "class.block_chain", "result.ok", "result.err", "typed_cases", "typed.many_players"],
            cross_process: false,
        },
        Check {
            id: "C02",
            case: c02,
            quick: 28_000,
            thorough: 700_000,
            rule: "hostile and amplifying inputs; heap use and allocation count of every call measured by the counting allocator, processor time by the supervisor; an input counts when it is not empty and distinct by content hash",
            assumptions: &["inputs up to about 300 KB, in bulk 2 (thorough: 6) MB", "bounds: peak heap 2 MiB + 400 x size (8 MiB + 6000 x size where a JSON document becomes typed records); allocations 10000 + 60 x size; nothing left allocated by each of 20 equal calls and no more than 4 MiB by all calls of a process; 60 s of processor time per case"],
            must_observe: &["class.damaged_demo", "class.amplifier", "class.block_chain", "class.odd_values", "class.bulk", "calls_measured"],
            cross_process: false,
        },
        Check {
            id: "C03",
            case: c03,
            quick: 2_800,
            thorough: 70_000,
            rule: "every public function called repeatedly on the same content: other order, other addresses, reused buffers, several threads, several processes under other environments; an input counts when it is not empty and distinct by content hash",
            assumptions: &["environments differ in TZ, locale, HOME; hash seeds differ per map and per process"],
            must_observe: &["repeat.order", "repeat.moved", "repeat.reused_buffer", "repeat.threads", "variant.same_size_other_result", "variant.other_size_other_result", "input.ktx", "input.no_ktx"],
            cross_process: true,
        },
        Check {
            id: "C04",
            case: c04,
            quick: 5_000,
            thorough: 250_000,
            rule: "hostile and generated inputs in allocations of exactly their size through every public function, alone and from several threads on shared data, under the sanitizer of the build; an input counts when it is not empty and distinct by content hash",
            assumptions: &[],
            must_observe: &["calls_in_threads", "calls"],
            cross_process: false,
        },
    ]
}

fn typed_case(ctx: &mut Ctx) -> CaseResult {
    let ex = |r: &mut Rng| -> i32 {
        match r.below(6) {
            0 => i32::MAX,
            1 => i32::MIN,
            2 => 0,
            3 => -1,
            4 => r.next() as i32,
            _ => r.below(300) as i32,
        }
    };
    let n = match ctx.rng.below(4000) {
        0 => ctx.rng.range(65_534, 65_538),
        1..=40 => {
            let b = *ctx.rng.pick(&[128usize, 256, 256, 512]);
            ctx.rng.range(b - 1, b + 1)
        }
        _ => ctx.rng.below(7),
    };
    if n > 60 {
        ctx.ev("typed.many_players");
    }
    let teams = ["", "red", "RED", "ré", "\u{1F3AE}"];
    let teams = if n > 60 { &teams[..1 + ctx.rng.below(2)] } else { &teams[..] };
    let players: Vec<m::Player> = (0..n)
        .map(|_| m::Player {
            name: "p".repeat(ctx.rng.below(3)),
            team: ctx.rng.pick(teams).to_string(),
            color: [ctx.rng.byte(), ctx.rng.byte() & 1],
            frags: ex(&mut ctx.rng),
            ping: match ctx.rng.below(3) {
                0 => u32::MAX,
                1 => ctx.rng.next() as u32,
                _ => 12,
            },
            is_bot: false,
            auth_username: None,
            auth_cc: None,
        })
        .collect();
    let desc = format!("{players:?}");
    ctx.lib(desc.as_bytes(), "teams_from_players", || m::teams_from_players(&players))?;
    ctx.lib(desc.as_bytes(), "Team::from", || m::Team::from(players.as_slice()))?;
    let ks: Vec<ktxstats::v3::Player> = (0..n)
        .map(|_| ktxstats::v3::Player {
            top_color: ex(&mut ctx.rng),
            bottom_color: ex(&mut ctx.rng),
            ping: ex(&mut ctx.rng),
            team: ctx.rng.pick(teams).to_string(),
            stats: ktxstats::v3::PlayerStats {
                frags: ex(&mut ctx.rng),
                ..Default::default()
            },
            ..Default::default()
        })
        .collect();
    let stats = ktxstats::v3::KtxstatsV3 {
        players: ks,
        port: ex(&mut ctx.rng) as u32,
        ..Default::default()
    };
    let desc = format!("{stats:?}");
    ctx.lib(desc.as_bytes(), "players_from_ktxstats", || m::players_from_ktxstats(&stats).is_ok())?;
    ctx.lib(desc.as_bytes(), "teams_from_ktxstats", || m::teams_from_ktxstats(&stats).is_ok())?;
    ctx.lib(desc.as_bytes(), "Server::from", || m::Server::from(&stats))?;
    let ci = m::Clientinfo {
        name: None,
        topcolor: Some(ex(&mut ctx.rng)),
        bottomcolor: Some(ex(&mut ctx.rng)),
        spectator: Some(ex(&mut ctx.rng)),
        bot: Some(ex(&mut ctx.rng)),
        ..Default::default()
    };
    let desc = format!("{ci:?}");
    ctx.lib(desc.as_bytes(), "Client::from", || m::Client::from(&ci))?;
    ctx.ev("typed_cases");
    Ok(())
}

fn c01(ctx: &mut Ctx) -> CaseResult {
    if ctx.rng.chance(1, 8) {
        typed_case(ctx)?;
    }
    let h = hostile(ctx);
    let data: Box<[u8]> = h.data.into_boxed_slice();
    if !data.is_empty() {
        ctx.nontrivial(&data);
    }
    ctx.ev(h.class);
    let (mut ok, mut err) = (0, 0);
    for a in ctx.apis {
        let r = a.run(&data);
        ctx.st.ev("api_calls", 1);
        ctx.st.ev("oracle_comparisons", 1);
        if let Some(p) = r.strip_prefix(NO_CALL) {
            return Err(ctx.viol(&data, format!("{} panicked: {p}", a.name)));
        }
        if r.starts_with("Err(") {
            err += 1;
        } else {
            ok += 1;
        }
    }
    ctx.lib(&data, "Debug of the prints", || m::prints(&data).iter().map(|p| format!("{p:?}").len()).sum::<usize>())?;
    ctx.evn("result.ok", ok);
    ctx.evn("result.err", err);
    ctx.sample(|| format!("{} of {} bytes: {ok} functions returned a value, {err} an error, none panicked", h.class, data.len()));
    Ok(())
}

/// Inputs for which a little data asks for a lot of work.
fn amplifier(ctx: &mut Ctx) -> Vec<u8> {
    let max = if ctx.thorough { 300_000 } else { 60_000 };
    let n = ctx.rng.range(1000, max);
    let rep = |s: &[u8], n: usize| -> Vec<u8> { s.iter().copied().cycle().take(n).collect() };
    let mut head = vec![];
    if ctx.rng.chance(1, 2) {
        let c = small_cfg(&mut ctx.rng);
        head = gen::gen_match(&mut ctx.rng, ctx.dict, &c).demo.encode();
    }
    let body: Vec<u8> = match ctx.rng.below(16) {
        0 => rep(&[0x08, 0x02, b'a', 0, 0x08, 0x02, b'b', 0], n),
        1 => {
            let mut f = vec![0, 6];
            f.extend((n as u32).to_le_bytes());
            f.extend(rep(&[0x08, 0x02, b'a', 0, 0x08, 0x02, b'b', 0], n));
            f
        }
        2 => rep(b"\x00\x06\x0a\x00\x00\x00\x08\x01x died\n\x00", n),
        3 => rep(b"\x00\x06\x26\x00\x00\x00\x08\x01x was telefragged by his teammate\n\x00\x0e\x01", n),
        4 => rep(&[255, 7], n),
        5 => rep(&[255, 6, 0, 0, 0, 0], n),
        6 => {
            // huge declared sizes
            let v = *ctx.rng.pick(&[0x7fff_ffffu32, 0xffff_ffff, 0x4000_0000, 0x0fff_ffff]);
            let mut f = vec![0, *ctx.rng.pick(&[1u8, 3, 4, 5, 6])];
            if f[1] == 3 {
                f.extend([0; 4]);
            }
            f.extend(v.to_le_bytes());
            f.extend(v.to_le_bytes());
            f.extend([3, 0, 1, 0]);
            f.extend(b"{\"version\": ");
            f.extend(rep(b"1", n / 8));
            f
        }
        7 => {
            // many blocks
            let mut o = vec![];
            let mut first = true;
            while o.len() < n {
                let body: &[u8] = if first { b"{\"version\": 3, \"players\": [" } else { b"{}," };
                first = false;
                let mut b = vec![];
                crate::ktx::block_frame(1, body).encode(&mut b);
                o.extend(b);
            }
            o
        }
        8 => {
            let mut j = b"{\"version\": 3, \"players\": [{}".to_vec();
            while j.len() < n.min(60_000) {
                j.extend(b",{}");
            }
            j.extend(b"]}");
            let mut b = vec![];
            crate::ktx::block_frame(0, &j).encode(&mut b);
            b
        }
        9 => {
            // deep nesting
            let mut j = b"{\"version\": 3, \"players\": ".to_vec();
            j.extend(rep(b"[", n.min(100_000)));
            let mut b = vec![];
            crate::ktx::block_frame(0, &j).encode(&mut b);
            b
        }
        10 => {
            let mut o = b"\x09cmd spawn".to_vec();
            o.extend(rep(b"\x00\\name\\a", n));
            o
        }
        11 => rep(b"\\", n),
        12 => {
            let mut o = b"\x00\x06\x00\x10\x00\x00fullserverinfo \"".to_vec();
            o.extend(rep(b"\\a\\b", 1100));
            o.push(b'"');
            o
        }
        13 => rep(b"\x08\x02matchdate: ", n),
        14 => {
            let mut f = vec![0, 6];
            f.extend((n as u32).to_le_bytes());
            f.extend(rep(&[36, 0, 1, 0, 53, 0, 0], n));
            f
        }
        _ => rep(b"flag \x08\x02flag\n\x00", n),
    };
    head.extend(body);
    head
}

/// Bytes left allocated by all calls of this process.
static KEPT: AtomicI64 = AtomicI64::new(0);

/// A few megabytes of the smallest units of work. Linear time is a fraction of a second; work
/// which grows with the square of the input does not end within the limit of a case.
fn bulk(ctx: &mut Ctx) -> Vec<u8> {
    let n = if ctx.thorough { 6_000_000 } else { 2_000_000 };
    let rep = |s: &[u8]| -> Vec<u8> { s.iter().copied().cycle().take(n).collect() };
    let one_frame = |s: &[u8]| -> Vec<u8> {
        let mut f = vec![0, 6];
        f.extend((n as u32).to_le_bytes());
        f.extend(rep(s));
        f
    };
    match ctx.rng.below(14) {
        0 => rep(&[0, 6, 0, 0, 0, 0]),
        1 => rep(&[255, 7]),
        2 => rep(&[1, 7, 0, 6, 1, 0, 0, 0, 1]),
        3 => rep(b"\x00\x06\x0a\x00\x00\x00\x08\x01x died\n\x00"),
        4 => rep(b"\x00\x06\x26\x00\x00\x00\x08\x01x was telefragged by his teammate\n\x00\x0e\x01"),
        5 => one_frame(b"\x08\x02a\x00\x08\x02b\x00"),
        6 => one_frame(&[36, 0, 1, 0, 53, 0, 0]),
        7 => rep(b"\x00\x06\x11\x00\x00\x00\x08\x02x's flag is ok\x00"),
        8 => rep(b"\x05\x06\x10\x00\x00\x00\x08\x02matchdate: 2\n\x00"),
        9 => rep(b"\x00\x06\x15\x00\x00\x00\x08\x03The match is over\n\x00"),
        10 => rep(b"\x00\x04status\x00Standby\x00"),
        11 => rep(b"\x09cmd spawn\x00\\name\\a\x00"),
        12 => rep(b"{\"version\": "),
        _ => rep(&[0]),
    }
}

fn c02(ctx: &mut Ctx) -> CaseResult {
    let (data, class) = if ctx.idx % if ctx.thorough { 2000 } else { 350 } == 9 {
        (bulk(ctx), "class.bulk")
    } else if ctx.rng.chance(1, 3) {
        (amplifier(ctx), "class.amplifier")
    } else {
        let h = hostile(ctx);
        (h.data, h.class)
    };
    ctx.ev(class);
    if !data.is_empty() {
        ctx.nontrivial(&data);
    }
    let len = data.len() as u64;
    let mut worst = (0u64, "");
    for a in ctx.apis {
        ctx.st.ev("api_calls", 1);
        ctx.st.ev("calls_measured", 1);
        ctx.st.ev("oracle_comparisons", 3);
        let (r, u) = alloc::measure(|| guard(|| (a.call)(&data).len()));
        // the canonical rendering of the result is part of what was measured
        let rendered = *r.as_ref().unwrap_or(&0) as u64;
        let bound = if a.ktx {
            (8 << 20) + 6000 * len + 4 * rendered
        } else {
            (2 << 20) + 400 * len + 4 * rendered
        };
        if u.peak > bound {
            return Err(ctx.viol(
                &data,
                format!("{}: {} bytes of heap for an input of {len} bytes (bound {bound}); largest allocation {}", a.name, u.peak, u.largest),
            ));
        }
        let cbound = 10_000 + 60 * len;
        if u.count > cbound {
            return Err(ctx.viol(
                &data,
                format!("{}: {} allocations for an input of {len} bytes (bound {cbound})", a.name, u.count),
            ));
        }
        if r.is_ok() && u.left > 1 << 20 {
            return Err(ctx.viol(
                &data,
                format!("{}: {} bytes still allocated after the call", a.name, u.left),
            ));
        }
        if r.is_ok() && u.left > 0 {
            // set up once, or kept by every call?
            ctx.ev("calls_which_left_memory");
            let mut each = vec![];
            for _ in 0..20 {
                let (_, u) = alloc::measure(|| guard(|| (a.call)(&data).len()));
                each.push(u.left);
                if u.left <= 0 {
                    break;
                }
            }
            if each.iter().all(|l| *l > 0) {
                return Err(ctx.viol(
                    &data,
                    format!("{}: every call leaves memory allocated; 20 more calls on the same input left {each:?} bytes", a.name),
                ));
            }
        }
        if r.is_ok() {
            let kept = KEPT.fetch_add(u.left, Relaxed) + u.left;
            ctx.st.max("bytes_kept_over_all_calls_of_a_process", kept.max(0) as u64);
            if kept > 4 << 20 {
                return Err(ctx.viol(
                    &data,
                    format!("{}: the calls on the inputs so far have left {kept} bytes allocated", a.name),
                ));
            }
        }
        if len > 1000 {
            let ratio = u.peak / len;
            ctx.st.max(if a.ktx { "peak_heap_per_input_byte.ktx" } else { "peak_heap_per_input_byte" }, ratio);
            ctx.st.max("allocations_per_input_byte", u.count / len);
            if ratio > worst.0 {
                worst = (ratio, a.name);
            }
        }
        ctx.st.max("largest_input", len);
    }
    ctx.sample(|| format!("{class} of {len} bytes: worst peak {} bytes of heap per input byte ({})", worst.0, worst.1));
    Ok(())
}

fn tie_match(ctx: &mut Ctx) -> (Vec<u8>, bool) {
    let ktx = ctx.rng.chance(1, 2);
    let c = Cfg {
        world: WorldCfg {
            players: (1, 16),
            specs: (0, 6),
            teams: 5,
            ..WorldCfg::default()
        },
        obits: (0, 25),
        ktx,
        ..Cfg::default()
    };
    let (_, d) = gen::gen_valid_match(&mut ctx.rng, ctx.dict, &c);
    (d, ktx)
}

/// The same number of bytes, mostly the same ones.
fn same_size(ctx: &mut Ctx, data: &[u8]) -> Vec<u8> {
    let r = &mut ctx.rng;
    let mut o = data.to_vec();
    if o.is_empty() {
        return o;
    }
    let n = o.len();
    // where it differs: anywhere, only at the end, only at the start, in a small window
    let (from, to) = match r.below(4) {
        0 => (n * 3 / 4, n),
        1 => (0, n.div_ceil(4)),
        2 => {
            let a = r.below(n);
            (a, (a + 300).min(n))
        }
        _ => (0, n),
    };
    if r.chance(2, 3) {
        // other letters and digits: other names, numbers and texts in the same places
        let at: Vec<usize> = (from..to).filter(|i| o[*i].is_ascii_alphanumeric()).collect();
        if !at.is_empty() {
            for _ in 0..r.range(1, 40) {
                let i = *r.pick(&at);
                o[i] = match o[i] {
                    b'9' => b'1',
                    b'z' | b'Z' => o[i] - 25,
                    c => c + 1,
                };
            }
            return o;
        }
    }
    for _ in 0..r.range(1, 30) {
        let at = from + r.below(to - from);
        o[at] = o[at].wrapping_add(1 + (r.byte() & 3));
    }
    o
}

/// Cut, extended, or with a part taken out.
fn other_size(ctx: &mut Ctx, data: &[u8]) -> Vec<u8> {
    let r = &mut ctx.rng;
    let n = data.len();
    let mut o = data.to_vec();
    match r.below(4) {
        0 => o.truncate(r.below(n + 1)),
        1 => {
            let k = r.range(1, 400);
            o.truncate(n.saturating_sub(k));
        }
        2 => {
            let from = r.below(n + 1);
            let to = (from + r.range(1, 600)).min(n);
            o.drain(from..to);
        }
        _ => o.extend(data.to_vec()),
    }
    o
}

fn c03(ctx: &mut Ctx) -> CaseResult {
    let data = if ctx.rng.chance(2, 3) {
        let (d, k) = tie_match(ctx);
        ctx.ev(if k { "input.ktx" } else { "input.no_ktx" });
        d
    } else {
        let h = hostile(ctx);
        ctx.ev("input.hostile");
        h.data
    };
    if !data.is_empty() {
        ctx.nontrivial(&data);
    }
    let others = [same_size(ctx, &data), other_size(ctx, &data)];
    let n = ctx.apis.len();
    let run = |ctx: &mut Ctx, d: &[u8], i: usize| -> String {
        ctx.st.ev("api_calls", 1);
        ctx.apis[i].run(d)
    };
    // Each process goes through the contents and functions in another order, so that nothing can be
    // carried over from one to the other in the same way in all of them.
    let pass: usize = std::env::var("MVD_PASS").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    let mut bases: [Vec<String>; 3] = Default::default();
    for k in [[0, 1, 2], [2, 1, 0], [1, 0, 2]][pass % 3] {
        let d: &[u8] = if k == 0 { &data } else { &others[k - 1] };
        let key = hash(d);
        let mut res = vec![String::new(); n];
        for j in 0..n {
            let i = match pass % 3 {
                0 => j,
                1 => n - 1 - j,
                _ => (j + n / 2) % n,
            };
            res[i] = run(ctx, d, i);
            ctx.st.log.insert((key, i as u16), (hash(res[i].as_bytes()), ctx.idx));
        }
        bases[k] = res;
    }
    let [base, other_base, third_base] = bases;
    let [other, third] = others;
    if other_base != base {
        ctx.ev("variant.same_size_other_result");
    }
    if third_base != base {
        ctx.ev("variant.other_size_other_result");
    }
    let same = |ctx: &mut Ctx, i: usize, how: &str, got: &str, want: &str, d: &[u8]| -> CaseResult {
        let name = ctx.apis[i].name;
        ctx.expect(d, &format!("{name} ({how})"), got, want)
    };

    // again, in another order
    let mut order: Vec<usize> = (0..n).collect();
    ctx.rng.shuffle(&mut order);
    for i in order {
        for _ in 0..2 {
            let r = run(ctx, &data, i);
            same(ctx, i, "called again in another order", &r, &base[i], &data)?;
        }
    }
    ctx.ev("repeat.order");

    // elsewhere in memory, inside of other data
    let pre = ctx.rng.range(1, 70);
    let mut big = ctx.rng.bytes(pre);
    big.extend_from_slice(&data);
    let post = ctx.rng.range(1, 70);
    let tail = ctx.rng.bytes(post);
    big.extend(tail);
    for i in 0..n {
        let r = run(ctx, &big[pre..pre + data.len()], i);
        same(ctx, i, "same content at another address, inside a larger buffer", &r, &base[i], &data)?;
    }
    ctx.ev("repeat.moved");

    // one buffer, different contents in turn
    let mut buf = data.clone();
    buf.extend_from_slice(&third);
    let turns = [
        ("A", &data, &base),
        ("B", &other, &other_base),
        ("A again", &data, &base),
        ("C of another size", &third, &third_base),
        ("B again", &other, &other_base),
    ];
    for (what, content, want) in turns {
        let buf = &mut buf[..content.len()];
        buf.copy_from_slice(content);
        for i in 0..n {
            let r = run(ctx, buf, i);
            same(ctx, i, &format!("reused buffer, content {what}"), &r, &want[i], content)?;
        }
        if buf != &content[..] {
            return Err(ctx.viol(content, "the input was modified"));
        }
    }
    ctx.ev("repeat.reused_buffer");

    // several threads at once
    if ctx.rng.chance(1, 3) {
        let inputs = [(&data, &base), (&other, &other_base), (&third, &third_base)];
        // one function at a time, in all threads
        let close: Vec<usize> = (0..8).map(|_| ctx.rng.below(n)).collect();
        let barrier = std::sync::Barrier::new(4);
        let bad: Vec<(usize, usize, String)> = std::thread::scope(|s| {
            let b = &barrier;
            let (inputs, close) = (&inputs, &close);
            let hs: Vec<_> = (0..4)
                .map(|t| {
                    s.spawn(move || {
                        let apis = crate::api::table();
                        let mut bad = vec![];
                        b.wait();
                        for k in 0..n {
                            let i = (k + t * 7) % n;
                            let which = (t + k) % 3;
                            let (d, want) = inputs[which];
                            let r = apis[i].run(d);
                            if r != want[i] {
                                bad.push((which, i, r));
                            }
                        }
                        for &i in close {
                            b.wait();
                            for k in 0..4 {
                                let which = (t + k / 2) % 3;
                                let (d, want) = inputs[which];
                                let r = apis[i].run(d);
                                if r != want[i] {
                                    bad.push((which, i, r));
                                }
                            }
                        }
                        bad
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().expect("thread")).collect()
        });
        ctx.evn("api_calls", 4 * (n as u64 + 32));
        ctx.evn("oracle_comparisons", 4 * (n as u64 + 32));
        ctx.ev("repeat.threads");
        if let Some((which, i, r)) = bad.first() {
            let (d, want) = inputs[*which];
            same(ctx, *i, "called from several threads", r, &want[*i], d)?;
        }
    }
    ctx.sample(|| {
        format!(
            "{} bytes, {n} functions, each 8 or more times, one result each; players = {}",
            data.len(),
            &base[28].chars().take(120).collect::<String>()
        )
    });
    Ok(())
}

fn strings_valid(s: &str) -> bool {
    std::str::from_utf8(s.as_bytes()).is_ok()
}

fn c04_input(ctx: &mut Ctx) -> Vec<u8> {
    match ctx.rng.below(4) {
        0 => tie_match(ctx).0,
        _ => hostile(ctx).data,
    }
}

fn c04(ctx: &mut Ctx) -> CaseResult {
    let data: Box<[u8]> = c04_input(ctx).into_boxed_slice();
    let threads = if ctx.rng.chance(1, 4) { 4 } else { 0 };
    observe_all(ctx, &data, threads)
}

/// Small inputs for the interpreter.
pub fn c04_small(ctx: &mut Ctx) -> Vec<u8> {
    for _ in 0..20 {
        let d = c04_input(ctx);
        if d.len() > 60 && d.len() < 1000 {
            return d;
        }
    }
    let mut d = c04_input(ctx);
    d.truncate(1000);
    d
}

fn texts_valid(ctx: &mut Ctx, data: &[u8]) -> CaseResult {
    if let Ok(v) = guard(|| m::clientinfo_strings(data).unwrap_or_default()) {
        for s in v {
            if !strings_valid(&s) {
                return Err(ctx.viol(data, "clientinfo_strings: text which is not UTF-8"));
            }
        }
    }
    // what is inside of the records
    let mut texts: Vec<String> = vec![];
    if let Ok(Ok(v)) = guard(|| m::clients(data)) {
        for c in v {
            texts.extend([c.name, c.team]);
            texts.extend(c.auth_username);
            texts.extend(c.auth_cc);
        }
    }
    if let Ok(Ok(v)) = guard(|| m::players(data)) {
        for c in v {
            texts.extend([c.name, c.team]);
            texts.extend(c.auth_username);
            texts.extend(c.auth_cc);
        }
    }
    if let Ok(v) = guard(|| m::frags_per_player_name(data)) {
        texts.extend(v.into_keys());
    }
    if let Ok(v) = guard(|| m::flag_events_per_player_name(data)) {
        texts.extend(v.into_keys());
    }
    for v in [
        guard(|| m::player_names(data)),
        guard(|| m::spectator_names(data)),
        guard(|| m::team_names(data)),
        guard(|| mvdparser::filename(data).map(|f| vec![f])),
    ]
    .into_iter()
    .flatten()
    .flatten()
    {
        texts.extend(v);
    }
    ctx.evn("texts_checked", texts.len() as u64);
    if let Some(t) = texts.iter().find(|t| !strings_valid(t)) {
        return Err(ctx.viol(data, format!("text which is not UTF-8: {:?}", t.as_bytes())));
    }
    if let Ok(Ok(s)) = guard(|| m::ktxstats_string(data)) {
        if !strings_valid(&s) {
            return Err(ctx.viol(data, "ktxstats_string: text which is not UTF-8"));
        }
    }
    if let Ok(Ok(s)) = guard(|| m::matchdate_string(data)) {
        if !strings_valid(&s) {
            return Err(ctx.viol(data, "matchdate_string: text which is not UTF-8"));
        }
    }
    if let Ok(Ok(s)) = guard(|| m::serverinfo_string(data)) {
        if !strings_valid(&s) {
            return Err(ctx.viol(data, "serverinfo_string: text which is not UTF-8"));
        }
    }
    Ok(())
}

pub fn observe_all(ctx: &mut Ctx, data: &[u8], threads: usize) -> CaseResult {
    if !data.is_empty() {
        ctx.nontrivial(data);
    }
    // the interpreter takes a share of the functions per input
    let part = |k: usize| !cfg!(miri) || (k as u64 + ctx.idx) % 3 == 0;
    let chosen: Vec<&crate::api::Api> = ctx.apis.iter().enumerate().filter(|(k, _)| part(*k)).map(|(_, a)| a).collect();
    let texts_too = !cfg!(miri) || ctx.idx % 7 == 0;
    for a in &chosen {
        let r = a.run(data);
        ctx.st.ev("calls", 1);
        ctx.st.ev("api_calls", 1);
        ctx.st.ev("oracle_comparisons", 1);
        if !strings_valid(&r) {
            return Err(ctx.viol(data, format!("{}: text which is not UTF-8", a.name)));
        }
    }
    if texts_too {
        texts_valid(ctx, data)?;
    }
    if threads > 0 {
        let d = data;
        let from = if cfg!(miri) { ctx.idx as usize } else { 0 };
        std::thread::scope(|s| {
            for t in 0..threads {
                s.spawn(move || {
                    let apis = crate::api::table();
                    let n = if cfg!(miri) { 6 } else { apis.len() };
                    for k in 0..n {
                        let _ = apis[(k + t + from) % apis.len()].run(d);
                    }
                });
            }
        });
        let n = if cfg!(miri) { 6 } else { ctx.apis.len() };
        ctx.evn("calls_in_threads", (threads * n) as u64);
    }
    ctx.sample(|| format!("{} bytes through {} functions", data.len(), chosen.len()));
    Ok(())
}

