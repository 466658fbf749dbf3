"""Systematic mutants of /repo's source: which ones compile, pass the tests, and are seen by no check?

mutate.py list                   prints the mutants
mutate.py run DIR SHARD N LOG    runs every Nth mutant in the scratch tree DIR; appends one line each to LOG
"""
import glob, json, os, random, re, shutil, subprocess, sys, zlib

REPO = "/repo"
HARNESS = "/verif/harness"
TABLES = {"src/timezone.rs", "src/qw/fragprint.rs", "src/qw/flagprint.rs", "src/qw/prot.rs"}
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")

STABLE = {t.split("::", 1)[1] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]}

SWAPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.rfind\(", [".find("]), (r"(?<![r_])\.find\(", [".rfind("]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"starts_with", ["ends_with"]), (r"ends_with", ["starts_with"]),
    (r"split_once", ["rsplit_once"]), (r"rsplit_once", ["split_once"]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r"\.rev\(\)", [""]), (r"\.skip\((\w+)\)", [""]), (r"\.take\((\w+)\)", [""]),
    (r"if !", ["if "]), (r"while !", ["while "]), (r"\bif (?!let)", ["if !"]),
    (r"saturating_sub", ["wrapping_sub"]), (r"checked_sub", ["checked_add"]),
    (r"\.trim_end\w*\([^)]*\)", [""]), (r"\.trim\(\)", [""]), (r"\.to_lowercase\(\)", [""]),
    (r"\.unwrap_or_default\(\)", [".unwrap()"]), (r"\.round\(\)", ["", ".floor()", ".ceil()"]),
    (r"as u64", ["as u16 as u64", "as u8 as u64"]), (r"as u32", ["as u16 as u32", "as u8 as u32"]),
    (r"as usize", ["as u8 as usize", "as u16 as usize"]), (r"as i64", ["as i32 as i64", "as u32 as i64"]),
    (r"as i32", ["as i16 as i32", "as i8 as i32"]), (r"as f64", ["as f32 as f64"]),
    (r"\bu64\b", ["u32"]), (r"\bu32\b", ["u16", "u8"]), (r"\bi32\b", ["i16", "i8"]),
    (r"to_unicode", ["to_ascii", "to_utf8"]), (r"to_utf8", ["to_unicode", "to_ascii"]),
    (r"\.then_with\([^;]*?\)\)", [""]), (r"Some\(", ["None.or(Some("]),
]


def code_lines(path):
    text = open(f"{REPO}/{path}").read()
    head = text.split("#[cfg(test)]")[0]
    return head.splitlines(True), text[len(head):]


def mutants():
    out = []
    for p in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)):
        f = os.path.relpath(p, REPO)
        lines, tail = code_lines(f)
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(("//", "use ", "pub use ", "#", "mod ", "pub mod ", "return Err(e!")):
                continue
            new = []
            for pat, reps in SWAPS:
                if pat == r"Some\(":
                    continue
                for mt in re.finditer(pat, l):
                    for r in reps:
                        new.append(l[:mt.start()] + r + l[mt.end():])
            for mt in re.finditer(r"(?<![\w.\"'\\])(0x[0-9a-fA-F]+|\d+)(?![\w.\"'])", l):
                v = int(mt.group(1), 16 if "x" in mt.group(1) else 10)
                for w in (v + 1, v - 1, v * 2):
                    if w >= 0 and w != v:
                        new.append(l[:mt.start()] + str(w) + l[mt.end():])
            strs = list(re.finditer(r'"([^"\\]|\\.)+"', l)) if 'r#"' not in l else list(re.finditer(r'(?<=r#")[^"]+(?="#)', l))
            for mt in strs:
                t = mt.group(0)
                if t.startswith('"'):
                    b = t[1:-1]
                    if len(b) > 1 and not b.endswith("\\") and b[-2] != "\\":
                        new.append(l[:mt.start()] + '"' + b[:-1] + '"' + l[mt.end():])
                    if len(b) > 1 and b[0] != "\\":
                        new.append(l[:mt.start()] + '"' + b[1:] + '"' + l[mt.end():])
                    k = len(b) // 2
                    if len(b) > 2 and "\\" not in b[k - 1:k + 1]:
                        new.append(l[:mt.start()] + '"' + b[:k] + "x" + b[k + 1:] + '"' + l[mt.end():])
                else:
                    new.append(l[:mt.start()] + t[:-1] + l[mt.end():])
                    new.append(l[:mt.start()] + t[1:] + l[mt.end():])
            if s.endswith(";") and not s.startswith(("let ", "return", "const", "pub ", "}", "type ")):
                new.append(re.match(r"\s*", l).group(0) + "\n")
            if s.endswith("?;") and not s.startswith("let"):
                new.append(l.replace("?;", ".ok();"))
            new = list(dict.fromkeys(n for n in new if n != l))
            rnd = random.Random(zlib.crc32(f"{f}:{i}".encode()))
            if (f in TABLES or s.startswith("0x")) and len(new) > 2:
                new = rnd.sample(new, 1)
            for k, n in enumerate(new):
                out.append((f, i, k, l, n))
    random.Random(1).shuffle(out)
    return out


def sh(cmd, cwd, timeout, **env):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return None


def run(d, shard, n, log):
    done = set()
    if os.path.exists(log):
        done = {l.split("|")[0].strip() for l in open(log)}
    h = d + "-h"
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", REPO + "/", d + "/"], check=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", HARNESS + "/", h + "/"], check=True)
    t = open(h + "/Cargo.toml").read().replace("../../repo", d)
    open(h + "/Cargo.toml", "w").write(t)
    counts = {}
    for l in sh(["/verif/target/debug/mvdverif", "list"], "/", 60).stdout.splitlines():
        w = l.split()
        counts[w[0]] = int(w[2])
    anchors = {}
    for l in open("/verif/properties.jsonl"):
        p = json.loads(l)
        for a in p["anchors"]["files"]:
            anchors.setdefault(a, []).append(p["id"])
    for j, (f, i, k, old, new) in enumerate(mutants()):
        if j % n != shard:
            continue
        key = f"{f}:{i + 1}.{k}"
        if key in done:
            continue
        lines, tail = code_lines(f)
        lines[i] = new
        open(f"{d}/{f}", "w").write("".join(lines) + tail)
        res = judge(d, h, f, counts, anchors)
        shutil.copy(f"{REPO}/{f}", f"{d}/{f}")
        with open(log, "a") as o:
            o.write(f"{key} | {res} | {old.strip()} -> {new.strip()}\n")


def judge(d, h, f, counts, anchors):
    r = sh(["cargo", "test", "--offline", "--lib"], d, 240, CARGO_TARGET_DIR=d + "-tt", RUSTFLAGS="-Awarnings")
    if r is None:
        return "tests hang"
    if "could not compile" in r.stderr:
        return "no build"
    passed = {m.group(1) for m in re.finditer(r"^test (\S+) \.\.\. ok", r.stdout, re.M)}
    if STABLE - passed:
        return "tests fail"
    r = sh(["cargo", "build", "--offline", "--quiet"], h, 300, CARGO_TARGET_DIR=d + "-t")
    if r is None or r.returncode:
        return "harness does not build"
    order = anchors.get(f, []) + [c for c in counts if c not in anchors.get(f, [])]
    w = d + "-w"
    os.makedirs(w, exist_ok=True)
    for c in [x for x in order if x != "C04"]:
        for x in glob.glob(w + "/*"):
            os.remove(x)
        n = max(60, counts[c] // 8)
        r = sh([d + "-t/debug/mvdverif", "worker", c, "1", "quick", "0", "1", str(n), "40", w + "/o", d], "/", 120)
        if r is None:
            return f"caught {c} (hangs)"
        if os.path.exists(w + "/o.viol0.txt"):
            return f"caught {c}"
        if r.returncode:
            return f"caught {c} (rc {r.returncode})"
    return "SURVIVED"


if sys.argv[1] == "list":
    ms = mutants()
    for f, i, k, old, new in ms:
        print(f"{f}:{i + 1}.{k}: {old.strip()} -> {new.strip()}")
    print(len(ms))
else:
    run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
