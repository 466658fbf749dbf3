"""Merges what the three flavours of C04 observed into one evidence file."""
import glob, json, sys, time

scratch, tier, seed, t0, overall, out = sys.argv[1:7]
parts = {f: json.load(open(f"{scratch}/{f}.json")) for f in ("asan", "tsan")}
miri = {"done": 0, "events": {}, "samples": [], "inputs": set()}
for p in glob.glob(f"{scratch}/miri/w*.stats"):
    for line in open(p, encoding="utf-8", errors="replace"):
        k, _, rest = line.rstrip("\n").partition(" ")
        if k == "done":
            miri["done"] += int(rest)
        elif k == "ev":
            n, _, name = rest.partition(" ")
            miri["events"][name] = miri["events"].get(name, 0) + int(n)
        elif k == "in":
            miri["inputs"].add(rest)
        elif k == "sample" and len(miri["samples"]) < 2:
            miri["samples"].append("miri " + rest)
c = {f: p["coverage"] for f, p in parts.items()}
ev = {}
for f in c:
    for k, v in c[f]["observed_events"].items():
        ev[f"{f}.{k}"] = v
for k, v in miri["events"].items():
    ev[f"miri.{k}"] = v
doc = {
    "property": "C04",
    "tier": tier,
    "seed": int(seed),
    "level": "exploration",
    "coverage": {
        "evaluations": sum(x["evaluations"] for x in c.values()) + miri["done"],
        "distinct_nontrivial": max([x["distinct_nontrivial"] for x in c.values()] + [0]),
        "rule": c["asan"]["rule"] + "; the same inputs run under each sanitizer and are counted once",
        "samples": [f"{f} {s}" for f in c for s in c[f]["samples"][:2]] + miri["samples"],
        "observed_events": ev,
        "miri_distinct_inputs": len(miri["inputs"]),
        "inconclusive": [s for x in c.values() for s in x["inconclusive"]],
        "exhaustive": False,
    },
    "assumptions": [
        "AddressSanitizer instruments the harness, mvdparser and its dependencies, not the precompiled standard library; ThreadSanitizer and Miri cover the standard library too",
        "inputs under Miri are at most 1000 bytes",
        "leaks are not part of the property",
    ],
    "wall_s": round(time.time() - float(t0), 2),
    "violations": 0 if overall == "0" else 1,
}
json.dump(doc, open(out, "w"), indent=1)
n = doc["coverage"]["evaluations"]
print(f"C04: {n} cases ({', '.join(str(c[f]['evaluations']) + ' ' + f for f in c)}, {miri['done']} miri), {doc['wall_s']} s")
if overall == "0" and (miri["done"] == 0 or miri["events"].get("calls_in_threads", 0) == 0):
    sys.exit("Miri observed nothing")
