#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : build, explore, write evidence, report."""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

V = B.VERIF


def known_findings():
    """lines `KNOWN-FINDING: property=<id> key=<family>[<index>] ...` suppress exactly that item"""
    res = {}
    path = os.path.join(V, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                prop = line.split("property=")[1].split()[0]
                key = line.split("key=")[1].split()[0]
                res[(prop, key)] = line
    return res


def arguments(bi, tier):
    m = bi.get("match", {}).get(tier)
    return bi.get("args", []) + (["--match", m] if m else [])


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    t0 = time.time()
    runs = []
    notes = []
    built = {}
    for bi in c["bins"]:
        if tier == "quick" and bi.get("thorough_only"):
            continue
        ok, log = B.build(bi.get("variant", "rel"), [bi["bin"]] + bi.get("needs", []))
        if not ok:
            notes.append(f"harness {bi['bin']} does not build against this tree and was left out")
            sys.stderr.write(log[-4000:] + "\n")
            built[bi["bin"]] = False
            continue
        runs.append(bi)
    if not runs:
        print("cannot build any harness for " + prop)
        return 2
    outdir = os.path.join(V, "build", "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    total = {"states": 0, "transitions": 0, "traces": 0}
    fams, samples, caps, viols, outcomes = [], [], [], [], {}
    error = None
    for i, bi in enumerate(runs):
        d = B.build_dir(bi.get("variant", "rel"))
        out = os.path.join(outdir, f"{prop}-{i}-{os.getpid()}.json")
        budget = bi.get("budget", {}).get(tier, 420 if tier == "quick" else 7200)
        if tier == "quick":
            # the whole check stays below the time it is given, also on a slow machine
            budget = max(5, min(budget, round(780 - (time.time() - t0))))
        env = dict(os.environ)
        env.update(MC_BUILD=d, MC_REPO=B.REPO, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0",
                   UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1")
        r = subprocess.run([os.path.join(d, bi["bin"]), "--property", prop, "--tier", c.get("families", tier), "--seed", str(seed), "--out", out,
                            "--budget", str(budget)] + arguments(bi, tier), env=env)
        if not os.path.exists(out):
            error = f"{bi['bin']} ended with status {r.returncode} and no result"
            break
        res = json.load(open(out))
        os.unlink(out)
        for k in total:
            total[k] += res[k]
        for f in res["families"]:
            f["harness"] = bi["bin"]
            fams.append(f)
        samples += res["samples"]
        caps += res["caps"]
        if res["out_of_time"]:
            caps.append(f"time budget of {budget} s reached in {bi['bin']}; see executed/size per family")
        if res["state_table_overflow"]:
            caps.append("state table full: distinct states are a lower bound")
        outcomes[bi["bin"]] = res["outcomes"]
        for u in res["unconfirmed"]:
            notes.append("not reproducible when re-run alone, not reported: " + u[:300])
        for v in res["violations"]:
            v["harness"], v["variant"] = bi["bin"], bi.get("variant", "rel")
            viols.append(v)
        if viols:
            break
    if error:
        print(error)
        return 2
    known = known_findings()
    new = []
    for v in viols:
        key = f"{v['family']}[{v['index']}]"
        if (prop, key) in known:
            print(known[(prop, key)])
        else:
            new.append(v)
    exhaustive = not caps and all(f["size"] == f["executed"] for f in fams) and not viols
    cov = {
        "states": total["states"], "transitions": total["transitions"], "traces_validated_against_impl": total["traces"],
        "samples": samples or ["none"], "exhaustive": exhaustive, "families": fams, "caps": caps, "notes": notes,
        "outcome_histogram": outcomes, "bounds": c.get("bounds", ""),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": c.get("assumptions", []) + ["the item enumerations in mc/checks and the reference semantics in mc/ref.cpp are trusted"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    evp = os.path.join(V, "evidence", prop + ".json")
    json.dump(ev, open(evp + ".tmp", "w"), indent=1)
    os.replace(evp + ".tmp", evp)
    for n in notes:
        print("note: " + n)
    print(f"{prop} {tier}: {len(fams)} families, states={total['states']} transitions={total['transitions']} "
          f"executions={total['traces']} exhaustive={exhaustive} wall={ev['wall_s']}s")
    for i, v in enumerate(new):
        rp = os.path.join(V, "evidence", f"replay-{prop}-{i}.txt")
        with open(rp, "w") as f:
            f.write(f"# build: python3 bin/build.py {v['variant']} {v['harness']}\n# replay: build/{v['variant']}/{v['harness']} --replay {rp} --tier {c.get('families', tier)} --property {prop}\n")
            f.write(f"family={v['family']}\nindex={v['index']}\nfirst={v['first']}\n---\n{v['item']}\n---\n{v['message']}\n")
        print(f"--- {v['family']}[{v['index']}]\n{v['item'][:2000]}\n{v['message'][:2000]}")
        print(f"VIOLATION property={prop} replay={rp}")
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
