#!/usr/bin/env python3
"""Runs one property's check: build from /repo's working tree, enumerate, judge, write evidence.

  run.py P01 [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored.  exit 1: a VIOLATION line was printed.  2: the check itself failed.
"""
import argparse, hashlib, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import registry, vbuild

PY = "/opt/vp/venv/bin/python"
WORKERS = 8


def command(part):
    if part["kind"] == "cpp":
        return [os.path.join(vbuild.BUILD, "bin", part["target"])]
    return [part.get("python", PY), os.path.join(VERIF, part["script"])]


def env_for(part):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
             VERIF_DIR=VERIF, VERIF_REPO=vbuild.REPO, VERIF_BUILD=vbuild.BUILD,
             PYTHONPATH=f"{VERIF}/lib:{vbuild.REPO}/frontend:{vbuild.REPO}")
    e.pop("VERIF_SHARD", None)
    return e


def launch(part, tier, shard, shards, out, only=None, watchdog=None):
    cmd = command(part) + ["--tier", tier, "--shard", f"{shard}/{shards}", "--out", out]
    if only is not None:
        cmd += ["--only", only]
    e = env_for(part)
    if watchdog:
        e["VERIF_WATCHDOG"] = str(watchdog)
    log = open(out + ".log", "w")
    return subprocess.Popen(cmd, env=e, stdout=log, stderr=subprocess.STDOUT, cwd=tempfile.gettempdir())


def tail(path, n=2500):
    try:
        return open(path, errors="replace").read()[-n:]
    except OSError:
        return ""


def run_part(part, tier, tmp, idx, deadline):
    shards = part.get("shards", WORKERS)
    procs, results, errors = [], [], []
    for s in range(shards):
        out = os.path.join(tmp, f"{idx}-{s}.json")
        procs.append((out, launch(part, tier, s, shards, out)))
    for out, p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for _, q in procs:
                q.kill()
            errors.append(f"{part['name']}: out of time")
            break
        if os.path.exists(out):
            try:
                results.append(json.load(open(out)))
                continue
            except ValueError:
                pass
        errors.append(f"{part['name']}: no result (exit {p.returncode})\n" + tail(out + ".log"))
    return results, errors


def replay_once(part, tier, case, tmp, tag):
    out = os.path.join(tmp, f"replay-{tag}.json")
    p = launch(part, tier, 0, 1, out, only=case, watchdog=240)
    try:
        p.wait(timeout=400)
    except subprocess.TimeoutExpired:
        p.kill()
        return None
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    spec = registry.CHECKS[a.property]
    tier = a.tier
    parts = spec["parts"]
    targets = [p["target"] for p in parts if p["kind"] == "cpp"] + [t for p in parts for t in p.get("needs", [])]
    if targets:
        ok, log = vbuild.build(registry.TARGETS, targets)
        if not ok:
            print(log[-6000:])
            print(f"ERROR: {a.property}: build failed")
            return 2
    build_s = time.time() - t0
    tmp = tempfile.mkdtemp(prefix=f"verif-{a.property}-")
    try:
        if a.replay:
            r = json.load(open(a.replay))
            part = next(p for p in parts if p["name"] == r["part"])
            got = replay_once(part, r["tier"], r["case"], tmp, "x")
            print(json.dumps(got and got["violations"], indent=1))
            return 1 if got and got["violations"] else 0
        deadline = t0 + (840 if tier == "quick" else 6 * 3600)
        tot = dict(states=0, transitions=0, traces=0, evaluations=0)
        outcomes, samples, counters, notes, viol, errors = set(), [], {}, {}, [], []
        for i, part in enumerate(parts):
            res, err = run_part(part, tier, tmp, i, deadline)
            errors += err
            for r in res:
                for k in tot:
                    tot[k] += r[k]
                outcomes.update((part["name"], o) for o in r["outcomes"])
                counters_part = r["counters"]
                for k, v in counters_part.items():
                    counters[k] = counters.get(k, 0) + v
                notes.update(r["notes"])
                for v in r["violations"]:
                    viol.append((part, v))
                if not r["complete"] and not r["violations"]:
                    errors.append(f"{part['name']}: incomplete")
            per = [s for r in res for s in r["samples"][:2]]
            samples += per[:4]
        known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
                 if k["property"] == a.property]
        knownkeys = {k["key"]: k for k in known}
        seen, fresh = {}, {}
        for part, v in viol:
            if v["key"] in knownkeys:
                seen[v["key"]] = seen.get(v["key"], 0) + v["count"]
            else:
                fresh.setdefault(v["key"], (part, v))
        for k in known:
            how = f"{seen[k['key']]} case(s) of this run" if k["key"] in seen else "not reached by this run"
            print(f"KNOWN-FINDING: property={a.property} {k['what']} ({how})")
        rc = 0
        rdir = os.path.join(VERIF, "replays", a.property)
        reported = 0
        for key, (part, v) in list(fresh.items())[:8]:
            got = replay_once(part, tier, v["case"], tmp, hashlib.sha1(key.encode()).hexdigest()[:8])
            again = bool(got and any(w["key"] == key for w in got["violations"]))
            if got is not None and not again:
                # Same input, different answer: not deterministic in isolation; only the full history shows it.
                v["what"] += "  [needs the preceding cases of its shard: the case alone does not show it]"
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, hashlib.sha1(key.encode()).hexdigest()[:12] + ".json")
            json.dump(dict(property=a.property, part=part["name"], tier=tier, case=v["case"], key=key, what=v["what"],
                           reproduced_alone=again,
                           replay=f"python3 run.py {a.property} --replay {path}"), open(path, "w"), indent=1)
            print(f"  {key}: {v['what']}")
            print(f"VIOLATION property={a.property} replay={path}")
            reported += 1
            rc = 1
        if errors and not rc:
            print("\n".join(errors))
            rc = 2
        ev = dict(property=a.property, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec["level"],
                  coverage=dict(states=tot["states"], transitions=tot["transitions"],
                                traces_validated_against_impl=tot["traces"], evaluations=tot["evaluations"],
                                distinct_nontrivial=len(outcomes), rule=spec["rule"],
                                samples=samples or ["(none)"], exhaustive=rc == 0, bounds=spec["bounds"][tier],
                                counters=counters, notes=notes),
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                  violations=reported)
        ev["coverage"]["build_s"] = round(build_s, 2)
        ev["coverage"]["known_findings_seen"] = sum(seen.values())
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.property + ".json"), "w"), indent=1)
        c = ev["coverage"]
        print(f"{a.property} {tier}: states={c['states']} transitions={c['transitions']} traces={c['traces_validated_against_impl']} "
              f"outcomes={c['distinct_nontrivial']} build={build_s:.0f}s wall={ev['wall_s']:.0f}s -> {'ok' if rc == 0 else 'exit ' + str(rc)}")
        return rc
    finally:
        subprocess.run(["rm", "-rf", tmp])


if __name__ == "__main__":
    sys.exit(main())
