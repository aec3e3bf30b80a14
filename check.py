#!/usr/bin/env python3
"""check.py ID : decide one property (see DESIGN.md).  Exit 0 / 1 (+ VIOLATION line)."""
import json
import os
import sys
import shutil
import tempfile
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib  # noqa: E402
from props import PROPS  # noqa: E402


def main(pid):
    t0 = time.time()
    P = PROPS[pid]
    tier, seed = vlib.tier(), vlib.seed()
    ev_path = os.path.join(vlib.VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return decide(pid, P, tier, seed, ev_path, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, tier, seed, ev_path, work, t0):
    # 1. the specification's own properties, exhaustively within small constants
    edges = []
    for (mod, cfg, name) in P.get("edges", []):
        edges.append((name, mod, vlib.Bg(vlib.run_tlc, mod + ".tla", cfg + ".cfg", work,
                                          workers=1, timeout=600)))
    mcs = []
    for ent in P.get("mc", []):
        mod, cq = ent[0], ent[1]
        ct = ent[2] if len(ent) > 2 else cq
        cfg = (ct if tier == "thorough" else cq) + ".cfg"
        mcs.append(vlib.Bg(vlib.run_tlc, mod + ".tla", cfg, work, workers=3,
                           timeout=3000 if tier == "thorough" else 600))
    emitted = {}
    states = trans = 0
    spec_runs = []
    for name, mod, bg in edges:
        r = bg.get()
        if not r["ok"]:
            raise vlib.Machinery(f"TLC on {mod}:\n" + r["out"][-4000:])
        n = 0
        with open(os.path.join(work, name + ".edges"), "w") as fp:
            for line in r["out"].splitlines():
                if line.startswith('"EDGE '):
                    fp.write(json.loads(line)[5:] + "\n")
                    n += 1
        emitted[name] = n
        if n == 0:
            raise vlib.Machinery(f"no behaviours emitted by {mod}")
        states += r["distinct"]
        trans += r["generated"]
        spec_runs.append(f"{mod}/{r['cfg']}: {r['distinct']} states, {n} labelled steps emitted")

    # 2. the real code
    drv = vlib.run_driver(pid, work, timeout=3300 if tier == "thorough" else 700)

    for bg in mcs:
        r = bg.get()
        if not r["ok"]:
            raise vlib.Machinery("TLC rejects the specification itself:\n" + r["out"][-4000:])
        states += r["distinct"]
        trans += r["generated"]
        spec_runs.append(f"{r['module']}/{r['cfg']}: {r['distinct']} states")

    # 3. recorded executions against the specification
    bad = []
    steps = traces = skips = 0
    runs = [(t, vlib.Bg(vlib.run_trace, t, os.path.join(work, t + ".ndjson"), work,
                        workers=max(2, 8 // max(1, len(drv["files"]))),
                        timeout=3000 if tier == "thorough" else 700)) for t in drv["files"]]
    for t, bg in runs:
        fails, nskip, st = bg.get()
        states += st["distinct"]
        trans += st["steps"]
        traces += st["cases"]
        steps += st["steps"]
        skips += nskip
        spec_runs.append(f"{t}: {st['cases']} recorded cases, {st['steps']} steps, {nskip} undecided")
        if fails:
            by = {}
            with open(os.path.join(work, t + ".ndjson")) as fp:
                for line in fp:
                    c = json.loads(line)
                    by[c["id"]] = c
            for cid, k, clauses in fails:
                bad.append(dict(kind="trace", tmod=t, step=k, clauses=clauses, case=by[cid],
                                kf=drv["meta"][str(cid)]["kf"]))
    for f in drv["direct_fail"]:
        bad.append(dict(kind="replay", clauses=[f["clause"]], case=f["detail"], kf=f["kf"]))
    if traces + drv["direct"] == 0:
        raise vlib.Machinery("nothing was checked against the code")
    if traces and skips > 0.2 * max(1, steps):
        raise vlib.Machinery(f"{skips} of {steps} steps undecided")

    # 4. verdict
    known = {}
    for f in vlib.known_findings():
        if f["property"] == pid and f.get("status") == "open":
            known[f["id"]] = f
    viol, seen_known = [], {}
    for b in bad:
        f = known.get(b["kf"]) if b["kf"] else None
        if f and set(b["clauses"]) <= set(f["clauses"]):
            seen_known[f["id"]] = f
        else:
            viol.append(b)
    for fid in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {seen_known[fid]['what']}")

    cov = dict(
        states=states, transitions=trans,
        traces_validated_against_impl=traces + drv["direct"],
        recorded_traces=traces, recorded_steps=steps, replayed_checks=drv["direct"],
        replayed_by_clause=drv["direct_by"], distinct_cases=drv["distinct"],
        undecided_steps=skips, spec_runs=spec_runs, notes=drv["notes"],
        samples=drv["samples"] or ["replays only"],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=P["assume"], wall_s=round(time.time() - t0, 2), violations=len(viol))
    tmp = f"{ev_path}.{os.getpid()}.tmp"
    with open(tmp, "w") as fp:
        json.dump(ev, fp, indent=1)
    os.replace(tmp, ev_path)

    if viol:
        d = vlib.report_dir(pid)
        for i, b in enumerate(viol[:25]):
            path = os.path.join(d, f"violation-{i}.json")
            with open(path, "w") as fp:
                json.dump(dict(property=pid, seed=seed, tier=tier, **b), fp, indent=1, default=str)
            if i < 8:
                print("  failed:", ",".join(b["clauses"]), "->", path)
        print(f"VIOLATION property={pid} replay={os.path.join(d, 'violation-0.json')}")
        return 1
    print(f"OK property={pid} tier={tier} seed={seed} traces={traces} replays={drv['direct']} "
          f"states={states} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
