#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property of /repo's working tree with the TLA+ specification.

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken; exit 2: no answer."""
import contextlib
import json
import os
import re
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import xk  # noqa: E402
import plan  # noqa: E402


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.mc, self.gens, self.replays, self.extra, self.violations = [], [], [], {}, []
        self.samples, self.notes = [], []
        self.traces = 0
        self.known, self.findings = known(pid), {}

    quick = property(lambda s: s.tier == "quick")

    def violation(self, what, lines, target=""):
        n = len(self.violations) + 1
        d = f"{xk.VERIF}/evidence/replay"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{self.pid}.{n}.txt"
        with open(path, "w") as f:
            f.write(f"# property {self.pid} tier {self.tier} seed {self.seed} target {target}\n# {what}\n")
            f.writelines(lines)
        self.violations.append((what, path))

    def log(self, s):
        print(f"[{time.time() - self.t0:6.1f}s] {s}", flush=True)


def model(run, module, **kw):
    r = xk.must(xk.tlc(module, **kw))
    run.log(f"TLC {module}: {r['states']} states, {r['transitions']} transitions, depth {r['depth']}, {r['wall']} s")
    run.mc.append({k: r[k] for k in ("module", "states", "transitions", "depth", "wall", "consts")})
    return r


def merge(run, name, parts):
    """Behaviours of several families (name, path) in one file, numbered anew, the families alternating."""
    fams = []
    for fam, path in parts:
        d = {}
        with open(path) as f:
            for line in f:
                b, rest = line.split(" ", 1)
                d.setdefault(int(b), []).append(rest)
        fams.append([d[b] for b in sorted(d)])
    out = f"{xk.B}/gen/{os.getpid()}.{run.pid}.{name}.txt"
    bid = 0
    with open(out, "w") as f:
        for k in range(max(len(x) for x in fams)):
            for x in fams:
                if k < len(x):
                    bid += 1
                    f.writelines(f"{bid} {rest}" for rest in x[k])
    return out


def replay_all(run, name, path, targets, high, ops, gen, driver=None):
    """Replays the behaviours in `path` on every target."""
    driver = driver or {}
    fins = []
    for t in targets:
        try:
            fins.append((t, xk.binary(t, high, ops, **driver.get("build", {}))))
        except Exception:
            raise
    def one(tf):
        t, fin = tf
        if isinstance(t, xk.Program):
            return t, t.replay(path, fin and fin())
        b = fin() if callable(fin) else fin
        with driver.get("alone", contextlib.nullcontext()):
            return t, xk.replay(t, b, path() if callable(path) else path, args=driver.get("args", ()), env=driver.get("env"), seconds=driver.get("seconds", 300))
    with ThreadPoolExecutor(xk.NCPU) as ex:
        res = list(ex.map(one, fins))
    p = path() if callable(path) else path
    for t, r in res:
        run.replays.append(dict(gen=name, target=t.name, behaviours=r["behaviours"], calls=r["calls"], ok=r["ok"]))
        if r["ok"]:
            run.traces += r["behaviours"]
        elif gen.get("finding") in run.known:       # a probe of a listed defect, and of nothing else
            run.findings[gen["finding"]] = run.known[gen["finding"]]
        else:
            m = re.search(r"bid=(-?\d+)", r["detail"])
            lines = xk.behaviour(p, m.group(1)) if m else []
            run.log(f"{t.name}: {r['detail'][:600]}")
            run.violation(f"{t.name}: {r['detail']}", lines, t.name)
    run.log(f"replayed {name} on {len(res)} targets: {sum(r['behaviours'] for _, r in res)} behaviours, "
            f"{sum(r['calls'] for _, r in res)} calls")


def stored(run, g):
    """Behaviours that TLC generated earlier (committed; the thorough run compares them with newly generated ones)."""
    only = g.get("only")
    out = f"{xk.B}/gen/{os.getpid()}.{run.pid}.{g['name']}.txt"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(f"{xk.VERIF}/{g['file']}") as f, open(out, "w") as o:
        o.writelines(l for l in f if not only or int(l.split(" ", 1)[0]) in only)
    return out


def produce(run, g):
    """Behaviours of one generator: path of the file."""
    res, path = xk.generate(g["module"], g["consts"], g["subst"], f"{run.pid}.{g['name']}",
                            invariants=g.get("invariants", ("InstancesOK",)), workers=g.get("workers", 6),
                            heap=g.get("heap", "8g"), con=g.get("con", True))
    run.log(f"TLC {g['module']} ({g['name']}): {res['behaviours']} behaviours, {res['calls']} calls, {res['wall']} s")
    run.gens.append(dict(name=g["name"], module=g["module"], behaviours=res["behaviours"], calls=res["calls"],
                         states=res["states"], transitions=res["transitions"], wall=res["wall"]))
    with open(path) as f:
        head = f.read(60000).splitlines()
    first = [l for l in head[:-1] if l.startswith("1 ")][:8]
    run.samples.append({"generator": g["name"], "behaviour": [l[:240] for l in first]})
    return path


def execute(run):
    p = plan.PLANS[run.pid](run)
    with ThreadPoolExecutor(16) as ex:
        futs = []
        for m in p.get("mc", []):
            m = dict(m)
            futs.append(ex.submit(model, run, m.pop("module"), **m))
        for g in p.get("gen", []):
            g = dict(g)
            # start compiling at once, generate meanwhile
            for rp in g["replay"]:
                for t in rp["targets"]:
                    xk.binary(t, rp["high"], rp["ops"], **rp.get("driver", {}).get("build", {}))

            def do(g=g):
                path = produce(run, g)
                for rp in g["replay"]:
                    replay_all(run, g["name"], path, rp["targets"], rp["high"], rp["ops"], g, rp.get("driver"))
                if not run.violations:
                    os.unlink(path)
            futs.append(ex.submit(do))
        for m in p.get("merged", []):
            for rp in m["replay"]:
                for t in rp["targets"]:
                    xk.binary(t, rp["high"], rp["ops"], **rp.get("driver", {}).get("build", {}))

            def domerged(m=m):
                with ThreadPoolExecutor(4) as ex2:
                    parts = list(ex2.map(lambda g: (g["name"], produce(run, g)), m["gens"]))
                path = merge(run, m["name"], parts)
                for _, p1 in parts:
                    os.unlink(p1)
                for rp in m["replay"]:
                    replay_all(run, m["name"] + rp.get("tag", ""), path, rp["targets"], rp["high"], rp["ops"], m, rp.get("driver"))
                if not run.violations:
                    os.unlink(path)
            futs.append(ex.submit(domerged))
        for g in p.get("stored", []):
            for rp in g["replay"]:
                for t in rp["targets"]:
                    xk.binary(t, rp["high"], rp["ops"], **rp.get("driver", {}).get("build", {}))

            def dostored(g=g):
                path = stored(run, g)
                for rp in g["replay"]:
                    replay_all(run, g["name"], path, rp["targets"], rp["high"], rp["ops"], g, rp.get("driver"))
                if not run.violations:
                    os.unlink(path)
            futs.append(ex.submit(dostored))
        for fn in p.get("custom", []):
            futs.append(ex.submit(fn, run))
        errs = []
        for f in futs:
            try:
                f.result()
            except Exception as e:  # noqa: BLE001
                errs.append((e, traceback.format_exc()))
    if errs and not run.violations:
        for e, tb in errs:
            print(tb, file=sys.stderr)
        raise xk.ToolError(str(errs[0][0])[:3000])
    return p


def known(pid):
    """Listed findings of this property: key -> what fails."""
    out = {}
    with open(f"{xk.VERIF}/known_findings.txt") as f:
        for line in f:
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = Run(pid, tier, seed)
    try:
        p = execute(run)
    except Exception as e:  # noqa: BLE001
        print(f"ERROR: no answer for {pid}: {e}", file=sys.stderr)
        return 2
    states = sum(m["states"] for m in run.mc) + sum(g["states"] for g in run.gens)
    trans = sum(m["transitions"] for m in run.mc) + sum(g["transitions"] for g in run.gens)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=run.traces,
                            samples=run.samples[:6] or ["see models"], models=run.mc, generators=run.gens, replays=run.replays,
                            calls_replayed=sum(r["calls"] for r in run.replays), **run.extra),
              assumptions=p.get("assumptions", []), wall_s=round(time.time() - run.t0, 1), violations=len(run.violations), known_findings=sorted(run.findings))
    os.makedirs(f"{xk.VERIF}/evidence", exist_ok=True)
    with open(f"{xk.VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    code = 0
    for key, what in run.findings.items():
        print(f"KNOWN-FINDING: property={pid} {what} [{key}]")
    for what, path in run.violations:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {what[:500]}")
        code = 1
    if not code:
        print(f"OK {pid} ({tier}): {states} states, {run.traces} behaviours replayed, {ev['wall_s']} s")
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    c = main()
    sys.stdout.flush()
    os._exit(c)
