#!/usr/bin/env python3
"""Run the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE]

A supervising process starts the check in a child, so that a hang or a crash
(segmentation fault, out-of-memory, runaway compiled loop) of the code under
test is itself reported as a violation, with the case that was running.
"""
import argparse
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("TSLEARN_REPO", "/repo")
CASE_LIMIT = {"quick": 300, "thorough": 900}
TOTAL_LIMIT = {"quick": 840, "thorough": 6 * 3600}


def child(args):
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import importlib
    import warnings
    warnings.filterwarnings("ignore")
    import numpy
    # the library turns arrays into strings to find out about backends
    numpy.set_printoptions(threshold=1, edgeitems=1)
    from mc import core
    only = None
    if args.replay:
        only = json.load(open(args.replay))["signature"]
    ctx = core.Ctx(args.property, args.tier, int(os.environ.get("VERIF_SEED", "1") or 1),
                   heartbeat=args.heartbeat, only=only,
                   shard=tuple(map(int, args.shard.split("/"))))
    level, assumptions, rule = "other", [], ""
    try:
        with ctx.case("import"):
            import tslearn
            here = os.path.realpath(os.path.dirname(os.path.dirname(tslearn.__file__)))
            core.require(here == os.path.realpath(REPO), f"tslearn imported from {here}")
            mod = importlib.import_module("checks." + args.property.lower())
        if not ctx.violations:
            level, assumptions, rule = mod.LEVEL, mod.ASSUMPTIONS, mod.RULE
            with ctx.case("harness"):
                mod.run(ctx)
    except core.Stop:
        pass
    with open(args.report, "w") as f:
        json.dump(ctx.report(level, assumptions, rule), f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(1 if ctx.violations else 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--heartbeat")
    ap.add_argument("--report")
    ap.add_argument("--shard", default="0/1")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.heartbeat:
        return child(args)
    scratch = tempfile.mkdtemp(prefix="tsl-verif-")
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", KERAS_BACKEND="torch",
               CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="2", MPLBACKEND="Agg",
               VERIF_SCRATCH=scratch, TMPDIR=scratch, HOME=scratch,
               PYTHONPATH=REPO, TSLEARN_REPO=REPO, VERIF_TIER=args.tier)
    if args.tier == "quick":
        env["NUMBA_OPT"] = "1"      # compile times dominate; the thorough tier uses the default
    env.pop("XDG_DATA_HOME", None)
    n = processes(args)
    t0 = time.time()
    kids = [Kid(args, env, scratch, k, n) for k in range(n)]
    while any(k.rc is None for k in kids):
        time.sleep(.2)
        for k in kids:
            k.watch(t0)
    rc = max(k.finish() for k in kids)
    reports = [k.report() for k in kids]
    if all(reports):
        write_evidence(args.property, args.tier, int(os.environ.get("VERIF_SEED", "1") or 1), reports,
                       time.time() - t0)
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
    return rc


def write_evidence(prop, tier, seed, reports, wall):
    """Merge the reports of the processes of one check into its evidence file."""
    def total(key):
        return sum(r[key] for r in reports)

    def add(maps):
        out = {}
        for m in maps:
            for k, v in m.items():
                out[k] = out.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        return out
    for what, n in add(r["known_hit"] for r in reports).items():
        print(f"KNOWN-FINDING: property={prop} {what} ({n} listed cases)")
    level = reports[0]["level"]
    outcomes = set().union(*(r["outcomes"] for r in reports))
    cov = {"evaluations": total("evaluations"), "distinct_nontrivial": len(outcomes), "rule": reports[0]["rule"],
           "samples": sum((r["samples"] for r in reports), [])[:40] or ["none"],
           "cases_by_kind": add(r["kinds"] for r in reports)}
    if level == "model_checking":
        cov.update(states=total("states"), transitions=total("transitions"),
                   traces_validated_against_impl=total("traces"))
    cov.update(add(r["extra"] for r in reports))
    cov["processes"] = len(reports)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": reports[0]["assumptions"], "wall_s": round(wall, 2), "violations": total("violations")}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: evaluations={cov['evaluations']} states={total('states')} transitions={total('transitions')} "
          f"traces={total('traces')} outcomes={len(outcomes)} violations={total('violations')} wall={wall:.1f}s")
    sys.stdout.flush()


def processes(args):
    """How many processes the check deals its work to."""
    text = open(os.path.join(HERE, "checks", args.property.lower() + ".py")).read()
    m = re.search(r"^SHARDS = (\d+)", text, re.M)
    return max(1, min(int(m.group(1)) if m else 1, os.cpu_count() or 1))


class Kid:
    """One child process, and the file through which it tells what it is doing."""

    def __init__(self, args, env, scratch, k, n):
        self.args, self.rc, self.why = args, None, None
        self.hb = os.path.join(scratch, f"heartbeat{k}")
        self.out = os.path.join(scratch, f"report{k}")
        with open(self.hb, "wb") as f:
            f.write(b"\0" * 8192)
        env = dict(env)
        env["VERIF_SCRATCH"] = env["TMPDIR"] = env["HOME"] = os.path.join(scratch, f"home{k}")
        os.mkdir(env["HOME"])
        cmd = [PY, "-W", "ignore", os.path.abspath(__file__), args.property, "--tier", args.tier,
               "--heartbeat", self.hb, "--report", self.out, "--shard", f"{k}/{n}"]
        if args.replay:
            cmd += ["--replay", os.path.abspath(args.replay)]
        self.p = subprocess.Popen(cmd, env=env, cwd=HERE, start_new_session=True)

    def watch(self, t0):
        if self.rc is not None:
            return
        self.rc = self.p.poll()
        if self.rc is None:
            now, tier = time.time(), self.args.tier
            if now - t0 > TOTAL_LIMIT[tier]:
                self.why = f"no answer within {TOTAL_LIMIT[tier]} s"
            elif now - max(os.stat(self.hb).st_mtime, last_beat(self.hb), t0) > CASE_LIMIT[tier]:
                self.why = f"one case ran for more than {CASE_LIMIT[tier]} s (no termination)"
            if self.why:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.rc = self.p.wait()

    def finish(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if self.rc in (0, 1):
            return self.rc
        why = self.why or f"the process under test ended with status {self.rc}"
        prop = self.args.property
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-crash.json")
        cur = read_hb(self.hb)
        json.dump({"property": prop, "message": why, "signature": "", "case": cur}, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print("  " + why + " in " + json.dumps(cur)[:400])
        return 1

    def report(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None


def read_hb(hb):
    try:
        return json.loads(open(hb, "rb").read().split(b"\0")[0] or b"{}")
    except ValueError:
        return {}


def last_beat(hb):
    return read_hb(hb).get("t", 0)


if __name__ == "__main__":
    sys.exit(main())
