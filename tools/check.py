#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current tree.

Builds the property's harnesses from /repo's sources (tools/vbuild.py), runs them
with VERIF_SEED / VERIF_TIER, writes evidence/<ID>.json, prints KNOWN-FINDING lines
and, on a violation, `VIOLATION property=<ID> replay=<path>`.
Exit 0: held on everything explored; 1: violated; 2: the check itself failed.

check.py ID --replay FILE: run one saved case again.
"""
import json, os, subprocess, sys, time, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild, registry


def known(pid):
    r = []
    try:
        for line in open(VERIF + "/known_findings.txt"):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                r.append(line[len("finding: "):])
    except OSError:
        pass
    return r


def mpi_env():
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl="self,vader",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_pml="ob1",
             OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_plm="isolated", OMPI_MCA_ras="localhost" if False else e.get("OMPI_MCA_ras", ""))
    if not e["OMPI_MCA_ras"]:
        del e["OMPI_MCA_ras"]
    return e


def main():
    pid = sys.argv[1]
    prop = registry.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    max_wall = 700 if tier == "quick" else 3 * 3600
    t0 = time.time()
    only_replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        only_replay = sys.argv[3]
    evf = VERIF + "/evidence/%s.json" % pid
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replay", exist_ok=True)
    if not only_replay and os.path.exists(evf):
        os.unlink(evf)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=prop["rule"], samples=[], stages={})
    viol = []
    err = None
    for stage in prop["stages"]:
        try:
            res = run_stage(pid, stage, seed, tier, max(30, max_wall - (time.time() - t0)), only_replay)
        except vbuild.BuildError as e:
            err = "build of %s failed: %s" % (stage["name"], e)
            break
        if only_replay:
            if res is not None:
                return res
            continue
        if "error" in res:
            err = res["error"]
            break
        cov["evaluations"] += res["evaluations"]
        cov["distinct_nontrivial"] += res["distinct_nontrivial"]
        cov["samples"] += res["samples"][:20]
        cov["stages"][stage["name"]] = {k: v for k, v in res.items() if k not in ("samples", "violation", "replay", "message")}
        if res["violation"]:
            viol.append((res["replay"], res["message"]))
            break
    if only_replay:
        return 2
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=prop.get("assumptions", []), wall_s=round(wall, 2), violations=len(viol))
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
    if err:
        print("ERROR: " + err, file=sys.stderr)
        return 2
    for k in known(pid):
        print("KNOWN-FINDING: " + k)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" %
          (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], wall))
    for rp, msg in viol:
        print("  " + (msg or "").replace("\n", "\n  ")[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1 if viol else 0


def run_stage(pid, stage, seed, tier, wall, only_replay):
    binary, n = vbuild.build_harness(stage["name"], stage["components"], stage.get("flavor", "asan"),
                                     extra=stage.get("extra"), libs=stage.get("libs"))
    env = dict(os.environ)
    env.pop("ASAN_OPTIONS", None)
    if only_replay:
        with open(only_replay) as f:
            head = f.read(2000)
        if stage["name"] not in head.split("\n")[0]:
            return None
        return subprocess.call([binary, "--replay", only_replay], env=env)
    tmp = tempfile.mkdtemp(prefix="vcheck.", dir="/tmp")
    try:
        out = tmp + "/out.json"
        cmd = [binary, "--prop", stage["name"], "--seed", str(seed), "--tier", tier, "--out", out,
               "--replay-dir", VERIF + "/replay", "--max-wall", "%d" % wall] + stage.get("args", [])
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            return dict(error="%s ended with %s" % (stage["name"], r.returncode))
        res = json.load(open(out))
        if res["evaluations"] == 0 and not res["violation"]:
            return dict(error="%s ran nothing" % stage["name"])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
