"""Runs the shards of one check in separate processes, merges what they covered, reports.

  driver.py Cnn [quick|thorough] [--replay FILE] [--jobs N]
  driver.py --worker Cnn SHARD TIER SEED OUT [--only KEY]

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
if "/repo" not in sys.path:
    sys.path.insert(0, "/repo")


def load(prop):
    return importlib.import_module("mc.checks." + prop.lower())


def worker(argv):
    prop, shard, tier, seed, out = argv[:5]
    only = argv[6] if len(argv) > 6 else None
    from mc.lib import Ctx, blames_library

    ctx = Ctx(prop, shard, tier, int(seed), only)
    status = "ok"
    try:
        load(prop).run(ctx, shard)
    except BaseException as e:  # noqa: B902
        text = traceback.format_exc()
        if not isinstance(e, (MemoryError, OSError, KeyboardInterrupt)) and blames_library(e):
            ctx.violation("uncaught:" + shard, "the library raised %s: %s" % (type(e).__name__, str(e)[:400]), trace=text[-3000:])
        else:
            status = "error"
            sys.stderr.write(text)
    ctx.dump(out, status)
    os._exit(0 if status == "ok" else 2)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    i = 1
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            i += 1
            replay = json.load(open(argv[i]))
        elif argv[i] == "--jobs":
            i += 1
            jobs = int(argv[i])
        else:
            raise SystemExit("unknown argument " + argv[i])
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = load(prop)
    shards = list(mod.shards(tier))
    if replay is not None:
        shards, tier = [replay["shard"]], replay.get("tier", tier)
    tmp = tempfile.mkdtemp(prefix="mc_%s_" % prop)
    env = dict(os.environ, MC_TMP=tmp)
    env.setdefault("JAX_ENABLE_X64", "1")
    cache = os.path.join(tmp, "xla")
    os.mkdir(cache)
    env.update(
        JAX_COMPILATION_CACHE_DIR=cache,
        JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
        JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
    )
    env.update(getattr(mod, "ENV", {}))
    limit = {"quick": 840, "thorough": 6 * 3600}[tier]
    todo, running, results, errors = list(enumerate(shards)), {}, [], []
    try:
        while todo or running:
            while todo and len(running) < jobs:
                n, s = todo.pop(0)
                out = os.path.join(tmp, "out%d.json" % n)
                err = open(os.path.join(tmp, "err%d.txt" % n), "w+")
                cmd = [sys.executable, "-B", os.path.abspath(__file__), "--worker", prop, s, tier, str(seed), out]
                if replay is not None:
                    cmd += ["--only", replay["key"]]
                p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, cwd=tmp)
                running[p] = (s, out, err, time.time())
            time.sleep(0.02)
            for p in list(running):
                if p.poll() is None:
                    if time.time() - t0 > limit:
                        p.kill()
                        p.wait()
                    else:
                        continue
                s, out, err, st = running.pop(p)
                err.seek(0)
                text = err.read()
                err.close()
                if os.path.exists(out):
                    r = json.load(open(out))
                    r["wall_s"] = round(time.time() - st, 2)
                    results.append(r)
                if p.returncode != 0:
                    errors.append("shard %s of %s ended with %s\n%s" % (s, prop, p.returncode, text[-4000:]))
    finally:
        for p in running:
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
    outcomes, samples, violations, notes, extra = 0, [], [], [], {}
    for r in sorted(results, key=lambda r: shards.index(r["shard"])):
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["traces"]
        outcomes += r["outcomes"]
        samples += r["samples"]
        violations += r["violations"]
        notes += r["notes"]
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    known = {(k["property"], k["key"]): k["what"] for k in known}
    new, seen = [], []
    for v in violations:
        w = known.get((prop, v["key"]))
        if w is None:
            new.append(v)
        elif v["key"] not in seen:
            seen.append(v["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
    stride = max(1, len(samples) // 8)
    coverage = dict(
        cov,
        distinct_outcomes=outcomes,
        exhaustive=not errors and replay is None,
        bounds=getattr(mod, "BOUNDS", {}).get(tier, ""),
        samples=samples[::stride][:8],
        shards={r["shard"]: dict(states=r["states"], transitions=r["transitions"], wall_s=r["wall_s"]) for r in results},
        **extra,
    )
    if notes:
        coverage["notes"] = sorted(set(notes))
    wall = time.time() - t0
    if replay is None:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(
                dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage,
                     assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(new)),
                f, indent=1)
    print("%s %s: %d states, %d transitions, %d comparisons, %d outcomes, %d violations, %.1f s" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], outcomes, len(new), wall))
    if os.environ.get("VERIF_VERBOSE"):
        for r in results:
            print("   ", r["shard"], r["states"], r["wall_s"], "s")
    for e in errors:
        sys.stderr.write(e + "\n")
    if new:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".json")
        with open(path, "w") as f:
            json.dump(dict(new[0], others=[dict(v, data=None) for v in new[1:20]]), f, indent=1)
        for v in new[:5]:
            print("  %s: %s" % (v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 2 if errors or not results else 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        worker(sys.argv[2:])
    else:
        code = main(sys.argv[1:])
        sys.stdout.flush()
        sys.exit(code)
