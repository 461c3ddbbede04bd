#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

usage: check.py <property> [quick|thorough]
       check.py --replay <replay.json>      rerun a reported violation, with a trace
       check.py --setup                     warm the build caches
"""
import array, json, os, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from legs import LEGS, RULES, ASSUME  # noqa: E402


def env(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    for k in ("GODEBUG", "GORACE", "GOMAXPROCS", "GOGC", "GOARCH", "GOOS", "GOEXPERIMENT"):
        e.pop(k, None)
    e.update(kw)
    return e


class BuildError(Exception):
    pass


def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Work:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="verif-")
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(HARNESS, f), self.tmp)
        self.ovinfo = None

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def overlay(self):
        d = os.path.join(self.tmp, "overlay")
        if self.ovinfo is None:
            os.makedirs(d, exist_ok=True)
            exe = os.path.join(self.tmp, "instr")
            p = sh(["go", "build", "-modfile", os.path.join(self.tmp, "go.mod"), "-o", exe, "./instr"], cwd=HARNESS, env=env())
            if p.returncode:
                raise BuildError("instrumenter: " + p.stdout)
            p = sh([exe, "-repo", REPO, "-out", d], env=env())
            if p.returncode:
                raise BuildError("instrumenter: " + p.stdout)
            self.ovinfo = json.loads(p.stdout.strip().splitlines()[-1])
        return os.path.join(d, "overlay.json")

    def build(self, leg):
        args = ["go", "build", "-modfile", os.path.join(self.tmp, "go.mod")]
        if leg.get("overlay"):
            args += ["-overlay", self.overlay()]
        if leg.get("race"):
            args += ["-race"]
        exe = os.path.join(self.tmp, "bin-" + leg["name"])
        args += ["-o", exe, "./chk/" + leg["pkg"]]
        e = env()
        if leg.get("arch"):
            e["GOARCH"] = leg["arch"]
            e["CGO_ENABLED"] = "0"
        p = sh(args, cwd=HARNESS, env=e)
        if p.returncode:
            raise BuildError(p.stdout[-4000:])
        return exe


def leg_env(leg):
    e = env()
    if leg.get("gomaxprocs"):
        e["GOMAXPROCS"] = str(leg["gomaxprocs"])
    if leg.get("race"):
        e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
    e["GOTRACEBACK"] = "all"
    e.update(leg.get("env", {}))
    return e


def available_mb():
    try:
        for l in open("/proc/meminfo"):
            if l.startswith("MemAvailable:"):
                return int(l.split()[1]) >> 10
    except (OSError, ValueError):
        pass
    return 0


def cap_memory():
    """A workload that runs out of this fails by itself instead of taking the machine's memory (8 run at a time)."""
    resource.setrlimit(resource.RLIMIT_AS, (4500 << 20, 4500 << 20))


def run_leg(exe, leg, prop, tier, seed, tmp):
    n = leg.get("shards", 8)
    budget = leg.get("budget", {}).get(tier) or (70 if tier == "quick" else 420)
    limit = budget + (170 if tier == "quick" else 300)
    procs = []
    for s in range(n):
        out = os.path.join(tmp, f"rep-{leg['name']}-{s}.json")
        err = open(os.path.join(tmp, f"err-{leg['name']}-{s}.txt"), "w+")
        args = [exe, "-prop", leg.get("prop", prop), "-leg", leg.get("leg", leg["name"]), "-tier", tier, "-seed", str(seed),
                "-shard", str(s), "-shards", str(n), "-out", out, "-budget", f"{budget}s"] + leg.get("args", [])
        procs.append((s, out, err, args, subprocess.Popen(args, stdout=err, stderr=err, env=leg_env(leg), cwd=tmp, preexec_fn=None if leg.get("race") else cap_memory)))
    deadline = time.time() + limit
    res = []
    stop = None
    short = False
    for s, out, err, args, p in procs:
        timed = False
        while p.poll() is None:
            if time.time() > deadline or (stop and time.time() > stop):
                timed = True
                p.kill()
                p.wait()
                break
            # Once one shard reported a violation the others need not go on for long.
            if stop is None and any(q.poll() not in (None, 0) for *_, q in procs):
                stop = time.time() + 20
            short = short or available_mb() < 2000
            time.sleep(0.02)
        err.flush()
        err.seek(0)
        text = err.read()
        err.close()
        rep = None
        if os.path.exists(out):
            try:
                rep = json.load(open(out))
            except ValueError:
                rep = None
        keys = array.array("Q")
        try:
            with open(out + ".keys", "rb") as f:
                keys.frombytes(f.read())
        except OSError:
            pass
        res.append(dict(shard=s, rc=p.returncode, timed=timed, rep=rep, text=text, keys=keys, args=args, short=short))
    return res


def relevant(text, n=6000):
    """The informative head and tail of a crash output."""
    return text if len(text) <= 2 * n else text[:n] + "\n...\n" + text[-n:]


def digests(reps):
    d = {}
    for r in reps:
        if r["rep"] and r["rep"].get("done") and r["rc"] == 0:
            d.update(r["rep"].get("digests") or {})
    return d


def twins(w, leg, exe, reps, prop, tier, seed):
    """Compares what the two builds of a leg wrote down; the first difference is a violation."""
    native = {k: v for k, v in leg.items() if k != "arch"}
    native["name"] += "-native"
    nexe = w.build(native)
    a, b = digests(reps), digests(run_leg(nexe, dict(native, leg=leg["name"]), prop, tier, seed, w.tmp))
    bad = [k for k in a if k in b and a[k] != b[k]]
    if not bad:
        return []
    sub, case = min(bad, key=lambda k: int(k.rsplit("/", 1)[1])).rsplit("/", 1)
    out = [answers(e, leg, prop, tier, seed, sub, case) for e in (exe, nexe)]
    diff = next((f"{x!r} on {leg['arch']}, {y!r} natively" for x, y in zip(*out) if x != y), "")
    return [dict(sub=sub, case=int(case), kind="answers-differ", detail=f"the same calls are answered differently: {diff} ({len(bad)} of {len(a)} cases differ)", leg=leg["name"], shard=0)]


def answers(exe, leg, prop, tier, seed, sub, case):
    args = [exe, "-prop", leg.get("prop", prop), "-leg", leg.get("leg", leg["name"]), "-tier", tier, "-seed", str(seed), "-case", str(case), "-sub", sub]
    return subprocess.run(args, env=leg_env(leg), capture_output=True, text=True).stdout.splitlines()


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    w = Work()
    try:
        return check_in(w, prop, tier, seed, t0)
    finally:
        w.close()


def check_in(w, prop, tier, seed, t0):
    legs = LEGS[prop]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    notes, errors, violations = [], [], []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES[prop], "samples": [], "legs": {}}
    keys = set()
    incon = 0

    def do_build(leg):
        try:
            return w.build(leg), None
        except BuildError as e:
            return None, str(e)

    try:
        if any(l.get("overlay") for l in legs):
            w.overlay()
    except BuildError as e:
        notes.append("no instrumented build: " + str(e)[-500:])
    with ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(do_build, legs))
    t_build = time.time() - t0
    ran = 0
    for leg, (exe, berr) in zip(legs, exes):
        if exe is None and leg.get("arch"):
            # A tree that builds natively but not for the 32-bit target breaks the property.
            native = {k: v for k, v in leg.items() if k != "arch"}
            native["name"] += "-native"
            try:
                w.build(native)
                violations.append(dict(sub="", case=-1, kind="build", detail=f"builds natively but not for {leg['arch']}: {berr[-2000:]}", leg=leg["name"], shard=0))
                break
            except BuildError:
                pass
        if exe is None:
            (notes if leg.get("overlay") else errors).append(f"leg {leg['name']} does not build: {berr[-1500:]}")
            continue
        tl = time.time()
        lc = {"processes": 0, "cases": 0, "nontrivial": 0, "counters": {}}
        reps = run_leg(exe, leg, prop, tier, seed, w.tmp)
        for r in reps:
            rep = r["rep"]
            if rep is not None and rep.get("violations"):
                for v in rep["violations"]:
                    violations.append(dict(v, leg=leg["name"], shard=r["shard"]))
            elif rep is not None and rep.get("done") and r["rc"] == 0:
                pass
            elif r["timed"]:
                notes.append(f"leg {leg['name']} shard {r['shard']} stopped at the time limit; its observations are not counted")
                continue
            elif r["rc"] in (2, 66) and ("panic" in r["text"] or "fatal error" in r["text"] or "DATA RACE" in r["text"] or "SIG" in r["text"]) \
                    and "cannot allocate memory" not in r["text"] and "out of memory" not in r["text"]:
                kind = "data-race" if "DATA RACE" in r["text"] else "crash"
                violations.append(dict(sub="", case=-1, kind=kind, detail=relevant(r["text"]), leg=leg["name"], shard=r["shard"]))
            elif r["rc"] == 2 and not leg.get("race") and "fatal error" in r["text"] and ("cannot allocate memory" in r["text"] or "out of memory" in r["text"]) and not any(x["short"] for x in reps):
                # The machine had memory to spare: the workload alone used up its 4.5 GB, of which it normally needs a few percent.
                violations.append(dict(sub="", case=-1, kind="memory", detail="the workload ran out of memory: " + relevant(r["text"]), leg=leg["name"], shard=r["shard"]))
            else:
                errors.append(f"leg {leg['name']} shard {r['shard']} ended with status {r['rc']}: {r['text'][-800:]}")
                continue
            if rep is None:
                continue
            lc["processes"] += 1
            lc["cases"] += rep["cases"]
            lc["nontrivial"] += rep["nontrivial"]
            incon += rep["inconclusive"]
            for k, v in rep["counters"].items():
                old = lc["counters"].get(k, 0)
                lc["counters"][k] = max(old, v) if k.startswith("most_") else old + v
            cov["evaluations"] += rep["cases"]
            keys.update(r["keys"])
            if len(cov["samples"]) < 5:
                cov["samples"] += [f"[{leg['name']}] {s}" for s in rep["samples"][:2]]
            ran += 1
        if leg.get("twin") and not violations:
            try:
                violations += twins(w, leg, exe, reps, prop, tier, seed)
            except BuildError as e:
                notes.append(f"native build of leg {leg['name']} failed: {str(e)[-300:]}")
        elif violations and leg.get("differs"):
            # A 32-bit leg: what fails on the native target as well has nothing to do with the word size.
            native = {k: v for k, v in leg.items() if k != "arch"}
            native["name"] += "-native"
            try:
                again = run_leg(w.build(native), native, prop, tier, seed, w.tmp)
                if any(r["rc"] != 0 for r in again):
                    notes.append(f"leg {leg['name']}: fails on the native target as well, so not a violation of {prop}: {violations[0]['detail'][:300]}")
                    violations = []
            except BuildError as e:
                notes.append(f"native build of leg {leg['name']} failed: {str(e)[-300:]}")
        lc["wall_s"] = round(time.time() - tl, 2)
        cov["legs"][leg["name"]] = lc
        if violations:
            break
    cov["distinct_nontrivial"] = len(keys)
    cov["samples"] = cov["samples"][:6]
    cov["inconclusive_executions"] = incon
    cov["build_s"] = round(t_build, 2)
    if w.ovinfo:
        cov["instrumentation"] = w.ovinfo
    if notes:
        cov["notes"] = notes
    replay = None
    if violations:
        v = violations[0]
        replay = os.path.join(evdir, "replay", f"{prop}.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": violations[:4],
                       "replay_cmd": f"python3 {VERIF}/check.py --replay {replay}"}, f, indent=1)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME.get(prop, []) + ASSUME["*"], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        print("note:", n, file=sys.stderr)
    if violations:
        v = violations[0]
        print(f"{prop}: {v['kind']} in leg {v['leg']} {v['sub']} case {v['case']}: {v['detail'][:3000]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors:
        for e in errors:
            print("error:", e, file=sys.stderr)
        return 2
    if ran and cov["evaluations"] and incon and not keys:
        # Goroutines of the library that the scheduler cannot control: no verdict, hence no alarm.
        print(f"{prop}: all {incon} executions were inconclusive, nothing was decided ({ev['wall_s']} s)")
        return 0
    if ran == 0 or cov["evaluations"] == 0 or not keys:
        print(f"{prop}: nothing was observed", file=sys.stderr)
        return 2
    print(f"{prop}: held on {cov['evaluations']} executions, {cov['distinct_nontrivial']} distinct non-trivial ({ev['wall_s']} s)")
    return 0


def replay(path):
    d = json.load(open(path))
    w = Work()
    rc = 0
    try:
        for v in d["violations"][:1]:
            leg = next(l for l in LEGS[d["property"]] if l["name"] == v["leg"])
            exe = w.build(leg)
            if leg.get("twin"):
                native = {k: x for k, x in leg.items() if k != "arch"}
                native["name"] += "-native"
                a, b = (answers(x, leg, d["property"], d["tier"], d["seed"], v["sub"], v["case"]) for x in (exe, w.build(native)))
                for x, y in zip(a, b):
                    print(("  " if x == y else "! ") + x + ("" if x == y else "      natively: " + y))
                rc |= int(a != b)
                continue
            if v["case"] < 0:
                for r in run_leg(exe, leg, d["property"], d["tier"], d["seed"], w.tmp):
                    print(relevant(r["text"]))
                    rc |= int(r["rc"] != 0)
                continue
            args = [exe, "-prop", leg.get("prop", d["property"]), "-leg", leg.get("leg", leg["name"]), "-tier", d["tier"], "-seed", str(d["seed"]),
                    "-case", str(v["case"]), "-sub", v["sub"]] + leg.get("args", [])
            rc |= int(subprocess.run(args, env=leg_env(leg)).returncode != 0)
    finally:
        w.close()
    return rc


def setup():
    w = Work()
    try:
        seen = set()
        for prop in sorted(LEGS):
            for leg in LEGS[prop]:
                k = (leg["pkg"], leg.get("overlay"), leg.get("race"), leg.get("arch"))
                if k in seen:
                    continue
                seen.add(k)
                try:
                    os.remove(w.build(leg))
                except BuildError as e:
                    print("setup:", k, e)
                    return 1
    finally:
        w.close()
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        return setup()
    if a[:1] == ["--replay"]:
        return replay(a[1])
    if not a or a[0] not in LEGS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
