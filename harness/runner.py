"""Drives the checks: generates cases with Hypothesis in parallel workers, shrinks and confirms failures, writes evidence."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

from . import build
from .props import P

VERIF = build.VERIF
NWORK = int(os.environ.get("PZ_WORKERS", "8"))
SHRINK_RUNS = 70
SOFT_S = {"quick": 420, "thorough": 3 * 3600}


def parts_of(pid):
    """[(part name, object with strategy(), run(case, paths, workdir), n=(quick, thorough), nontrivial, cats)]"""
    from . import parts
    return parts.parts(pid)


def h8(s):
    return hashlib.sha1(s.encode()).hexdigest()[:12]


def tmproot():
    d = os.environ.get("PZ_TMP") or "/tmp"
    return d


def run_case(part, case, paths, root):
    """Runs one case in a directory of its own; retries when the harness itself failed."""
    from .world import HarnessError
    last = None
    for i in range(3):
        d = tempfile.mkdtemp(prefix="c", dir=root)
        try:
            return part.run(case, paths, d)
        except (HarnessError, OSError, subprocess.TimeoutExpired) as e:
            last = e
            time.sleep(0.3 * (i + 1))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    raise last


def is_bad(part, verdict):
    return verdict.startswith("violation") and (part.cats is None or verdict.partition(":")[2] in part.cats)


def worker(pid, pname, wid, seed, n, out, soft):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    part = [p for p in parts_of(pid) if p.name == pname][0]
    paths = build.paths()
    root = tempfile.mkdtemp(prefix="pz-%s-%d-" % (pid, wid), dir=tmproot())
    res = dict(evaluations=0, nontrivial=[], stats={}, samples=[], offprop={}, unrepro=[], errors=[], fail=None, skipped=0)
    cache = {}
    st = dict(failing=False, runs=0, final=None)
    t0 = time.monotonic()

    class Fail(Exception):
        pass

    def one(case):
        key = json.dumps(case, sort_keys=True)
        hit = cache.get(key)
        if hit is not None:
            if hit[0]:
                st["final"] = (case, hit[1])
                raise Fail("violation")
            return
        if st["failing"]:
            if st["runs"] >= SHRINK_RUNS:
                return
            st["runs"] += 1
        elif time.monotonic() - t0 > soft or os.path.exists(out + ".stop"):
            res["skipped"] += 1
            return
        try:
            v, msg, stats = run_case(part, case, paths, root)
            bad = is_bad(part, v)
            if bad and not st["failing"]:
                v2, msg2, _ = run_case(part, case, paths, root)
                if not is_bad(part, v2):
                    res["unrepro"].append(dict(case=case, msg=msg))
                    bad = False
        except Exception as e:
            res["errors"].append("%s: %s" % (type(e).__name__, str(e)[:1500]) + traceback.format_exc()[-1200:])
            if len(res["errors"]) > 20:
                raise
            cache[key] = (False, "")
            return
        if not st["failing"]:
            res["evaluations"] += 1
            for k, c in stats.items():
                res["stats"][k] = res["stats"].get(k, 0) + c
            if any(stats.get(k) for k in part.nontrivial):
                res["nontrivial"].append(h8(key))
                if len(res["samples"]) < 1 or (wid < 2 and len(res["samples"]) < 2):
                    res["samples"].append(part.sample(case))
            if v.startswith("violation") and not bad:
                k = v.partition(":")[2]
                res["offprop"][k] = res["offprop"].get(k, 0) + 1
                res.setdefault("offmsg", {}).setdefault(k, [msg[:600], case])
        cache[key] = (bad, msg)
        if bad:
            st["failing"] = True
            st["final"] = (case, msg)
            if os.environ.get("PZ_TRACE"):
                sys.stderr.write("FAIL %s\n" % msg)
            raise Fail("violation")

    import random
    independent(0.95)
    t = given(part.strategy())(one)
    t = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
                 phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))(t)
    t = hypothesis.seed(int(hashlib.sha256(("%s/%s/%d/%d" % (pid, pname, seed, wid)).encode()).hexdigest()[:15], 16))(t)
    try:
        t()
    except Fail:
        res["fail"] = dict(case=st["final"][0], msg=st["final"][1], shrink_runs=st["runs"])
    except BaseException as e:
        if st["final"] is not None:
            res["fail"] = dict(case=st["final"][0], msg=st["final"][1], shrink_runs=st["runs"])
        elif isinstance(e, hypothesis.errors.HypothesisException) and st["failing"]:
            res["unrepro"].append(dict(msg=repr(e)[:500]))
        else:
            res["errors"].append(repr(e)[:2000])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def replay(pid, path):
    """Runs one saved case; exit status 1 when it violates the property."""
    with open(path) as f:
        d = json.load(f)
    part = [p for p in parts_of(pid) if p.name == d["part"]][0]
    root = tempfile.mkdtemp(prefix="pz-%s-r-" % pid, dir=tmproot())
    try:
        v, msg, stats = run_case(part, d["case"], build.paths(), root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    bad = is_bad(part, v)
    print(json.dumps(dict(bad=bad, verdict=v, msg=msg, stats=stats)))
    return 1 if bad else 0


def confirm(pid, path, tries=5):
    """Fresh processes, one after another: the failure is believed when it shows in two of five."""
    bad = 0
    msg = ""
    for i in range(tries):
        r = subprocess.run([sys.executable, "-m", "harness.runner", pid, "--replay", path], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode == 1:
            try:
                msg = json.loads(r.stdout.decode().strip().splitlines()[-1])["msg"]
                bad += 1
            except (ValueError, IndexError, KeyError):
                pass
        if bad >= 2:
            return msg
        if bad == 0 and i >= 2:
            return None
    return None


def independent(p):
    """Hypothesis follows every case it generates with five variations of it (that duplicate a part of it): have it do so
    only once in a while, so that most cases are independent of each other."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    real = getattr(ConjectureRunner, "generate_mutations_from", None)
    if real is None or getattr(real, "pz", False):
        return

    def few(self, data):
        if self.random.random() >= p:
            real(self, data)
    few.pz = True
    ConjectureRunner.generate_mutations_from = few


def findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) signature=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def check(pid):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        build.build()
    except build.BuildError as e:
        print("cannot build: " + str(e))
        return 2
    pp = parts_of(pid)
    work = tempfile.mkdtemp(prefix="pz-%s-" % pid, dir=tmproot())
    env = dict(os.environ, PZ_TMP=work, PYTHONHASHSEED="0")
    env["PYTHONPATH"] = VERIF + (":" + env["PYTHONPATH"] if env.get("PYTHONPATH") else "")
    rc = 0
    viol = None
    tot = dict(evaluations=0, nontrivial=set(), stats={}, samples=[], offprop={}, unrepro=0, errors=[], skipped=0, per_part={}, corpus=0)
    procs = []
    try:
        # saved cases first
        saved = sorted(glob.glob(os.path.join(VERIF, "corpus", pid, "*.json")))
        running = []
        todo = list(saved)
        suspects = []
        while todo or running:
            while todo and len(running) < NWORK:
                p = todo.pop(0)
                running.append((p, subprocess.Popen([sys.executable, "-m", "harness.runner", pid, "--replay", p], cwd=VERIF, env=env,
                                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
            for x in list(running):
                if x[1].poll() is not None:
                    running.remove(x)
                    tot["corpus"] += 1
                    if x[1].returncode == 1:
                        suspects.append(x[0])
            time.sleep(0.01)
        for p in suspects:
            m = confirm(pid, p)
            if m is not None:
                viol = (p, m)
                break
        mult = float(os.environ.get("PZ_SCALE", "1"))
        for part in pp:
            if viol:
                break
            n = int(part.n[0 if tier == "quick" else 1] * mult)
            each = max(1, (n + NWORK - 1) // NWORK)
            outs = []
            for w in range(NWORK):
                o = os.path.join(work, "%s-%d.json" % (part.name, w))
                outs.append(o)
                procs.append(subprocess.Popen([sys.executable, "-m", "harness.runner", pid, "--worker", part.name, str(w), str(seed), str(each), o,
                                               str(SOFT_S[tier] / len(pp))], cwd=VERIF, env=env, stdout=subprocess.DEVNULL,
                                              stderr=None if os.environ.get("PZ_TRACE") else subprocess.PIPE))
            pend = dict(zip(outs, procs[-NWORK:]))
            results = []
            while pend:
                for o, p in list(pend.items()):
                    if p.poll() is None:
                        continue
                    del pend[o]
                    if not os.path.exists(o):
                        tot["errors"].append("worker died: " + (p.stderr.read().decode(errors="replace")[-1500:] if p.stderr else ""))
                        continue
                    with open(o) as f:
                        r = json.load(f)
                    results.append(r)
                    if r["fail"] and not viol:
                        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                        c = dict(property=pid, part=part.name, case=r["fail"]["case"], msg=r["fail"]["msg"])
                        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h8(json.dumps(c["case"], sort_keys=True))))
                        with open(path, "w") as f:
                            json.dump(c, f, indent=1)
                        m = confirm(pid, path)
                        if m is None:
                            tot["unrepro"] += 1
                            print("note: not reproduced in fresh processes: %s (%s)" % (r["fail"]["msg"][:300], path))
                        else:
                            known = [w for rx, w in findings(pid) if rx.search(m)]
                            if known:
                                tot.setdefault("known", []).append(known[0])
                            else:
                                viol = (path, m)
                                for o2 in pend:
                                    open(o2 + ".stop", "w").close()
                                for p2 in pend.values():
                                    p2.terminate()
                time.sleep(0.02)
            ev = 0
            for r in results:
                ev += r["evaluations"]
                tot["nontrivial"].update(part.name + x for x in r["nontrivial"])
                for k, c in r["stats"].items():
                    tot["stats"][k] = tot["stats"].get(k, 0) + c
                for k, c in r["offprop"].items():
                    tot["offprop"][k] = tot["offprop"].get(k, 0) + c
                for k, (m, c) in r.get("offmsg", {}).items():
                    tot.setdefault("offmsg", {}).setdefault(k, m)
                tot["samples"] += r["samples"]
                tot["unrepro"] += len(r["unrepro"])
                if r["unrepro"]:
                    tot.setdefault("unrepro_msgs", []).extend([str(x.get("msg"))[:300] for x in r["unrepro"][:2]])
                tot["errors"] += r["errors"]
                tot["skipped"] += r["skipped"]
            tot["evaluations"] += ev
            tot["per_part"][part.name] = ev
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(work, ignore_errors=True)
    wall = time.monotonic() - t0
    for w in sorted(set(tot.get("known", []))):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    rule = "; ".join("%s: %s" % (p.name, p.rule) for p in pp)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["evaluations"] + tot["corpus"], distinct_nontrivial=len(tot["nontrivial"]), rule=rule, samples=tot["samples"][:5],
                            cases_per_part=tot["per_part"], saved_cases=tot["corpus"], counts=dict(sorted(tot["stats"].items())), other_property_divergences=tot["offprop"],
                            not_reproduced=tot["unrepro"], harness_errors=len(tot["errors"]), skipped_by_time_limit=tot["skipped"]),
              assumptions=[a for p in pp for a in p.assumptions], wall_s=round(wall, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s: %d cases (%d non-trivial, %d saved), %d steps predicted, %.1f s" %
          (pid, tot["evaluations"], len(tot["nontrivial"]), tot["corpus"], sum(v for k, v in tot["stats"].items() if k.startswith("op_")), wall))
    if tot["offprop"]:
        print("note: other behaviour diverged: %r %r" % (tot["offprop"], tot.get("offmsg")))
    if tot["unrepro"]:
        print("note: %d divergences not reproduced: %r" % (tot["unrepro"], tot.get("unrepro_msgs")))
    if tot["skipped"]:
        print("note: %d cases skipped (time limit)" % tot["skipped"])
    if viol:
        print("violated: " + viol[1][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, viol[0]))
        return 1
    if tot["errors"]:
        print("note: %d harness errors, e.g. %s" % (len(tot["errors"]), tot["errors"][0][:1500]))
        if tot["evaluations"] < 0.5 * sum(p.n[0] for p in pp) * mult or len(tot["errors"]) > 0.2 * tot["evaluations"]:
            return 2
    return 0


def main():
    a = sys.argv[1:]
    for s in (signal.SIGINT, signal.SIGHUP, signal.SIGTERM):  # a background job may have been given ignored signals
        signal.signal(s, signal.SIG_DFL)
    if len(a) >= 3 and a[1] == "--replay":
        if "PZ_TMP" not in os.environ:
            build.build()
        sys.exit(replay(a[0], os.path.abspath(a[2])))
    if len(a) >= 2 and a[1] == "--worker":
        worker(a[0], a[2], int(a[3]), int(a[4]), int(a[5]), a[6], float(a[7]))
        return
    sys.exit(check(a[0]))


if __name__ == "__main__":
    main()
