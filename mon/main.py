"""Scheduler of one property check: hands tasks to worker processes, collects what the monitors
observed, writes the evidence file and the verdict.

Exit codes: 0 held on everything observed, 1 violation (VIOLATION line), 2 inconclusive / harness error.
"""
import argparse, importlib, json, os, queue, random, select, shutil, signal, subprocess, sys, tempfile
import threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# environment variants a task can ask for.  The memory-safety variants really recompile the code
# under test with other code generation options (numba has no other 'build').
VARIANTS = {
    "jit": {},
    "bc": {"NUMBA_BOUNDSCHECK": "1"},
    "nojit": {"NUMBA_DISABLE_JIT": "1"},
}
TASK_TIMEOUT = {"quick": 400, "thorough": 1500}
DEADLINE = {"quick": 660, "thorough": 4 * 3600}


class Worker:
    def __init__(self, prop, variant, scratch, idx):
        self.variant = variant
        self.progress = os.path.join(scratch, "progress-%d" % idx)
        open(self.progress, "w").close()
        env = {
            "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8", "TMPDIR": scratch,
            "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore",
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "NUMBA_NUM_THREADS": "4", "NUMBA_THREADING_LAYER": "workqueue",
            "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
            # numba's on-disk cache does not see changes in other files: always start from an empty one
            "NUMBA_CACHE_DIR": os.path.join(scratch, "numba-%s-%d" % (variant, idx)),
            "PYTHONPATH": HERE, "VERIF_REPO": REPO, "VERIF_PROGRESS": self.progress,
            "VERIF_SCRATCH": scratch, "VERIF_VARIANT": variant,
        }
        env.update(VARIANTS[variant])
        self.err = open(os.path.join(scratch, "stderr-%d" % idx), "ab")
        self.p = subprocess.Popen([sys.executable, "-m", "mon.worker", prop], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  start_new_session=True)
        self.errpath = self.err.name

    def run(self, spec, timeout):
        """returns (status, result): ok / crash / timeout"""
        try:
            self.p.stdin.write((json.dumps(spec) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.p.wait()
            return "crash", self.p.returncode
        buf = b""
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while True:
            left = end - time.time()
            if left <= 0:
                return "timeout", None
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if not r:
                continue
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                self.p.wait()
                return "crash", self.p.returncode
            buf += chunk
            if buf.endswith(b"\n"):
                return "ok", json.loads(buf)

    def last(self):
        try:
            return open(self.progress, "rb").read().rstrip(b"\0").decode(errors="replace")[-2000:]
        except OSError:
            return ""

    def errtail(self):
        try:
            return open(self.errpath, "rb").read()[-1500:].decode(errors="replace")
        except OSError:
            return ""

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring filter on task names (debugging)")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-x", action="store_true", help="stop at the first violation (debugging)")
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    prop, tier = a.prop, a.tier
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    if a.replay:
        rp = json.load(open(a.replay))
        tasks = [rp["task"]] + rp.get("with", [])
        seed = rp["seed"]
    else:
        tasks = mod.tasks(tier, seed)
    for i, t in enumerate(tasks):
        t.setdefault("env", "jit")
        t.setdefault("id", i)
        t.setdefault("name", "t%d" % i)
        t.setdefault("seed", seed)
        t.setdefault("tier", tier)
    names = [t["name"] for t in tasks]
    if a.only:
        tasks = [t for t in tasks if a.only in t["name"]]
    ntasks = len(tasks)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    jobs = a.jobs or min(8, os.cpu_count() or 2, max(1, ntasks))
    deadline = t0 + DEADLINE[tier]
    lock = threading.Lock()
    # heavier tasks first ("cost"), otherwise in a fixed order
    pending = {}
    for t in sorted(tasks, key=lambda t: -t.get("cost", 1)):
        pending.setdefault(t["env"], []).append(t)
    R = dict(evaluations=0, keys={}, samples=[], violations=[], errors=[], timeouts=[], done=0, events=0,
             notes={}, per_task={}, logs={}, agreed=0)

    def take(prefer):
        with lock:
            if time.time() > deadline:
                return None
            if pending.get(prefer):
                return pending[prefer].pop(0)
            for v in sorted(pending, key=lambda v: -len(pending[v])):
                if pending[v]:
                    return pending[v].pop(0)
            return None

    from mon.core import agree

    def offline(t, logs):
        """checker over the recorded logs of all processes: one key, one result"""
        for k, rec in logs.items():
            if k not in R["logs"]:
                R["logs"][k] = (t, rec)
                continue
            t2, old = R["logs"][k]
            R["evaluations"] += 1
            R["agreed"] += 1
            R["keys"]["across processes|" + k] = R["keys"].get("across processes|" + k, 0) + 1
            if not agree(old, rec):
                R["violations"].append((t, dict(kind="log", sig="result depends on history or process",
                    detail="%s: %s in %s, %s in %s" % (k, str(old)[:200], t2["name"], str(rec)[:200], t["name"]), other=t2)))

    def loop(idx):
        order = list(pending)
        # spread workers over the variants in proportion to the work
        tot = sum(len(x) for x in pending.values()) or 1
        acc, pref = 0, order[0] if order else None
        for v in order:
            acc += len(pending[v])
            if (idx + 0.5) / jobs <= acc / tot:
                pref = v
                break
        w = None
        gen = 0
        try:
            while True:
                t = take(pref)
                if t is None:
                    break
                pref = t["env"]
                if w is None or w.variant != t["env"] or t.get("fresh"):
                    if w:
                        w.stop()
                    w = Worker(prop, t["env"], scratch, idx * 1000 + gen)
                    gen += 1
                ts = time.time()
                st, res = w.run(t, min(TASK_TIMEOUT[tier], max(30, deadline + 120 - time.time())))
                dt = time.time() - ts
                with lock:
                    R["per_task"][t["name"]] = round(dt, 2)
                    if st == "ok":
                        R["done"] += 1
                        R["evaluations"] += res["evaluations"]
                        for k, n in res["keys"].items():
                            R["keys"][k] = R["keys"].get(k, 0) + n
                        for k, n in res["notes"].items():
                            R["notes"][k] = R["notes"].get(k, 0) + n
                        offline(t, res.get("logs") or {})
                        if len(R["samples"]) < 400:
                            R["samples"].extend(res["samples"][:2])
                        for v in res["violations"]:
                            R["violations"].append((t, v))
                        if res.get("error"):
                            R["errors"].append((t["name"], res["error"]))
                        if a.v:
                            print("[%6.1f] %-40s %.1fs ev=%d viol=%d %s" % (
                                time.time() - t0, t["name"], dt, res["evaluations"], len(res["violations"]),
                                "ERROR" if res.get("error") else ""), flush=True)
                    elif st == "crash":
                        sigs = {-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL, -signal.SIGFPE}
                        last = w.last()
                        if res in sigs and last:
                            R["violations"].append((t, dict(
                                kind="crash", sig="crash signal %d" % -res,
                                detail="process died with signal %d during: %s\n%s" % (-res, last, w.errtail()))))
                        else:
                            R["errors"].append((t["name"], "worker exited %r at %s: %s" % (res, last, w.errtail())))
                    else:
                        R["timeouts"].append((t["name"], w.last()))
                if st != "ok":
                    w.stop()
                    w = None
                if len(R["violations"]) >= (1 if a.x else 60):
                    break
        except Exception as e:  # scheduler problem
            import traceback
            with lock:
                R["errors"].append(("scheduler", traceback.format_exc()))
        finally:
            if w:
                w.stop()

    try:
        th = [threading.Thread(target=loop, args=(i,)) for i in range(jobs)]
        for x in th:
            x.start()
        for x in th:
            x.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    if R["logs"]:
        R["notes"]["log keys"] = len(R["logs"])
        R["notes"]["log records compared across processes"] = R["agreed"]
    known = []
    try:
        known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
                 if k["property"] == prop and k["status"] == "known"]
    except FileNotFoundError:
        pass
    found_known, real = {}, []
    for t, v in R["violations"]:
        hit = next((k for k in known if k["sig"] == v["sig"]), None)
        if hit:
            found_known[hit["sig"]] = hit
        else:
            real.append((t, v))
    wall = time.time() - t0
    skipped = ntasks - R["done"]
    coverage_ok, why = True, ""
    if not a.replay and not a.only:
        need = getattr(mod, "REQUIRED", [])
        miss = [n for n in need if not any(n in k for k in R["keys"])]
        if R["evaluations"] == 0 or R["done"] < 0.5 * ntasks:
            coverage_ok, why = False, "observed too little (%d of %d tasks)" % (R["done"], ntasks)
        elif miss:
            coverage_ok, why = False, "never observed: %s" % ", ".join(miss)
    rnd = random.Random(seed)
    samples = R["samples"]
    if len(samples) > 12:
        samples = rnd.sample(samples, 12)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=R["evaluations"], distinct_nontrivial=len(R["keys"]),
            rule=mod.RULE, samples=samples, tasks=ntasks, tasks_completed=R["done"],
            tasks_not_run=skipped, observed=dict(sorted(R["notes"].items())),
            timeouts=[x[0] for x in R["timeouts"]], errors=[x[0] for x in R["errors"]][:20]),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(real))
    if not a.replay and not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s tier=%s seed=%d tasks=%d/%d oracle evaluations=%d distinct=%d wall=%.1fs" % (
        prop, tier, seed, R["done"], ntasks, R["evaluations"], len(R["keys"]), wall))
    for n, l in R["timeouts"]:
        print("INCONCLUSIVE task %s timed out; last call: %s" % (n, l[-400:]))
    for n, e in R["errors"][:10]:
        print("HARNESS-ERROR task %s: %s" % (n, e))
    for s, k in found_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if real:
        d = os.path.join(HERE, "replays", prop)
        os.makedirs(d, exist_ok=True)
        seen = set()
        for t, v in real:
            if v["sig"] in seen:
                continue
            seen.add(v["sig"])
            if len(seen) > 8:
                continue
            path = os.path.join(d, "%s-seed%d-task%s-%d.json" % (tier, seed, t["id"], len(seen)))
            with open(path, "w") as f:
                other = v.pop("other", None)
                json.dump(dict(property=prop, seed=seed, task=t, violation=v, **({"with": [other]} if other else {}),
                               how="/verif/check.sh %s %s --replay %s" % (prop, tier, path)), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] task=%s\n  %s" % (v["sig"], t["name"], v["detail"][:1500].replace("\n", "\n  ")))
        print("%d violations, %d distinct" % (len(real), len(seen)))
        sys.exit(1)
    if R["errors"]:
        sys.exit(2)
    if not coverage_ok or (R["timeouts"] and len(R["timeouts"]) > 0.1 * ntasks):
        print("INCONCLUSIVE %s" % (why or "too many timeouts"))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
