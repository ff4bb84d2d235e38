"""Property-based testing harness: generated cases (Hypothesis), worker
processes, crash/hang capture, shrinking, replay, evidence.

A check is a module in /verif/checks defining CHECK = Check(...).  Its parts
have a Hypothesis strategy for JSON-able cases and a function run(case, ev)
raising Violation if the property does not hold.  ev.label(...) and
ev.nontrivial() classify the case; Discard drops it.

  check.py                 quick or thorough run (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE   re-execute one saved case: exit 1 if it violates
"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Discard(Exception):
    pass


class Ev:
    def __init__(self):
        self.labels = set()
        self.nt = False
        self.n = 1

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, flag=True):
        self.nt = self.nt or bool(flag)


class Part:
    def __init__(self, name, strategy, run, quick, thorough, sample=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough  # number of cases over all workers
        self.sample = sample or (lambda case: case)


class Check:
    def __init__(self, pid, parts, rule, build=None, assumptions=(), level="exploration", env=None, init=None,
                 cap_quick=240, cap_thorough=840, workers=8):
        self.pid, self.parts, self.rule, self.build = pid, parts, rule, build
        self.assumptions, self.level, self.env, self.init = list(assumptions), level, env or {}, init
        self.cap = {"quick": cap_quick, "thorough": cap_thorough}
        self.workers = workers


SHRINK_S = 60


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def known_findings(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text()) if k.get("property") == pid and k.get("status") == "known"]


# ------------------------------------------------------------------ worker

def guarded_run(part, case, ev):
    """an exception that no oracle expects is a violation as well"""
    try:
        part.run(case, ev)
    except (Violation, Discard, KeyboardInterrupt):
        raise
    except BaseException as e:
        tb = "".join(traceback.format_exception(e)[-6:])
        if type(e).__module__.startswith("hypothesis"):
            raise
        raise Violation(f"unexpected exception {type(e).__name__}: {e}\n{tb}\n{jdump(case)[:3000]}") from None


def _run_case(part, case, ev, known_sigs, hits):
    try:
        guarded_run(part, case, ev)
    except Violation as v:
        if v.sig is not None and v.sig in known_sigs:
            hits[v.sig] += 1
            return
        raise


def worker(check, idx, nworkers, tier, seed, outfile):
    import hypothesis as hy
    from hypothesis import HealthCheck, Phase, given, settings

    if check.init:
        check.init()
    known_sigs = {k["sig"] for k in known_findings(check.pid)}
    journal = open(outfile + ".journal", "wb", buffering=0)
    res = {"parts": {}, "failures": [], "known": {}}
    hits = Counter()
    skip = set(filter(None, os.environ.get("VP_SKIP", "").split(",")))
    deadline = time.time() + check.cap[tier] * 0.9
    for part in check.parts:
        total = getattr(part, tier)
        n = total // nworkers + (1 if idx < total % nworkers else 0)
        st = {"evaluations": 0, "discarded": 0, "skipped": 0, "labels": Counter(), "nt": set(), "samples": [], "wall": 0.0}
        failing = {}
        t0 = time.time()

        def execute(case, part, st, failing):
            if time.time() > deadline and not failing:
                st["skipped"] += 1
                return
            if failing and time.time() > failing["t"] + SHRINK_S:
                return  # shrinking budget used up
            text = jdump(case)
            if skip and hashlib.sha1(text.encode(errors="surrogateescape")).hexdigest() in skip:
                st["discarded"] += 1
                return
            os.pwrite(journal.fileno(), (jdump([part.name, case]) + "\n").encode(errors="surrogateescape"), 0)
            os.ftruncate(journal.fileno(), len((jdump([part.name, case]) + "\n").encode(errors="surrogateescape")))
            ev = Ev()
            try:
                _run_case(part, case, ev, known_sigs, hits)
            except Discard:
                st["discarded"] += 1
                return
            except Violation as v:
                failing.setdefault("t", time.time())
                failing["case"], failing["msg"] = json.loads(text), str(v)
                raise
            st["evaluations"] += ev.n
            st["labels"].update(ev.labels)
            if ev.nt:
                h = hashlib.sha1(text.encode(errors="surrogateescape")).hexdigest()[:16]
                if h not in st["nt"]:
                    st["nt"].add(h)
                    k = len(st["nt"])
                    if k <= 2 or (k & (k - 1)) == 0:
                        st["samples"] = (st["samples"] + [part.sample(case)])[-4:]

        if n:
            def body(case):
                execute(case, part, st, failing)
            test = given(case=part.strategy)(body)
            test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            report_multiple_bugs=False, print_blob=False,
                            suppress_health_check=list(HealthCheck),
                            phases=[Phase.generate, Phase.shrink])(test)
            test = hy.seed(seed * 10007 + idx * 101 + int(hashlib.sha1(part.name.encode()).hexdigest()[:6], 16))(test)
            try:
                test()
            except Violation:
                pass
            except BaseException as e:
                if not failing:
                    raise
            if failing:
                res["failures"].append({"part": part.name, "case": failing["case"], "msg": failing["msg"]})
        st["wall"] = time.time() - t0
        st["nt"] = sorted(st["nt"])
        st["labels"] = dict(st["labels"])
        res["parts"][part.name] = st
    res["known"] = dict(hits)
    with open(outfile, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------ parent

def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mem = int(os.environ.get("VP_MEM_MB", "3000")) << 20
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))


def _spawn(script, args, env, **kw):
    return subprocess.Popen([sys.executable, script, *args], env=env, start_new_session=True, **kw)


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def replay_proc(script, env, partcase, timeout=90):
    """returns (status, text): 'ok', 'violation', 'crash', 'hang', 'error', 'discard'"""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump({"part": partcase[0], "case": partcase[1]}, f)
    with tempfile.TemporaryFile() as out:
        p = _spawn(script, ["--replay-inner", f.name], env, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            _kill(p)
            rc = None
        out.seek(0)
        text = out.read().decode(errors="replace")[-4000:]
    os.unlink(f.name)
    if rc is None:
        return "hang", text
    if rc < 0 or rc >= 128:
        return "crash", f"signal/exit {rc}\n{text}"
    return {0: "ok", 1: "violation", 77: "discard"}.get(rc, "error"), text


def _json_shrink(script, env, partcase, status, budget=45):
    """Greedy structural shrink for cases that kill the process."""
    t0 = time.time()
    best = partcase

    def variants(x):
        if isinstance(x, list):
            n = len(x)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    yield x[:i] + x[i + size:]
                size //= 2
            for i, y in enumerate(x):
                for v in variants(y):
                    yield x[:i] + [v] + x[i + 1:]
        elif isinstance(x, dict):
            for k, y in x.items():
                for v in variants(y):
                    yield {**x, k: v}
        elif isinstance(x, str) and len(x) > 1:
            yield x[:len(x) // 2]
            yield x[len(x) // 2:]

    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for v in variants(best[1]):
            if time.time() - t0 > budget:
                break
            if replay_proc(script, env, [best[0], v], 30)[0] == status:
                best = [best[0], v]
                progress = True
                break
    return best


def main(check, script):
    args = sys.argv[1:]
    if args and args[0] in ("--worker", "--replay-inner"):
        _limit()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if args and args[0] == "--worker":
        worker(check, int(args[1]), int(args[2]), tier, seed, args[3])
        return 0
    if args and args[0] in ("--replay-inner", "--replay"):
        data = json.load(open(args[1]))
        if data["part"] == "worker":
            w = data["case"]
            env = {**_prepare(check), "VERIF_SEED": str(w["seed"]), "VERIF_TIER": w["tier"]}
            with tempfile.TemporaryDirectory() as d:
                rc = _spawn(script, ["--worker", str(w["index"]), str(w["workers"]), d + "/out"], env).wait()
            print("worker ended with", rc)
            return 1 if rc < 0 or rc >= 128 else 0
        part = next(p for p in check.parts if p.name == data["part"])
        if args[0] == "--replay":
            env = _prepare(check)
            st, text = replay_proc(script, env, [data["part"], data["case"]])
            print(text)
            print("replay:", st)
            return 0 if st in ("ok", "discard") else 1
        if check.init:
            check.init()
        try:
            guarded_run(part, data["case"], Ev())
        except Discard:
            return 77
        except Violation as v:
            print(v)
            return 1
        return 0

    t0 = time.time()
    try:
        env = _prepare(check)
    except Exception as e:
        # The tree does not build: nothing can be said about the property.
        print(f"check error: {e}", file=sys.stderr)
        return 2
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix=f"vp-{check.pid}-")
    try:
        return _drive(check, script, env, tier, seed, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _prepare(check):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env.setdefault("LC_ALL", "C.UTF-8")
    if check.build:
        env.update(check.build() or {})
    env.update(check.env)
    return env


def _drive(check, script, env, tier, seed, tmp, t0, t_build):
    cap = check.cap[tier]
    W = check.workers
    env["VERIF_SEED"], env["VERIF_TIER"] = str(seed), tier
    results, suspects, errors, inconclusive = [], [], [], 0
    lib_crashes = []  # cases on which the library itself fails, without the code under test
    skips, last_crash = {i: [] for i in range(W)}, {}
    worker_viol = []

    def start(i):
        out = os.path.join(tmp, f"w{i}.json")
        err = open(out + ".err", "wb")
        return [out, _spawn(script, ["--worker", str(i), str(W), out], {**env, "VP_SKIP": ",".join(skips[i])}, stdout=err,
                            stderr=err, stdin=subprocess.DEVNULL), [None, time.time()]]

    def died(i, kind, out):
        """a worker crashed or hangs: find out why; returns True if it is to be started again"""
        pc = _journal(out)
        if pc is None:
            suspects.append((kind, None, None))
            return False
        h = hashlib.sha1(jdump(pc[1]).encode(errors="surrogateescape")).hexdigest()
        st, text = replay_proc(script, env, pc)
        if st in ("crash", "hang", "violation"):
            if st != "violation" and replay_proc(script, {**env, "VP_REF_ONLY": "1"}, pc)[0] == st:
                lib_crashes.append(pc)
                if os.environ.get("VP_DEBUG"):
                    Path(f"/tmp/libcrash-{check.pid}-{len(lib_crashes)}.json").write_text(json.dumps({"part": pc[0], "case": pc[1]}))
                skips[i].append(h)
                return len(skips[i]) < 8
            suspects.append((st, pc, text))
            return False
        if kind == "crash" and last_crash.get(i) == h:
            # the same history of cases crashes again at the same case
            worker_viol.append((i, pc))
            return False
        again = i not in last_crash
        last_crash[i] = h
        return again
    live = {i: start(i) for i in range(W)}
    while live:
        time.sleep(0.1)
        for i in list(live):
            out, p, last = live[i]
            rc = p.poll()
            if rc is None:
                j = out + ".journal"
                try:
                    st = os.stat(j)
                    key = (st.st_mtime_ns, st.st_size)
                except OSError:
                    key = None
                now = time.time()
                if key != last[0]:
                    last[0], last[1] = key, now
                elif now - last[1] > 60 and key is not None:
                    _kill(p)
                    del live[i]
                    if died(i, "hang", out):
                        live[i] = start(i)
                if i in live and now - t0 > cap + 60:
                    _kill(p)
                    inconclusive += 1
                    del live[i]
                continue
            del live[i]
            if rc == 0:
                results.append(json.load(open(out)))
            elif rc < 0 or rc >= 128:
                if died(i, "crash", out):
                    live[i] = start(i)
            else:
                errors.append(open(out + ".err", errors="replace").read()[-4000:])
    violations = []
    for res in results:
        for f in res["failures"]:
            violations.append(([f["part"], f["case"]], f["msg"], "violation"))
    for st, pc, text in suspects:
        if pc is None:
            errors.append(f"worker died ({st}) before its first case")
            continue
        if len(violations) < 12 and st == "crash":
            pc = _json_shrink(script, env, pc, st)
            text = replay_proc(script, env, pc)[1]
        violations.append((pc, f"{st}: {text}", st))
    confirmed = []
    violations.sort(key=lambda v: len(jdump(v[0])))
    done_parts = set()
    for pc, msg, kind in violations:
        if pc[0] in done_parts:
            continue
        outcomes = [replay_proc(script, env, pc)[0] for _ in range(3 if kind != "hang" else 1)]
        bad = sum(o in ("violation", "crash", "hang") for o in outcomes)
        if bad * 2 > len(outcomes):
            confirmed.append((pc, msg))
            done_parts.add(pc[0])
        else:
            errors.append(f"failure does not reproduce ({outcomes}): {msg[:1500]}\n{jdump(pc)[:1500]}")
    for i, pc in worker_viol[:1]:
        # check that the reference alone survives the same cases
        out = os.path.join(tmp, "ref.json")
        p = _spawn(script, ["--worker", str(i), str(W), out], {**env, "VP_REF_ONLY": "1"}, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        try:
            ok = p.wait(cap) in (0, 2)
        except subprocess.TimeoutExpired:
            _kill(p)
            ok = False
        if ok and not confirmed:
            confirmed.append((["worker", {"index": i, "workers": W, "seed": seed, "tier": tier, "last": pc}],
                              "the sequence of cases run by one worker ends in a crash"))
    # evidence
    ev_n = nt_n = skipped = disc = 0
    labels, per_part, samples, known_hits = Counter(), {}, [], Counter()
    for part in check.parts:
        sts = [r["parts"][part.name] for r in results if part.name in r["parts"]]
        e = sum(s["evaluations"] for s in sts)
        nts = set().union(*[set(s["nt"]) for s in sts]) if sts else set()
        lab = Counter()
        for s in sts:
            lab.update(s["labels"])
        sk, di = sum(s["skipped"] for s in sts), sum(s["discarded"] for s in sts)
        per_part[part.name] = {"evaluations": e, "distinct_nontrivial": len(nts), "discarded": di,
                               "not_run_time_cap": sk, "labels": dict(lab.most_common(60)),
                               "worker_seconds": round(sum(s["wall"] for s in sts), 1)}
        ev_n, nt_n, skipped, disc = ev_n + e, nt_n + len(nts), skipped + sk, disc + di
        for s in sts[:2]:
            samples += [{"part": part.name, "case": c} for c in s["samples"][:2]]
    for r in results:
        known_hits.update(r["known"])
    kf = known_findings(check.pid)
    samples = [s if len(jdump(s)) < 6000 else {"part": s["part"], "case_excerpt": jdump(s["case"])[:6000]} for s in samples]
    evidence = {"property": check.pid, "tier": tier, "seed": seed, "level": check.level,
                "coverage": {"evaluations": ev_n, "distinct_nontrivial": nt_n, "rule": check.rule,
                             "samples": samples[:16] or ["none"], "discarded": disc, "not_run_time_cap": skipped,
                             "parts": per_part, "build_s": round(t_build, 1), "workers": W,
                             "known_finding_hits": dict(known_hits),
                             "cases_on_which_the_installed_library_itself_fails": len(lib_crashes)},
                "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    edir = VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{check.pid}.json").write_text(json.dumps(evidence, indent=1))
    for k in kf:
        print(f"KNOWN-FINDING: property={check.pid} {k['what']}")
    print(f"{check.pid}: {ev_n} cases, {nt_n} distinct non-trivial, {disc} discarded, {skipped} not run (time cap), "
          f"{time.time() - t0:.1f}s (build {t_build:.1f}s)")
    if confirmed:
        rdir = VERIF / "replay"
        rdir.mkdir(exist_ok=True)
        for pc, msg in confirmed:
            h = hashlib.sha1(jdump(pc).encode(errors="surrogateescape")).hexdigest()[:10]
            path = rdir / f"{check.pid}-{pc[0]}-{h}.json"
            path.write_text(json.dumps({"property": check.pid, "part": pc[0], "case": pc[1], "message": msg}, indent=1))
            print(msg[:3000])
            print(f"VIOLATION property={check.pid} replay={path}")
        for e in errors:
            print("note:", e[:1500], file=sys.stderr)
        return 1
    if errors or (not results) or nt_n == 0:
        for e in list(dict.fromkeys(errors))[:3]:
            print("check error:", e, file=sys.stderr)
        if not errors:
            print(f"check error: nothing explored ({inconclusive} workers out of time)", file=sys.stderr)
        return 2
    return 0


def _journal(out):
    try:
        return json.loads(open(out + ".journal", "rb").read().decode(errors="surrogateescape"))
    except (OSError, ValueError):
        return None


def hex_unicode(s):
    return s
