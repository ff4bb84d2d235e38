"""C15: solve handles obey their protocol in every call order."""
from bindcommon import *
import gensess as g
import sess
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.theory_stm()]
TEXT = g.text(EXTRA, 3)
SOLVE = g.one_of(g.solve(modes=("yield",)), g.solve(modes=("yield",)), g.solve(modes=("async", "async_yield")),
                 g.solve(modes=("sync", "async", "yield"), exc=True))
RAISE = g.one_of(st.none(), st.none(), g.pick(sess.EXC_KINDS))


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT)], ["ground", [["base", []]]]]
    for _ in range(draw(g.N(1, 4))):
        s = draw(SOLVE)
        r = draw(RAISE)
        if s[1]["mode"] != "sync" and r is not None and "async" not in s[1]["mode"]:
            s[1]["hops"] = s[1]["hops"] + [["body_raise", r]]
        ops.append(s)
        if draw(g.BOOL):
            ops.append(draw(g.one_of(g.ext_op(), st.just(["cleanup"]), st.just(["stats"]), st.just(["interrupt"]), g.atoms_op())))
    ops.append(["solve", {"mode": "sync", "model": [], "assumptions": []}])
    return {"args": draw(g.args()), "ops": ops}


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "hop") > 3)


ORD = st.lists(g.pick(["resume_wait", "resume_model", "model", "wait", "get", "cancel", "core", "last", "iter1", "iter", "close"]), max_size=12)


@st.composite
def proto_case(draw):
    return {"n": draw(g.N(0, 3)), "models": draw(g.N(0, 4)), "unsat": draw(g.N(0, 3)) == 0, "order": draw(ORD),
            "async": draw(g.BOOL), "stop": draw(g.one_of(st.none(), st.none(), g.N(1, 3)))}


def proto(case, ev):
    """the handle against a state model: models come in the order of plain enumeration, without loss or repetition,
    on_finish exactly once, get is the final result once search ended"""
    import clingo

    def fresh():
        c = clingo.Control([str(case["models"])])
        c.add("{a(1..%d)}.%s" % (case["n"], ":- not a(X), a(X). z. :- z." if case["unsat"] else ""))
        c.ground()
        return c
    c = fresh()
    ref = []
    ref_res = c.solve(on_model=lambda m: ref.append([str(s) for s in m.symbols(atoms=True)]))
    c = fresh()
    fin, seen = [], []

    def on_model(m):
        seen.append(m.number)
        return None if case["stop"] is None else len(seen) < case["stop"]
    stop = case["stop"]
    limit = len(ref) if stop is None else min(stop, len(ref))
    pos, cur, cancelled, running, ended = 0, None, False, False, False

    def bad(msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(case)}\nmodels {ref}, position {pos}")
    steps = 0
    with c.solve(yield_=True, async_=case["async"], on_model=on_model, on_finish=lambda r: fin.append(str(r))) as h:
        for o in case["order"]:
            steps += 1
            if o == "close":
                break
            if o == "cancel":
                h.cancel()
                cancelled = True
            elif cancelled:
                if o == "get":
                    h.get()
                    continue
                if o in ("wait",):
                    h.wait()
                continue
            elif o in ("resume_wait", "resume_model", "iter1"):
                if o == "iter1":
                    m = next(iter(h), None)
                else:
                    h.resume()
                    m = h.model() if o == "resume_model" else h.wait()
                pos = min(pos + 1, limit + 1)
                cur = ref[pos - 1] if pos <= limit else None
                running = True
                if o != "resume_wait" and (None if m is None else [str(s) for s in m.symbols(atoms=True)]) != cur:
                    bad("iteration returned the wrong model")
                if cur is None:
                    ended = True
            elif o == "model":
                if not running:
                    pos, running = 1, True
                    cur = ref[0] if limit >= 1 else None
                m = h.model()
                got = None if m is None else [str(s) for s in m.symbols(atoms=True)]
                if got != cur:
                    bad(f"model() is {got}, expected {cur}")
                if cur is not None and m.number != pos:
                    bad(f"model number {m.number}, expected {pos}")
                if cur is None:
                    ended = True
            elif o == "iter":
                got = [[str(s) for s in m.symbols(atoms=True)] for m in h]
                want = ref[pos:limit]
                if got != want:
                    bad(f"iteration gave {got}, expected {want}")
                pos, cur, running, ended = limit + 1, None, True, True
            elif o == "wait":
                if h.wait() is not True:
                    bad("wait() without timeout returned False")
                if not running:
                    pos, running = 1, True
                    cur = ref[0] if limit >= 1 else None
                    ended = cur is None
            elif o == "core":
                if not case["unsat"] and ended and h.core() != []:
                    bad("core of a satisfiable problem")
            elif o == "get" and ended:
                r = h.get()
                want = "UNSAT" if not ref else "SAT"
                if str(r) != want:
                    bad(f"get() is {r}, expected {want}")
                if stop is None and r.exhausted != ref_res.exhausted:
                    bad(f"exhausted is {r.exhausted}, expected {ref_res.exhausted}")
    if len(fin) != 1:
        bad(f"on_finish ran {len(fin)} times")
    if seen != list(range(1, len(seen) + 1)):
        bad(f"on_model saw numbers {seen}")
    n = []
    c.solve(on_model=lambda m: n.append([str(s) for s in m.symbols(atoms=True)]))
    if sorted(n) != sorted(ref) and case["models"] == 0:
        bad(f"control unusable afterwards: {n}")
    ev.label("stop" if stop else "nostop", "async" if case["async"] else "sync", "cancelled" if cancelled else "-")
    ev.nontrivial(steps > 2 and len(ref) > 1)


@st.composite
def poll_case(draw):
    return {"holes": draw(g.N(12, 14)), "yield": draw(g.BOOL),
            "waits": draw(g.lists(g.pick([0, 0.0, 0, 0.001, 0.01, 0.02]), 1, 6)), "end": draw(g.pick(["cancel", "close", "interrupt"]))}


def poll(case, ev):
    """waiting with a timeout on a search that does not finish returns False in time"""
    import threading
    import time
    import clingo
    c = clingo.Control(["0"], lambda c, m: None)
    n = case["holes"]
    c.add("base", [], f"1{{p(P,H):H=1..{n}}}1:-P=1..{n + 1}. :-p(P,H),p(Q,H),P<Q.")
    c.ground([("base", [])])
    late = []
    dog = threading.Timer(15, lambda: (late.append(1), c.interrupt()))
    dog.daemon = True
    dog.start()
    try:
        with c.solve(async_=True, yield_=case["yield"]) as h:
            for w in case["waits"]:
                t = time.monotonic()
                r = h.wait(w)
                t = time.monotonic() - t
                if late:
                    raise pbt.Violation(f"wait({w}) blocked on an unfinished search\n{case}")
                if r:
                    raise pbt.Violation(f"wait({w}) reported an unfinished search as ready after {t:.3f}s\n{case}")
                if t < w * 0.5:
                    raise pbt.Violation(f"wait({w}) returned after {t:.4f}s\n{case}")
            if case["end"] == "close":
                pass
            else:
                if case["end"] == "cancel":
                    h.cancel()
                else:
                    c.interrupt()
                if h.wait() is not True:
                    raise pbt.Violation(f"wait() returned False on a cancelled search\n{case}")
                res = h.get()
                # the library reports unsatisfiability if it is interrupted early
                if not res.interrupted or res.satisfiable or res.unknown != (res.satisfiable is None):
                    raise pbt.Violation(f"result of a cancelled search: {res!r}\n{case}")
    finally:
        dog.cancel()
    ev.label("poll " + case["end"])
    ev.nontrivial(len(case["waits"]) > 1)


TECHNIQUE = ("stateful property-based testing: generated call orders on solve handles, compared with a reference binding on the raw "
             "C interface and with a state model of the handle protocol")
LEVEL_NOTE = "Random search over call orders in synchronous and asynchronous modes; thread schedules are those the OS produces."
CHECK = pbt.Check(
    "C15",
    [pbt.Part("sessions", session(), run, quick=6000, thorough=120000),
     pbt.Part("protocol", proto_case(), proto, quick=5000, thorough=100000),
     pbt.Part("poll", poll_case(), poll, quick=160, thorough=2500)],
    rule="histories of 1-4 solve calls with scripts of wait/model/resume/cancel/get/core/last/iteration, callbacks that stop, raise or "
         "add clauses; non-trivial: more than three handle calls / more than two calls on a program with at least two models / more than one timed wait on a search that cannot finish",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls; functions it lacks are supplied by bind/compat58.c"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
