"""C31: grounding and solving through C++ reports exactly the models and results of the solver."""
from cppcommon import *
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.project(), g.heu(), g.edge(), g.theory_stm(), g.calls(), g.warn()]
TEXT = g.text(EXTRA, 4)
SOLVE = g.one_of(g.solve(), g.solve(modes=("yield",)), g.solve(modes=("sync",)))
CTX = g.ground_ctx()
BETWEEN = st.lists(st.one_of(g.ext_op(), g.ground(), g.conf_op(), g.attr_op(), st.just(["cleanup"]), g.ext_op(), g.ground(ctx=True),
                             g.pick(["n", "m"]).map(lambda n: ["const", n]), st.just(["interrupt"]), g.atoms_op(), st.just(["theory"]),
                             g.pick(["f(1,x)", "1+2*3", "(1", "a/0", "#inf", "-f(x)", "x+1", "\"a\\\"\""]).map(lambda t: ["parse_term", t])), max_size=3)


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT)]]
    if draw(g.BOOL):
        ops.append(["add1", draw(g.parts())])
    if draw(g.N(0, 4)) == 0:
        ops[-1] = ["load", ops[-1][-1]]
    ops.append(["ground", [["base", []]], draw(CTX)])
    for _ in range(draw(g.N(1, 4))):
        ops += draw(BETWEEN)
        ops.append(draw(SOLVE))
    return cpp_session(draw, ops, g)


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "model") > 1)


ORD = st.lists(g.pick(["resume_wait", "resume_model", "next", "model", "wait", "get", "cancel", "core", "last", "iter1", "iter", "close"]), max_size=12)


@st.composite
def proto_case(draw):
    return {"n": draw(g.N(0, 3)), "models": draw(g.N(0, 4)), "unsat": draw(g.N(0, 3)) == 0, "order": draw(ORD), "alt": draw(g.N(0, 11)),
            "async": draw(g.BOOL), "stop": draw(g.one_of(st.none(), st.none(), g.N(1, 3)))}


def atoms(m):
    return None if m is None else [str(s) for s in m.symbols(atoms=True)]


def proto(case, ev):
    """the handle against a state model: models come in the order of plain enumeration, without loss or repetition,
    on_finish exactly once, get is the final result once search ended"""
    import cppapi
    api = cppapi.CppApi(os.environ["VP_CPP"], case)

    def fresh():
        c = api.control([str(case["models"])], None, 20)
        c.add("base", [], "{a(1..%d)}.%s" % (case["n"], ":- not a(X), a(X). z. :- z." if case["unsat"] else ""))
        c.r.ground([("base", [])], None)
        return c
    c = fresh()
    ref = []
    ref_res = c.solve(on_model=lambda m: ref.append(atoms(m)))
    c = fresh()
    fin, seen = [], []

    def on_model(m):
        seen.append(m.number)
        return None if case["stop"] is None else len(seen) < case["stop"]
    stop = case["stop"]
    limit = len(ref) if stop is None else min(stop, len(ref))
    pos, cur, cancelled, running, ended = 0, None, False, False, False

    def bad(msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(case)}\nmodels {ref}, position {pos}")
    steps = 0
    with c.solve(yield_=True, async_=case["async"], on_model=on_model, on_finish=lambda r: fin.append(str(r))) as h:
        for o in case["order"]:
            steps += 1
            if o == "close":
                break
            if o == "cancel":
                h.cancel()
                cancelled = True
            elif cancelled:
                if o == "get":
                    h.get()
                if o == "wait":
                    h.wait()
                continue
            elif o in ("resume_wait", "resume_model", "next"):
                if o == "next":
                    m = h.next()
                else:
                    h.resume()
                    m = h.model() if o == "resume_model" else h.wait()
                pos = min(pos + 1, limit + 1)
                cur = ref[pos - 1] if pos <= limit else None
                running = True
                if o != "resume_wait" and atoms(m) != cur:
                    bad(f"{o} returned the wrong model")
                if cur is None:
                    ended = True
            elif o in ("model", "iter1", "last"):
                if not running:
                    pos, running = 1, True
                    cur = ref[0] if limit >= 1 else None
                if o == "last":
                    h.model()
                    m = h.last()
                    if cur is not None and atoms(m) != cur:
                        bad(f"last model is {atoms(m)} instead of {cur}")
                    if cur is None:
                        ended = True
                    continue
                if o == "model":
                    m = h.model()
                    got, nr = atoms(m), m and m.number
                else:
                    got = []

                    def take(m):
                        got.append((atoms(m), m.number))
                        return False
                    h.loop(take)
                    got, nr = got[0] if got else (None, None)
                if got != cur:
                    bad(f"{o} is {got}, expected {cur}")
                if cur is not None and nr != pos:
                    bad(f"model number {nr}, expected {pos}")
                if cur is None:
                    ended = True
            elif o == "iter":
                got = []
                h.loop(lambda m: got.append(atoms(m)) or True)
                want = ref[max(pos, 1) - 1:limit]
                if got != want:
                    bad(f"iteration gave {got}, expected {want}")
                pos, cur, running, ended = limit + 1, None, True, True
            elif o == "wait":
                if h.wait() is not True:
                    bad("wait() without timeout returned False")
                if not running:
                    pos, running = 1, True
                    cur = ref[0] if limit >= 1 else None
                    ended = cur is None
            elif o == "core":
                if not case["unsat"] and ended and h.core() != []:
                    bad("core of a satisfiable problem")
            elif o == "get" and ended:
                r = h.get()
                want = "UNSAT" if not ref else "SAT"
                if str(r) != want:
                    bad(f"get() is {r}, expected {want}")
                if stop is None and r.exhausted != ref_res.exhausted:
                    bad(f"exhausted is {r.exhausted}, expected {ref_res.exhausted}")
    if len(fin) != 1:
        bad(f"on_finish ran {len(fin)} times")
    if seen != list(range(1, len(seen) + 1)):
        bad(f"on_model saw numbers {seen}")
    n = []
    c.solve(on_model=lambda m: n.append(atoms(m)))
    if sorted(n) != sorted(ref) and case["models"] == 0:
        bad(f"control unusable afterwards: {n}")
    api.free(c)
    ev.label("stop" if stop else "nostop", "async" if case["async"] else "sync", "cancelled" if cancelled else "-")
    ev.nontrivial(steps > 2 and len(ref) > 1)


@st.composite
def poll_case(draw):
    return {"holes": draw(g.N(12, 14)), "yield": draw(g.BOOL), "alt": draw(g.N(0, 5)),
            "waits": draw(g.lists(g.pick([0, 0.0, 0, 0.001, 0.01, 0.02]), 1, 6)), "end": draw(g.pick(["cancel", "close", "interrupt"]))}


def poll(case, ev):
    """waiting with a timeout on a search that does not finish returns false in time"""
    import threading
    import time
    import cppapi
    api = cppapi.CppApi(os.environ["VP_CPP"], case)
    c = api.control(["0"], lambda c, m: None, 20)
    n = case["holes"]
    c.add("base", [], f"1{{p(P,H):H=1..{n}}}1:-P=1..{n + 1}. :-p(P,H),p(Q,H),P<Q.")
    c.r.ground([("base", [])], None)
    late = []
    dog = threading.Timer(15, lambda: (late.append(1), c.interrupt()))
    dog.daemon = True
    dog.start()
    try:
        with c.solve(async_=True, yield_=case["yield"]) as h:
            for w in case["waits"]:
                t = time.monotonic()
                r = h.wait(w)
                t = time.monotonic() - t
                if late:
                    raise pbt.Violation(f"wait({w}) blocked on an unfinished search\n{case}")
                if r:
                    raise pbt.Violation(f"wait({w}) reported an unfinished search as ready after {t:.3f}s\n{case}")
                if t < w * 0.5:
                    raise pbt.Violation(f"wait({w}) returned after {t:.4f}s\n{case}")
            if case["end"] != "close":
                if case["end"] == "cancel":
                    h.cancel()
                else:
                    c.interrupt()
                if h.wait() is not True:
                    raise pbt.Violation(f"wait() returned false on a cancelled search\n{case}")
                res = h.get()
                if not res.interrupted or res.satisfiable:
                    raise pbt.Violation(f"result of a cancelled search: {res}\n{case}")
    finally:
        dog.cancel()
    api.free(c)
    ev.label("poll " + case["end"])
    ev.nontrivial(len(case["waits"]) > 1)


TECHNIQUE = ("property-based testing: generated solving histories driven through clingo.hh and compared event by event with the raw C interface; "
             "generated call orders on solve handles compared with a state model; metamorphic agreement of callback and iteration styles")
LEVEL_NOTE = "Random search; clingo.hh of /repo is compiled into the driver, the solver library is the installed libclingo."
CHECK = pbt.Check(
    "C31",
    [pbt.Part("sessions", session(), run, quick=9000, thorough=120000),
     pbt.Part("handles", proto_case(), proto, quick=5000, thorough=100000),
     pbt.Part("poll", poll_case(), poll, quick=160, thorough=2500)],
    rule="histories of add/load/ground/externals/configuration/solve over random programs with optimisation, shows, projection and theory atoms; orders of handle operations; "
         "non-trivial: at least two models observed / more than two handle operations on a program with two models",
    build=build_cpp, init=init_cpp,
    assumptions=["the installed libclingo 5.6.2 executes the C calls; functions it lacks are supplied by bind/compat58.c"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
