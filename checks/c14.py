"""C14: solving through Python reports exactly the models and results of the solver."""
from bindcommon import *
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.project(), g.heu(), g.edge(), g.theory_stm(), g.calls()]


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT)]]
    if draw(g.BOOL):
        ops.append(["add1", draw(g.parts())])
    if draw(g.N(0, 4)) == 0:
        ops[-1] = ["load", ops[-1][-1]]
    ops.append(["ground", [["base", []]], draw(CTX)])
    for _ in range(draw(g.N(1, 4))):
        ops += draw(BETWEEN)
        ops.append(draw(SOLVE))
    return {"args": draw(g.args()), "ops": ops}


TEXT = g.text(EXTRA)
SOLVE = g.solve(modes=("sync", "sync", "yield", "async", "async_yield"))
CTX = g.ground_ctx()
BETWEEN = st.lists(st.one_of(g.ext_op(), g.ground(), g.conf_op(), g.attr_op(), st.just(["cleanup"]), g.ext_op(), g.ground(),
                             g.pick(["n", "m"]).map(lambda n: ["const", n]), st.just(["interrupt"]),
                             st.just(["remove_minimize"]),
                             st.tuples(g.pick(["add", "replace", "remove"]), g.lists(g.symref(), 0, 3)).map(lambda t: ["project", *t])),
                   max_size=3)


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(sum(1 for e in t if e[0] == "model") > 1)


@st.composite
def agree_case(draw):
    return {"args": draw(g.pick([["0"], ["2"], ["0", "--opt-mode=optN"], ["0", "--enum-mode=cautious"], ["0", "--opt-mode=enum"], ["1"]])),
            "text": g.THEORY + draw(TEXT), "ass": draw(g.lists(g.assumption(), 0, 2))}


def agree(case, ev):
    """callback, iteration, handle and asynchronous solving report the same"""
    import clingo
    api = _apis[1]

    def rec(m):
        return [str(m), [str(s) for s in m.symbols(atoms=True)], m.cost, m.number, m.optimality_proven, m.type.name]

    def fresh():
        c = clingo.Control(case["args"], lambda c, m: None)
        c.add(case["text"])
        c.ground()
        return c, [x if isinstance(x, int) else (api.mk(x[0]), x[1]) for x in case["ass"]]
    res = {}
    try:
        c, ass = fresh()
    except RuntimeError:
        raise pbt.Discard
    ms = []
    r = c.solve(ass, on_model=lambda m: ms.append(rec(m)))
    res["callback"] = ms, str(r), r.exhausted
    c, ass = fresh()
    with c.solve(ass, yield_=True) as h:
        ms = [rec(m) for m in h]
        r = h.get()
    res["iteration"] = ms, str(r), r.exhausted
    c, ass = fresh()
    ms = []
    with c.solve(ass, on_model=lambda m: ms.append(rec(m)), async_=True) as h:
        h.wait()
        r = h.get()
    res["async"] = ms, str(r), r.exhausted
    c, ass = fresh()
    ms = []
    with c.solve(ass, yield_=True, async_=True) as h:
        while True:
            h.resume()
            h.wait()
            m = h.model()
            if m is None:
                r = h.get()
                break
            ms.append(rec(m))
    res["async-yield"] = ms, str(r), r.exhausted
    # assumptions restrict only the call that received them
    c2, _ = fresh()
    ms = []
    c2.solve([], on_model=lambda m: ms.append(str(m)))
    want = sorted(ms)
    ms = []
    if case["args"] == ["0"] and not any(m[2] for m in res["callback"][0]) and "#minimize" not in case["text"] \
            and "#maximize" not in case["text"] and ":~" not in case["text"]:
        c.solve([], on_model=lambda m: ms.append(str(m)))
        if sorted(ms) != want:
            raise pbt.Violation(f"assumptions leaked into the next call: {sorted(ms)} instead of {want}\n{case}")
    base = res["callback"]
    for k, v in res.items():
        if v != base:
            raise pbt.Violation(f"{k} differs from callback\n  {v}\n  {base}\n{case}")
    ev.nontrivial(len(base[0]) > 1)


from bindcommon import _apis  # noqa: E402

TECHNIQUE = ("property-based testing: generated solving histories executed through the Python package and through a reference "
             "binding on the raw C interface; traces must be equal. Metamorphic agreement of all ways of solving.")
LEVEL_NOTE = "Random search over histories; each is compared event by event with the C interface of the installed solver."
CHECK = pbt.Check(
    "C14",
    [pbt.Part("sessions", session(), run, quick=9000, thorough=150000),
     pbt.Part("agreement", agree_case(), agree, quick=3000, thorough=50000)],
    rule="histories of add/load/ground/externals/configuration/solve in all four modes over random programs with optimisation, "
         "shows, projection, heuristics, edges and theory atoms; non-trivial: at least two model observations",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls; functions it lacks are supplied by bind/compat58.c"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
