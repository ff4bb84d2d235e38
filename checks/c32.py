"""C32: C++ backends, observers and propagators pass everything unchanged."""
from cppcommon import *
import itertools
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.project(), g.heu(), g.edge(), g.theory_stm(), g.theory_stm()]
TEXT = g.text(EXTRA, 3)
SIMPLE = st.just(["solve", {"mode": "sync", "model": [], "assumptions": []}])
MID = g.one_of(g.ext_op(), g.ground(), g.ground(), SIMPLE, SIMPLE, g.backend(), g.backend(), g.backend(), st.just(["theory"]),
               st.just(["cleanup"]), g.atoms_op(), st.just(["attr", "is_conflicting"]), g.solve(modes=("sync", "yield"), clause=False, last=False))
MIDS = g.lists(MID, 1, 6)


@st.composite
def session(draw):
    ops = [draw(g.observe())] + ([draw(g.observe())] if draw(g.N(0, 3)) == 0 else [])
    if draw(g.N(0, 5)):
        ops.append(["add", "base", [], g.THEORY + draw(TEXT) + (draw(g.parts()) if draw(g.BOOL) else "")])
        ops.append(["ground", [["base", []]]])
    ops += draw(MIDS)
    ops.append(["solve", {"mode": "sync", "model": [], "assumptions": []}])
    return cpp_session(draw, ops, g)


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "bret") > 4 or count(t, "obs") > 8)


SYNC = g.solve(modes=("sync", "yield"), clause=True, last=False)
PTEXT = g.text([g.opt(), g.show(), g.theory_stm(), g.theory_stm(), g.heu()], 3)


@st.composite
def prop_session(draw):
    ops = [["add", "base", [], g.THEORY + draw(PTEXT) + (draw(g.parts()) if draw(g.BOOL) else "")]]
    ops += [draw(g.propagator())] + ([draw(g.propagator(name=1))] if draw(g.N(0, 3)) == 0 else [])
    ops.append(["ground", [["base", []]]])
    ops.append(draw(SYNC))
    # minimize constraints added by propagators crash the library in later steps
    if not any(i[0] == "minimize" for o in ops if o[0] == "propagator" for x in o[1]["init"] for i in x) and draw(g.BOOL):
        ops += draw(g.lists(g.one_of(g.ground(), g.ext_op(), g.backend(False)), 0, 2))
        ops.append(draw(SYNC))
    return cpp_session(draw, ops, g)


def run_prop(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "prop") > 3)


@st.composite
def lazy_case(draw):
    n = draw(g.N(2, 5))
    lit = st.integers(1, n).flatmap(lambda v: g.pick([v, -v]))
    clause = st.lists(lit, min_size=1, max_size=4)
    return {"n": n, "clauses": draw(st.lists(st.tuples(clause, g.pick(["propagate", "check", "both", "init"])).map(list), max_size=6)),
            "threads": draw(g.pick([1, 2, 3])), "type": draw(g.N(0, 3)), "alt": draw(g.N(0, 11)), "heu": draw(g.BOOL),
            "seq": draw(g.pick([None, None, True, False])), "lits": draw(st.lists(lit, max_size=4)), "steps": draw(g.N(1, 2))}


def lazy(case, ev):
    """constraints enforced lazily, possibly by several threads: exactly the solutions of the constraints are found"""
    import cppapi
    import threading
    import time
    api = cppapi.CppApi(os.environ["VP_CPP"], case)
    n, errs, stat = case["n"], [], [0, 0, 0]
    tag, lock = bool(case["type"] & 2), bool(case["type"] & 1)
    threads = case["threads"]
    busy = [0]

    class P:
        def init(self, i):
            i = cppapi.CInit(api, i)
            atoms = {a.symbol.arguments[0].number: a.literal for a in i.symbolic_atoms.by_signature("a", 1)}
            self.l = {k: i.solver_literal(x) for k, x in atoms.items()}
            if i.number_of_threads != threads:
                errs.append(f"{i.number_of_threads} threads")
            for v in self.l.values():
                if case["alt"] % 2:
                    i.add_watch(v)
                    i.add_watch(-v)
                else:
                    for t in range(threads):
                        i.add_watch(v, t)
                        i.add_watch(-v, t)
            for m in ("Off", "Total", "Fixpoint", "Both"):
                i.check_mode = m
                if i.check_mode != m:
                    errs.append("check mode")
            for c, how in case["clauses"]:
                if how == "init" and not i.add_clause([self.lit(x) for x in c]):
                    return
            self.stack = [[] for _ in range(threads)]

        def lit(self, x):
            return self.l[x] if x > 0 else -self.l[-x]

        def enforce(self, c, hows):
            a = c.assignment
            for cl, how in case["clauses"]:
                if how in hows:
                    ls = [self.lit(x) for x in cl]
                    if any(a.is_true(l) for l in ls) or len([l for l in ls if not a.is_false(l)]) > 1:
                        continue
                    stat[0] += 1
                    if not c.add_clause(ls, tag, lock) or not c.propagate():
                        return

        def enter(self, t):
            if t not in range(threads):
                errs.append(f"thread {t}")
            if case["seq"]:
                # other threads have to wait unless a call gives the lock away
                if busy[0]:
                    errs.append("sequential propagators run concurrently")
                busy[0] += 1
                time.sleep(0.00002)
                busy[0] -= 1

        def propagate(self, c, changes):
            stat[1] += 1
            self.enter(c.thread_id)
            a = c.assignment
            if not changes or not all(a.is_true(l) for l in changes):
                errs.append(f"changes {changes}")
            s = self.stack[c.thread_id]
            if s and s[-1][0] == a.decision_level:
                s[-1][1].extend(changes)
            else:
                if s and s[-1][0] > a.decision_level:
                    errs.append("levels were not undone")
                s.append([a.decision_level, list(changes)])
            self.enforce(cppapi.CPropagateControl(api, c), ("propagate", "both"))

        def undo(self, t, a, changes):
            stat[2] += 1
            self.enter(t)
            s = self.stack[t]
            if changes:
                if not s or s[-1][0] != a.decision_level or list(changes) != s[-1][1]:
                    errs.append(f"undo of {changes} at {a.decision_level} instead of {s[-1:]}")
                elif s:
                    s.pop()

        def check(self, c):
            self.enter(c.thread_id)
            a = c.assignment
            self.enforce(cppapi.CPropagateControl(api, c), ("check", "both", "propagate") if a.is_total else ("both",))

        def decide(self, t, a, fb):
            self.enter(t)
            if fb and a.value(fb) is not None:
                errs.append("fallback is assigned")
            for x in case["lits"]:
                if a.value(self.lit(x)) is None:
                    return self.lit(x)
            return 0
    if not case["heu"]:
        del P.decide
    c = api.control(["0", f"-t{threads}"] if threads > 1 else ["0"], None, 20)
    p = P()
    c.enable_cleanup = False
    c.r.register_propagator(p, case["heu"], case["seq"])
    c.add("base", [], "{a(1..%d)}." % n)
    c.r.ground([("base", [])], None)
    want = sorted(tuple(i + 1 for i in range(n) if bits[i]) for bits in itertools.product([False, True], repeat=n)
                  if all(any(bits[abs(x) - 1] == (x > 0) for x in cl) for cl, _ in case["clauses"]))
    lock_ = threading.Lock()
    for step in range(case["steps"]):
        got = []

        def on_model(m):
            with lock_:
                got.append(tuple(sorted(s.arguments[0].number for s in m.symbols(atoms=True) if s.name == "a")))
        for s in getattr(p, "stack", ()):
            s.clear()
        c.solve(on_model=on_model)
        if errs:
            raise pbt.Violation(f"{errs[:3]}\n{json.dumps(case)}")
        if sorted(got) != want:
            raise pbt.Violation(f"step {step}: solutions {sorted(got)}\nexpected {want}\n{json.dumps(case)}")
        c.add("s%d" % step, [], "b%d." % step)
        c.r.ground([("s%d" % step, [])], None)
    api.free(c)
    ev.label("lazy" if stat[0] else "-", "undo" if stat[2] else "-", f"threads {threads}", *(h for _, h in case["clauses"]))
    ev.nontrivial(stat[0] > 0 and stat[1] > 2)


TECHNIQUE = ("property-based testing: generated backend, observer and propagator histories driven through clingo.hh and compared event by event with the "
             "raw C interface; lazily enforced constraints compared with brute-force solutions")
LEVEL_NOTE = "Random search; clingo.hh of /repo is compiled into the driver, the solver library is the installed libclingo."
CHECK = pbt.Check(
    "C32",
    [pbt.Part("statements", session(), run, quick=7000, thorough=120000),
     pbt.Part("propagators", prop_session(), run_prop, quick=6000, thorough=120000),
     pbt.Part("lazy", lazy_case(), lazy, quick=3000, thorough=60000)],
    rule="sessions with observers and backends: more than 4 backend results or 8 observer events compared; sessions with scripted propagators: more than three "
         "propagator events; lazy constraints: a clause was added during search and propagate was called more than twice",
    build=build_cpp, init=init_cpp,
    assumptions=["the installed libclingo 5.6.2 executes the C calls; functions it lacks are supplied by bind/compat58.c"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
