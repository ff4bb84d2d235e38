"""C17: Python propagators see and steer the search faithfully."""
from bindcommon import *
import itertools
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.theory_stm(), g.theory_stm(), g.heu()]
TEXT = g.text(EXTRA, 3)
SYNC = g.solve(modes=("sync", "yield"), clause=True, last=False)


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT) + (draw(g.parts()) if draw(g.BOOL) else "")]]
    ops += [draw(g.propagator())] + ([draw(g.propagator(name=1))] if draw(g.N(0, 3)) == 0 else [])
    ops.append(["ground", [["base", []]]])
    ops.append(draw(SYNC))
    # minimize constraints added by propagators crash the library in later steps
    if not any(i[0] == "minimize" for o in ops if o[0] == "propagator" for x in o[1]["init"] for i in x) and draw(g.BOOL):
        ops += draw(g.lists(g.one_of(g.ground(), g.ext_op(), g.backend(False)), 0, 2))
        ops.append(draw(SYNC))
    return {"args": draw(g.args()), "ops": ops, "logger": True}


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "prop") > 3)


# --------------------------------------------------------- lazy constraints

@st.composite
def lazy_case(draw):
    n = draw(g.N(2, 5))
    lit = st.integers(1, n).flatmap(lambda v: g.pick([v, -v]))
    clause = st.lists(lit, min_size=1, max_size=4)
    lin = st.tuples(lit, st.lists(st.tuples(lit, g.N(-3, 4)).map(list), max_size=5), g.N(-3, 6), g.pick([0, 1, -1]), g.BOOL).map(list)
    lins = draw(st.lists(lin, max_size=2))
    clauses = draw(st.lists(st.tuples(clause, g.pick(["init", "propagate", "check", "fixpoint", "nogood", "model", "first"])).map(list), max_size=6))
    for i, (l, ws, b, t, eq) in enumerate(lins):
        # the library does not treat constraints over their own literal exactly
        lins[i][1] = ws = [x for x in ws if abs(x[0]) != abs(l)]
        # constraints that are decided when added fix the literal whatever their type
        vs = [abs(l)] + [abs(x) for x, _ in ws]
        lo, hi = sum(min(w, 0) for _, w in ws), sum(max(w, 0) for _, w in ws)
        if i or len(set(vs)) < len(vs) or not lo < b <= hi or any(h == "init" for _, h in clauses):
            lins[i][3] = 0
            lins[i][4] = False
        elif b == hi or any(w != 1 for _, w in ws):
            lins[i][4] = False
    steps = draw(g.N(1, 2))
    if any(x[3] for x in lins):
        # a fixed literal turns implications into equivalences
        steps = 1
    return {"n": n, "clauses": clauses, "lins": lins, "min": draw(st.lists(st.tuples(lit, g.N(-3, 3), g.N(0, 2)).map(list), max_size=3)),
            "free": draw(g.N(0, 3)), "tag": draw(g.BOOL), "args": draw(g.pick([[], ["--restarts=F,2"], ["--heuristic=Berkmin"], ["--rand-freq=1"], ["-t2"]])),
            "decide": draw(st.one_of(st.none(), st.lists(lit, max_size=5))), "steps": steps}


LAZY = lazy_case()


def lazy(case, ev):
    """constraints enforced by a propagator at several places: exactly the solutions of the constraints are found"""
    import clingo
    from clingo.propagator import PropagatorCheckMode, Propagator
    n, errs, stat = case["n"], [], [0, 0, 0]
    new_step = [0]
    threads = 2 if "-t2" in case["args"] else 1
    fail = errs.append

    class P(Propagator):
        def init(self, init):
            atoms = {a.symbol.arguments[0].number: a.literal for a in init.symbolic_atoms.by_signature("a", 1)}
            self.l = {i: init.solver_literal(x) for i, x in atoms.items()}
            lits = {self.lit(v * s) for v in range(1, n + 1) for s in (1, -1)}
            if init.number_of_threads != threads:
                fail(f"{init.number_of_threads} threads")
            for l in lits:
                init.add_watch(l)
            self.lits, self.stack = lits, [[] for _ in range(threads)]
            self.free = [init.add_literal() for _ in range(case["free"])]
            if len(set(map(abs, self.free)) | set(map(abs, lits))) != n + case["free"]:
                fail("add_literal returned a known literal")
            for l in self.free:
                # not part of the program; make it equal to some atom
                if not init.add_clause([l, -self.lit(1)]) or not init.add_clause([-l, self.lit(1)]):
                    return
            init.check_mode = PropagatorCheckMode.Both
            if init.check_mode != PropagatorCheckMode.Both:
                fail("check mode not stored")
            for c, how in case["clauses"]:
                if how == "init" and not init.add_clause([self.lit(x) for x in c]):
                    return
            for l, ws, b, t, eq in case["lins"]:
                if not init.add_weight_constraint(self.lit(l), [(self.lit(x), w) for x, w in ws], b, t, eq and t == 0):
                    return
            if new_step[0] == 0:
                for l, w, p in case["min"]:
                    init.add_minimize(self.lit(l), w, p)
            new_step[0] += 1
            init.propagate()

        def lit(self, x):
            return self.l[x] if x > 0 else -self.l[-x]

        def enforce(self, control, hows):
            a = control.assignment
            for c, how in case["clauses"]:
                if how in hows:
                    cl = [self.lit(x) for x in c]
                    if any(a.is_true(l) for l in cl) or len([l for l in cl if not a.is_false(l)]) > 1:
                        continue
                    stat[0] += 1
                    ok = control.add_nogood([-l for l in cl], tag=case["tag"]) if how == "nogood" else control.add_clause(cl, tag=case["tag"])
                    if not ok:
                        return False
                    if not control.propagate():
                        return False
            return True

        def look(self, a, where):
            # what is read is consistent
            tr = list(a.trail)
            if len(set(tr)) != len(tr):
                fail(f"{where}: literal twice on the trail")
            for l in self.lits | set(self.free):
                v = a.value(l)
                if (v is True) != a.is_true(l) or (v is False) != a.is_false(l) or a.is_true(-l) != a.is_false(l):
                    fail(f"{where}: value/is_true/is_false disagree for {l}")
                if v is not None and a.level(l) > a.decision_level:
                    fail(f"{where}: level")
                if v is True and l not in tr and a.level(l) > 0 and not a.has_conflict:
                    fail(f"{where}: {l} true at level {a.level(l)} but not on the trail {tr}")
                if a.is_fixed(l) != (v is not None and a.level(l) == 0):
                    fail(f"{where}: is_fixed({l}) {a.is_fixed(l)}")
            for d in range(1, a.decision_level + 1):
                sl = tr[a.trail.begin(d):a.trail.end(d)]
                if not sl or sl[0] != a.decision(d) or any(a.level(l) != d for l in sl):
                    fail(f"{where}: trail of level {d}: {sl}")

        def propagate(self, control, changes):
            a = control.assignment
            stat[1] += 1
            self.look(a, "propagate")
            if control.thread_id not in range(threads):
                fail("thread id")
            if not changes or not set(changes) <= self.lits or not all(a.is_true(l) for l in changes):
                fail(f"changes {changes} are not the true watched literals")
            st_ = self.stack[control.thread_id]
            if st_ and st_[-1][0] == a.decision_level:
                st_[-1][1].extend(changes)
            else:
                if st_ and st_[-1][0] > a.decision_level:
                    fail("levels were not undone")
                st_.append([a.decision_level, list(changes)])
            self.enforce(control, ("propagate", "nogood", "first"))

        def undo(self, thread_id, a, changes):
            stat[2] += 1
            st_ = self.stack[thread_id]
            if not st_ or st_[-1][0] != a.decision_level or (changes and changes != st_[-1][1]):
                # checks are undone as well
                if changes:
                    fail(f"undo at {a.decision_level} with {changes}, propagated were {st_}")
            elif st_ and changes:
                st_.pop()

        def check(self, control):
            a = control.assignment
            self.look(a, "check")
            self.enforce(control, ("fixpoint", "nogood") if not a.is_total else ("fixpoint", "check", "nogood", "propagate", "first"))

        def decide(self, thread_id, a, fallback):
            if a.value(fallback) is not None and fallback:
                fail("fallback is assigned")
            for x in case["decide"]:
                if a.value(self.lit(x)) is None:
                    return self.lit(x)
            return 0
    if case["decide"] is None:
        del P.decide
    ctl = clingo.Control(["0"] + case["args"])
    ctl.configuration.solve.opt_mode = "enum,1000"
    ctl.enable_cleanup = False
    p = P()
    ctl.register_propagator(p)
    ctl.add("{a(1..%d)}." % n)
    ctl.ground()
    want = {}
    for bits in itertools.product([False, True], repeat=n):
        def holds(x):
            return bits[abs(x) - 1] == (x > 0)
        if not all(any(holds(x) for x in c) for c, _ in case["clauses"]):
            continue
        ok = True
        for l, ws, b, t, eq in case["lins"]:
            s = sum(w for x, w in ws if holds(x))
            v = s == b if (eq and t == 0) else s >= b
            h = holds(l)
            # type > 0: literal implies constraint; < 0: constraint implies literal
            ok = ok and (t < 0 or not h or v) and (t > 0 or not v or h)
        if not ok:
            continue
        cost = {}
        for x, w, pr in case["min"]:
            cost[pr] = cost.get(pr, 0) + (w if holds(x) else 0)
        want[tuple(i + 1 for i in range(n) if bits[i])] = [cost[k] for k in sorted(cost, reverse=True)]
    for step in range(case["steps"]):
        got = {}

        def on_model(m):
            k = tuple(sorted(s.arguments[0].number for s in m.symbols(atoms=True) if s.name == "a"))
            if k in got:
                errs.append(f"model {k} twice")
            got[k] = list(m.cost)
            for c, how in case["clauses"]:
                if how == "model":
                    m.context.add_clause([(clingo.Function("a", [clingo.Number(abs(x))]), x > 0) for x in c])
        for t in p.stack if hasattr(p, "stack") else ():
            t.clear()
        r = ctl.solve(on_model=on_model)
        if not case["min"]:
            want = {k: [] for k in want}
        extra = {k for k in got if k not in want}
        for k in extra:
            # constraints added with a model only exclude later ones
            if any(how == "model" and not any((abs(x) in k) == (x > 0) for x in c) for c, how in case["clauses"]):
                del got[k]
        if errs:
            raise pbt.Violation(f"{errs[:3]}\n{json.dumps(case)}")
        if got != want:
            raise pbt.Violation(f"step {step}: solutions {got}\nexpected {want}\n{json.dumps(case)}")
        ctl.add("s%d" % step, [], "b%d." % step)
        ctl.ground([("s%d" % step, [])])
    ev.label("lazy" if stat[0] else "-", "undo" if stat[2] else "-", *(h for _, h in case["clauses"]))
    ev.nontrivial(stat[0] > 0 and stat[1] > 2)


TECHNIQUE = "property-based testing: generated propagator histories compared with a reference binding on the raw C interface; constraints enforced lazily by a Python propagator compared with brute-force solutions, with invariants on trail, levels and undo"
LEVEL_NOTE = "Random search over scripted propagators; every value read is compared, every solution set is checked exactly."
CHECK = pbt.Check(
    "C17",
    [pbt.Part("sessions", session(), run, quick=7000, thorough=150000),
     pbt.Part("lazy", LAZY, lazy, quick=4000, thorough=80000)],
    rule="sessions with scripted propagators: non-trivial if more than three propagator events were compared; lazy constraints: at least "
         "one clause was added during search and more than two propagate calls were made",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls; functions it lacks are supplied by bind/compat58.c"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
