"""C16: backend statements and observer events pass through Python unchanged."""
from bindcommon import *
from bindcommon import _apis  # noqa: F401
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.project(), g.heu(), g.edge(), g.theory_stm(), g.theory_stm()]
TEXT = g.text(EXTRA, 3)
SIMPLE = st.just(["solve", {"mode": "sync", "model": [], "assumptions": []}])
MID = g.one_of(g.ext_op(), g.ground(), g.ground(), SIMPLE, SIMPLE, g.backend(), g.backend(), g.backend(), st.just(["theory"]),
               st.just(["cleanup"]), g.atoms_op(), st.just(["attr", "is_conflicting"]),
               g.solve(modes=("sync", "yield"), clause=False, last=False),
               st.tuples(g.pick(["add", "update"]), g.lists(g.symref(), 0, 2)).map(lambda t: ["project", *t]),
               st.just(["project", "remove", []]), st.just(["remove_minimize"]),
               st.tuples(g.pick(["Reify", "Aspif", "Smodels", "Text"]), st.just("TMPFILE"), g.BOOL, g.BOOL, g.BOOL).map(
                   lambda t: ["register_backend", t[0], "/nonexistent/out", *t[2:]]),
               st.lists(g.pick(["f1.aspif", "dir/f2.aspif"]), max_size=2).map(lambda f: ["load_aspif", f]),
               st.just(["fail", 1]))
MIDS = g.lists(MID, 1, 6)


@st.composite
def session(draw):
    ops = [draw(g.observe())] + ([draw(g.observe())] if draw(g.N(0, 3)) == 0 else [])
    if draw(g.N(0, 5)):
        ops.append(["add", "base", [], g.THEORY + draw(TEXT) + (draw(g.parts()) if draw(g.BOOL) else "")])
        ops.append(["ground", [["base", []]]])
    ops += draw(MIDS)
    ops.append(["solve", {"mode": "sync", "model": [], "assumptions": []}])
    return {"args": draw(g.args()), "ops": ops, "logger": True}


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "bret") > 4 or count(t, "obs") > 8)


# ------------------------------------------------------------- round trip

@st.composite
def trip_case(draw):
    ex = [g.opt(), g.opt(), g.edge(), g.theory_stm(), g.heu(), g.show().filter(lambda s: s == "#show." or "/" in s)]
    b = draw(g.one_of(st.none(), g.backend()))
    if b:
        # the library in use turns tuples into functions
        b = [b[0], [s for s in b[1] if s[:2] != ["tseq", "Tuple"]]]
    return {"text": draw(g.text(ex, 4)), "backend": b, "style": draw(g.BOOL)}


TRIP = trip_case()


def models(ctl, ids=None):
    res = {}
    ctl.configuration.solve.models = 0
    ctl.configuration.solve.opt_mode = "enum,100000"

    def on_model(m):
        k = (tuple(sorted(str(s) for s in m.symbols(atoms=True))), tuple(sorted(str(s) for s in m.symbols(shown=True))))
        res.setdefault(k, []).append(tuple(m.cost))
    r = ctl.solve(on_model=on_model)
    return {k: sorted(v) for k, v in res.items()}, str(r)


def trip(case, ev):
    """events of one control, added through the backend of another one, make the same program"""
    import clingo
    from clingo.backend import Observer
    import sess
    evs = []
    ns = {n: (lambda n: lambda self, *a: evs.append((n, a)))(n) for n in g.EVENTS}
    a = clingo.Control(["-Wnone"], lambda c, m: None)
    a.register_observer(type("O", (Observer,) if case["style"] else (), ns)())
    a.add("base", [], g.THEORY + case["text"])
    a.ground([("base", [])])
    if case["backend"]:
        s = sess.Session(_apis[1], {"args": [], "ops": []}, ".")
        s.ctl, s.trace = a, []
        s.op_backend(case["backend"][1])
    # grounding ended: nothing more is sent before solving
    ma, ra = models(a)
    b = clingo.Control(["-Wnone"], lambda c, m: None)
    amap, tmap, emap = {}, {}, {}
    with b.backend() as bk:
        facts = 0
        for n, x in evs:
            if n == "output_atom":
                sym, atom = x
                if atom == 0 or atom in amap:
                    i = bk.add_atom(sym)
                    if atom:
                        bk.add_rule([i], [amap[atom]])
                    else:
                        facts += 1
                        bk.add_rule([i])
                else:
                    amap[atom] = bk.add_atom(sym)

        def at(i):
            if i not in amap:
                amap[i] = bk.add_atom()
            return amap[i]

        def lit(l):
            return at(l) if l > 0 else -at(-l)

        def lits(ls):
            return [lit(l) for l in ls]
        for n, x in evs:
            if n == "rule":
                bk.add_rule([at(i) for i in x[1]], lits(x[2]), x[0])
            elif n == "weight_rule":
                bk.add_weight_rule([at(i) for i in x[1]], x[2], [(lit(l), w) for l, w in x[3]], x[0])
            elif n == "minimize":
                bk.add_minimize(x[0], [(lit(l), w) for l, w in x[1]])
            elif n == "external":
                bk.add_external(at(x[0]), x[1])
            elif n == "assume":
                bk.add_assume(lits(x[0]))
            elif n == "acyc_edge":
                bk.add_acyc_edge(x[0], x[1], lits(x[2]))
            elif n == "heuristic":
                bk.add_heuristic(at(x[0]), x[1], x[2], x[3], lits(x[4]))
            elif n == "theory_term_number":
                tmap[x[0]] = bk.add_theory_term_number(x[1])
            elif n == "theory_term_string":
                tmap[x[0]] = bk.add_theory_term_string(x[1])
            elif n == "theory_term_compound":
                args = [tmap[i] for i in x[2]]
                if x[1] < 0:
                    # the library in use creates tuples for lists and has no lists
                    kind = {-1: clingo.backend.TheorySequenceType.List, -2: clingo.backend.TheorySequenceType.Set,
                            -3: clingo.backend.TheorySequenceType.Set}[x[1]]
                    tmap[x[0]] = bk.add_theory_term_sequence(kind, args)
                else:
                    name = [y for m, y in evs if m == "theory_term_string" and y[0] == x[1]][0][1]
                    tmap[x[0]] = bk.add_theory_term_function(name, args)
            elif n == "theory_element":
                emap[x[0]] = bk.add_theory_element([tmap[i] for i in x[1]], lits(x[2]))
            elif n == "theory_atom":
                bk.add_theory_atom(tmap[x[1]], [emap[i] for i in x[2]], at(x[0]) if x[0] else 0)
            elif n == "theory_atom_with_guard":
                op = [y for m, y in evs if m == "theory_term_string" and y[0] == x[3]][0][1]
                bk.add_theory_atom_with_guard(tmap[x[1]], [emap[i] for i in x[2]], op, tmap[x[4]], at(x[0]) if x[0] else 0)
    mb, rb = models(b)
    strip = {}
    for (atoms, shown), v in ma.items():
        strip.setdefault(atoms, []).extend(v)
    stripb = {}
    for (atoms, shown), v in mb.items():
        stripb.setdefault(atoms, []).extend(v)
    # hidden atoms have no names for observers
    names = {str(x[0]) for n, x in evs if n == "output_atom"}
    out, outb = {}, {}
    for d, o in ((strip, out), (stripb, outb)):
        for k, v in d.items():
            o.setdefault(tuple(x for x in k if x in names), []).extend(v)
    out, outb = ({k: sorted(v) for k, v in o.items()} for o in (out, outb))
    if ra != rb or out != outb:
        raise pbt.Violation(f"models differ: {ra} {out}\nafter the round trip: {rb} {outb}\nevents {evs}\n{json.dumps(case)}")
    par = str.maketrans("[]", "{}")
    ta = sorted(str(t).translate(par) for t in a.theory_atoms)
    tb = sorted(str(t).translate(par) for t in b.theory_atoms)
    if sorted(set(ta)) != sorted(set(tb)):
        raise pbt.Violation(f"theory atoms differ: {ta}\nafter the round trip: {tb}\nevents {evs}")
    for n, x in evs:
        ev.label("ev:" + n)
    ev.nontrivial(len(evs) > 8 and len(ma) > 1)


TECHNIQUE = "property-based testing: generated backend/observer histories compared with a reference binding on the raw C interface; round trip of observer events through the backend with equal answer sets"
LEVEL_NOTE = "Random search over histories and programs; every trace is compared event by event, every round trip by full enumeration."
CHECK = pbt.Check(
    "C16",
    [pbt.Part("sessions", session(), run, quick=8000, thorough=200000),
     pbt.Part("roundtrip", TRIP, trip, quick=4000, thorough=80000)],
    rule="sessions with observers and backends: non-trivial if more than 4 backend results or 8 observer events were compared; round trips: "
         "more than 8 events and more than one model",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls; functions it lacks are supplied by bind/compat58.c"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
