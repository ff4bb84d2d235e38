"""C21: domain inspection from Python shows exactly the ground atoms and theory data."""
from bindcommon import *
from bindcommon import _apis
import shutil
import tempfile
import itertools
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.theory_stm(), g.theory_stm(), g.show(), g.project(), g.opt()]
TEXT = g.text(EXTRA, 4)
SIMPLE = st.just(["solve", {"mode": "sync", "model": [], "assumptions": []}])
MID = g.one_of(g.ext_op(), g.ext_op(), g.ground(), g.ground(), SIMPLE, g.backend(), g.backend(theory=False), st.just(["theory"]), st.just(["cleanup"]),
               st.just(["cleanup"]), g.atoms_op(), g.atoms_op(), st.tuples(st.just("attr"), st.just("enable_cleanup"), g.BOOL).map(list))
MIDS = g.lists(MID, 1, 6)
# only in the first step: theory terms of later steps reuse ids, which the library handles
LOOK = g.atoms_op()
DEFS = g.pick(["#defined u/1.", "w(X,Y) :- a(X), a(Y).", "-a(X) :- a(X+1), c.", "v((X,Y),f(X)) :- a(X), a(Y).", "#external e(X+1) : a(X). [false]", "h(X) : a(X).", "a :- b. a(a) :- b.",
               "&sum{X,Y : a(X), a(Y), X<Y; (X,Y) : a(X), e(Y)} <= f({1,X},[X],(X,)) :- a(X).", "&dom{1+2*X-f(X,-X)} != \"x\\\"y\" :- a(X).", "&diff{a+b; (a,b); (); {}; []; -2; (-2); \"s\"}.", ""])


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT) + draw(DEFS) + draw(DEFS) + draw(g.parts())], ["ground", [["base", []]]], draw(LOOK), ["theory"]]
    for op in draw(MIDS):
        ops.append(op)
        if op[0] in ("ground", "cleanup", "solve", "backend", "assign", "release"):
            ops.append(["atoms", [], []])
            ops.append(["theory"])
    ops.append(draw(LOOK))
    return {"args": draw(g.pick([["0"], ["1"], ["0", "--enum-mode=cautious"]])), "ops": ops}


SESSION = session()


def run(case, ev):
    t = compare(case, ev, labels=False)
    n = 0
    for a, b in zip(t, t[1:]):
        if a[0] == "op" and b[0] == "ret" and b[1]:
            ev.label(a[2])
            n += len(b[1][0][0]) if a[2] == "atoms" else len(b[1]) if a[2] == "theory" else 0
        if a[0] == "op" and b[0] == "exc":
            ev.label(f"{a[2]}:{b[1]}")
    ev.nontrivial(n > 10)


def containers(case, ev):
    """views of the same data agree with one another"""
    import sess

    def bad(msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(case)[:3000]}")
    seen = [0]

    class Session(sess.Session):
        def op_atoms(self, lookup=(), sigs=()):
            at = self.ctl.symbolic_atoms
            lst = list(at)

            def row(a):
                return str(a.symbol), a.literal, a.is_fact, a.is_external
            # elements stay what they were while the iterator moves on
            rows = [row(a) for a in at]
            if [row(a) for a in lst] != rows or [row(a) for a in reversed(lst)] != rows[::-1]:
                bad("atoms change while iterating")
            if len(at) < len(lst):
                bad(f"{len(at)} atoms but {len(lst)} iterated")
            pairs = [(row(x)[0], row(y)[0]) for x in at for y in at] if len(lst) < 30 else []
            if pairs != [(x[0], y[0]) for x in rows for y in rows][:len(pairs)]:
                bad("nested iteration")
            syms = [a.symbol for a in lst]
            if len(set(syms)) != len(syms):
                bad("symbol twice")
            for a, r in zip(lst, rows):
                b = at[a.symbol]
                if a.symbol not in at or b is None or row(b) != r:
                    bad(f"lookup of {r}: {b and row(b)}")
                s = a.symbol
                for name, n, pos in itertools.product((s.name, "zz", ""), (len(s.arguments), len(s.arguments) + 1, 0), (True, False)):
                    if a.match(name, n, pos) != ((name, n, pos) == (s.name, len(s.arguments), s.positive)):
                        bad(f"match of {r} with {name}/{n}/{pos}")
                if s.positive and not a.match(s.name, len(s.arguments)):
                    bad(f"match of {r}")
            bysig = {}
            for a, r in zip(lst, rows):
                bysig.setdefault((a.symbol.name, len(a.symbol.arguments), a.symbol.positive), []).append(r)
            ss = at.signatures
            if len(set(ss)) != len(ss) or not set(bysig) <= set(ss):
                bad(f"signatures {ss}, atoms of {list(bysig)}")
            for sig in [*ss, *map(tuple, sigs)]:
                x = list(at.by_signature(*sig))
                if [row(a) for a in x] != bysig.get(sig, []):
                    bad(f"by_signature{sig}: {[row(a) for a in x]}")
                if sig[2] and [row(a) for a in at.by_signature(*sig[:2])] != bysig.get(sig, []):
                    bad(f"by_signature{sig[:2]}")
            for t in lookup:
                s = self.api.mk(t)
                r = [x for x, y in zip(rows, syms) if y == s]
                if (s in at) != bool(r) or (at[s] is None) == bool(r):
                    bad(f"lookup of {s}")
            for other in (1, None, "a", ("a", 1), rows[:1]):
                if other in at:
                    bad(f"{other!r} contained")
            if "#false" in [r[0] for r in rows]:
                bad("#false")
            seen[0] += len(lst)

        def op_theory(self):
            atoms = list(self.ctl.theory_atoms)
            elems = [e for a in atoms for e in a.elements]
            terms = [a.term for a in atoms] + [t for e in elems for t in e.terms] + [a.guard[1] for a in atoms if a.guard]
            for t in terms[:]:
                if t.type.name not in ("Number", "Symbol"):
                    terms += t.arguments
            again = list(self.ctl.theory_atoms)
            if [str(a) for a in again] != [str(a) for a in atoms]:
                bad("second iteration")
            for group, attr in ((atoms, "atom"), (elems, "element"), (terms, "term")):
                group = group[:30]
                for i, x in enumerate(group):
                    for y in group:
                        a, b = x._idx, y._idx
                        if (x == y, x != y, x < y, x <= y, x > y, x >= y) != (a == b, a != b, a < b, a <= b, a > b, a >= b):
                            bad(f"comparison of {attr} {x} and {y}")
                        if a == b and (hash(x) != hash(y) or str(x) != str(y)):
                            bad(f"hash of {attr} {x}")
                        if attr == "term" and (str(x) == str(y)) != (a == b) and '"' not in str(x) and x.type == y.type and x.type.name in ("Number", "Symbol"):
                            bad(f"same {attr} {x} twice")
                for x in group[:5]:
                    for other in (None, 1, "a", str(x), [x]):
                        if x == other or not x != other or other in group:
                            bad(f"{attr} {x} equal to {other!r}")
                        try:
                            x < other
                        except TypeError:
                            continue
                        bad(f"{attr} {x} < {other!r} does not raise")
                if len(set(group)) != len({x._idx for x in group}):
                    bad(f"set of {attr}s")
                if [x._idx for x in sorted(group)] != sorted(x._idx for x in group):
                    bad(f"sorting {attr}s")
                seen[0] += len(group)
            for t in terms[:60]:
                k = t.type.name
                if k == "Number" and (t.number != int(str(t)) or type(t.number) is not int):
                    bad(f"number {t}")
                if k == "Symbol" and t.name != str(t):
                    bad(f"symbol {t}")
                if k == "Function" and t.name.isalnum() and str(t) != f"{t.name}({','.join(map(str, t.arguments))})":
                    bad(f"function {t}")
                if k == "Set" and str(t) != "{" + ",".join(map(str, t.arguments)) + "}" or k == "List" and str(t) != "[" + ",".join(map(str, t.arguments)) + "]":
                    bad(f"{k} {t}")
                if k == "Tuple" and str(t) != "(" + ",".join(map(str, t.arguments)) + (",)" if len(t.arguments) == 1 else ")"):
                    bad(f"{k} {t}")
                for attr, kinds in (("number", ["Number"]), ("name", ["Symbol", "Function"]), ("arguments", ["Function", "Tuple", "Set", "List"])):
                    if k not in kinds:
                        continue
                    getattr(t, attr)
    tmp = tempfile.mkdtemp(prefix="sess-")
    try:
        t = Session(_apis[1], case, tmp).run()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev.nontrivial(seen[0] > 20)


TECHNIQUE = "stateful property-based testing: grounding, cleanup, external and backend histories, all views of symbolic and theory atoms compared with the raw C interface and with one another"
LEVEL_NOTE = "Random search over programs and histories; after every operation the whole domain is read through every view."
CHECK = pbt.Check(
    "C21",
    [pbt.Part("session", SESSION, run, quick=4000, thorough=60000),
     pbt.Part("containers", SESSION, containers, quick=3000, thorough=50000)],
    rule="non-trivial: more than 10 atoms and theory atoms were reported / more than 20 objects were compared",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
