"""C05: ground terms evaluate as documented and undefined ones are dropped."""
from common import *
import aspif, gensess as g, rawc, refasp
from hypothesis import strategies as st

NUMS = [0, 1, -1, 2, -2, 3, 5, 7, -7, 10, 31, 32, 255, 46341, 65536, 2147483647, -2147483647, -2147483648, 1073741824]
PREC = {"^": 1, "?": 2, "&": 3, "+": 4, "-": 4, "*": 5, "/": 5, "\\": 5, "**": 6}
OPS = list(PREC)


def mstr(t, p=0, right=False):
    """text with as few parentheses as the documented precedences allow"""
    k = t[0]
    if k == "n":
        return (str(t[1]) if t[1] >= 0 else "-" + str(-t[1]))
    if k == "op":
        q = PREC[t[1]]
        l = mstr(t[2], q + (t[1] == "**"))
        r = mstr(t[3], q + (t[1] != "**"))
        s = l + t[1] + r
        return "(" + s + ")" if q < p else s
    if k == "iv":
        s = mstr(t[1], 0) + ".." + mstr(t[2], 1)
        return "(" + s + ")"
    if k in ("neg", "bnot"):
        return ("-" if k == "neg" else "~") + mstr(t[1], 7)
    if k == "abs":
        return "|" + mstr(t[1]) + "|"
    if k == "pool":
        return "(" + ";".join(map(mstr, t[1])) + ")"
    if k == "f":
        return t[1] + "(" + ",".join(map(mstr, t[2])) + ")"
    if k == "t":
        return "(" + ",".join(map(mstr, t[1])) + ("," if len(t[1]) == 1 else "") + ")"
    return refasp.tstr(t)


def undefined(t, s):
    """does evaluating the term meet an undefined operation?"""
    k = t[0]
    if k in ("f", "t", "pool"):
        return any(undefined(x, s) for x in t[-1])
    if k in ("neg", "abs", "bnot"):
        return undefined(t[1], s) or len(refasp.ev(t[1], s)) != len(refasp.ev(t, s))
    if k == "op":
        return undefined(t[2], s) or undefined(t[3], s) or len(refasp.ev(t[2], s)) * len(refasp.ev(t[3], s)) != len(refasp.ev(t, s))
    if k == "iv":
        return undefined(t[1], s) or undefined(t[2], s) or any(v[0] != "n" for x in t[1:] for v in refasp.ev(x, s))
    return False


def kinds(t, out):
    out.add(t[0] if t[0] != "op" else t[1])
    for x in t[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                kinds(x, out)
            else:
                for y in x:
                    kinds(y, out)
    return out


NUM = st.one_of(g.N(-9, 9), st.sampled_from(NUMS)).map(lambda n: ["n", n])
ATOM = st.sampled_from([["c", "x"], ["c", "_y1"], ["s", "s"], ["s", 'a"\\\n'], ["inf"], ["sup"], ["f", "f", [["n", 1]]], ["t", []], ["t", [["n", 2]]],
                        ["t", [["n", 1], ["c", "x"]]], ["neg", ["c", "x"]], ["neg", ["f", "f", [["c", "x"]]]]])
VAR = st.sampled_from([["v", "A"], ["v", "B"]])


def terms(var, multi):
    leaf = g.one_of(*([NUM] * 4 + [ATOM] + ([VAR] * 5 if var else [])))

    def ext(c):
        alts = [st.tuples(st.sampled_from(OPS), c, c).map(lambda x: ["op", x[0], x[1], x[2]])] * 6
        alts += [st.tuples(st.sampled_from(["neg", "abs", "bnot"]), c).map(list)] * 4
        alts += [st.lists(c, min_size=1, max_size=3).map(lambda x: ["f", "f", x]), st.lists(c, max_size=2).map(lambda x: ["t", x])]
        if multi:
            alts += [st.tuples(c, c).map(lambda x: ["iv", x[0], x[1]]), st.lists(c, min_size=2, max_size=3).map(lambda x: ["pool", x])]
        return g.one_of(*alts)
    return st.recursive(leaf, ext, max_leaves=6)


GROUND, GROUNDM, VART, VARTM = terms(False, False), terms(False, True), terms(True, False), terms(True, True)
VALS = st.lists(st.one_of(NUM, NUM, NUM, ATOM), min_size=1, max_size=3)


@st.composite
def cases(draw):
    return {"t": draw(g.one_of(GROUND, GROUNDM, VART, VART, VART, VARTM)), "a": draw(VALS), "b": draw(VALS), "d": draw(VALS),
            "k": draw(st.one_of(NUM, ATOM)), "op": draw(st.sampled_from(refasp.CMP)), "min": draw(g.BOOL)}


RULES = ["x(A,B,T) :- a(A), b(B).", "y(A,B,Z) :- a(A), b(B), Z = T.", "y2(A,B,Z) :- a(A), b(B), T = Z.", "l(A,B) :- a(A), b(B), T OP K.",
         "n(A,B) :- a(A), b(B), not T OP K.", "m(A,B) :- b(B), d(T), a(A).", "o(A,B) :- a(A), b(B), not d(T).", "s(A,B,S) :- a(A), b(B), S = #count { Z : Z = T }.",
         "h(A,B,Z) :- a(A), b(B), (Z,1) = (T,1).", "i(A,B,Z) :- Z = T, b(B), a(A)."]


def program(case):
    s = mstr if case["min"] else refasp.tstr
    T, K = s(case["t"]), s(case["k"])
    out = ["#defined d/1."]
    for p in "abd":
        out += [f"{p}({s(v)})." for v in case[p]]
    wrap = lambda x: x if case["min"] else x
    for r in RULES:
        out.append(r.replace("T", wrap(T)).replace("K", K).replace("OP", case["op"]))
    return "\n".join(out)


def run(case, ev):
    over = refasp.OVERFLOWS[0]
    try:
        vals = {p: list(dict.fromkeys(v for t in case[p] for v in refasp.ev(t, {}))) for p in "abd"}
        K = refasp.ev(case["k"], {})[0]
        want, undef, nvals = set(), False, []
        T = case["t"]
        multi = bool(kinds(T, set()) & {"iv", "pool"})
        for p in "abd":
            want |= {f"{p}({refasp.sstr(v)})" for v in vals[p]}
        for a in vals["a"]:
            for b in vals["b"]:
                s = {"A": a, "B": b}
                tv = list(dict.fromkeys(refasp.ev(T, s)))
                undef = undef or undefined(T, s)
                A, B = refasp.sstr(a), refasp.sstr(b)
                nvals += tv
                for v in tv:
                    for q in ("x", "y", "y2", "h", "i"):
                        want.add(f"{q}({A},{B},{refasp.sstr(v)})")
                if any(refasp.cmp(case["op"], v, K) for v in tv):
                    want.add(f"l({A},{B})")
                if any(not refasp.cmp(case["op"], v, K) for v in tv):
                    want.add(f"n({A},{B})")
                if any(v in vals["d"] for v in tv):
                    want.add(f"m({A},{B})")
                if any(v not in vals["d"] for v in tv):
                    want.add(f"o({A},{B})")
                want.add(f"s({A},{B},{len(tv)})")
    except refasp.TooBig:
        raise pbt.Discard
    over = refasp.OVERFLOWS[0] > over
    if over and kinds(T, set()) & {"v", "iv", "pool"}:
        # bounds of variables are inferred assuming that numbers do not overflow;
        # wrapping around is only guaranteed where terms are evaluated
        raise pbt.Discard
    txt = program(case)
    try:
        out, msgs = ground(txt)
    except rawc.ClingoError as e:
        raise pbt.Violation(f"rejected: {e} {e.msgs}\n{txt}")
    steps = aspif.parse(out)
    got = {s[1] for s in steps[0] if s[0] == "output" and not s[2]}
    cond = [s for s in steps[0] if s[0] == "output" and s[2]]
    skip = ("n(",) if multi else ()     # negated comparisons with pools are tested without pools only
    f = lambda xs: {x for x in xs if not x.startswith(skip)} if skip else xs
    if f(got) != f(want) or cond:
        raise pbt.Violation(f"term evaluation differs\n{txt}\n  wrong: {sorted(f(got) - f(want))[:6]}\n  missing: {sorted(f(want) - f(got))[:6]} {cond}\n  {msgs}")
    infos = [m for c, m in msgs if "undefined" in m]
    if infos and not undef and not multi:
        raise pbt.Violation(f"undefined operation reported although every operation is defined\n{txt}\n{msgs}")
    if undef and not multi and not infos:
        raise pbt.Violation(f"undefined operation not reported\n{txt}\n{msgs}")
    ev.label(*kinds(T, set()), "undefined" if undef else "defined")
    ev.nontrivial("op" in str(T) or "neg" in str(T) or "abs" in str(T))


# ---------------------------------------------------------------- parse_term
def run_parse(case, ev):
    t, s = case["t"], mstr if case["min"] else refasp.tstr
    txt = s(t)
    raw = rawc.engine()
    bad = undefined(t, {})
    sym, msgs = raw.parse_term(txt)
    if bad:
        if sym is not None:
            raise pbt.Violation(f"undefined term {txt} parsed as {raw.sym_str(sym)}")
    else:
        want = refasp.ev(t, {})[0]
        if sym is None:
            raise pbt.Violation(f"term {txt} rejected: {msgs}")
        if raw.sym_tree(sym) != want or raw.sym_str(sym) != refasp.sstr(want):
            raise pbt.Violation(f"term {txt} evaluates to {raw.sym_str(sym)} instead of {refasp.sstr(want)}")
        if msgs:
            raise pbt.Violation(f"messages for defined term {txt}: {msgs}")
    ev.label(*kinds(t, set()), "undefined" if bad else "defined")
    ev.nontrivial(t[0] not in ("n", "c", "s"))


# ------------------------------------------------------------------ patterns
LIN = g.one_of(st.just(["v", "X"]))
SMALL = st.one_of(g.N(-4, 9).map(lambda n: ["n", n]), st.sampled_from([["c", "x"], ["neg", ["c", "x"]], ["f", "f", [["n", 3]]], ["neg", ["f", "f", [["n", 3]]]],
                  ["t", [["n", 3], ["n", 4]]], ["s", "x"], ["sup"]]))


def linear():
    c = g.N(-3, 4).map(lambda n: ["n", n])
    nz = st.sampled_from([1, 2, 3, -1, -2]).map(lambda n: ["n", n])

    def ext(x):
        return g.one_of(st.tuples(x, c).map(lambda p: ["op", "+", p[0], p[1]]), st.tuples(c, x).map(lambda p: ["op", "+", p[0], p[1]]),
                        st.tuples(x, c).map(lambda p: ["op", "-", p[0], p[1]]), st.tuples(c, x).map(lambda p: ["op", "-", p[0], p[1]]),
                        st.tuples(x, nz).map(lambda p: ["op", "*", p[0], p[1]]), st.tuples(nz, x).map(lambda p: ["op", "*", p[0], p[1]]),
                        x.map(lambda p: ["neg", p]))
    return st.recursive(LIN, ext, max_leaves=3)


LINEAR = linear()
PAT = st.one_of(LINEAR, LINEAR.map(lambda x: ["f", "f", [x]]), st.tuples(LINEAR, LINEAR).map(lambda x: ["t", list(x)]), st.tuples(LINEAR, SMALL).map(lambda x: ["t", list(x)]),
                LINEAR.map(lambda x: ["neg", ["f", "f", [x]]]))


@st.composite
def patterns(draw):
    pat = draw(PAT)
    k = {"f": 1, "t": 2, "neg": 1}.get(pat[0], 0)
    vals = []
    for _ in range(draw(g.N(1, 4))):
        v = draw(SMALL)
        if draw(g.N(0, 3)):
            # build a matching value: substitute a constant
            x = draw(g.N(-3, 5))
            r = refasp.ev(pat, {"X": ("n", x)})
            if r:
                v = ["raw", refasp.sstr(r[0]), x]
        vals.append(v)
    return {"p": pat, "vals": vals, "min": draw(g.BOOL), "x": draw(g.N(-3, 5)), "neg": draw(g.BOOL)}


def run_pattern(case, ev):
    s = mstr if case["min"] else refasp.tstr
    pat = case["p"]
    sym, txt = [], []
    for v in case["vals"]:
        if v[0] == "raw":
            sym += refasp.ev(pat, {"X": ("n", v[2])})
            txt.append(v[1])
        else:
            sym += refasp.ev(v, {})
            txt.append(s(v))
    sym = list(dict.fromkeys(sym))
    P = s(pat)
    prog = "\n".join([f"d({t})." for t in txt] + [f"e({case['x']}).", f"u(X) :- d({P}).", f"w(X) :- e(X), d({P}).", f"w2(X) :- d({P}), e(X).",
                                                 f"z(X) :- d(Z), {P} = Z, Z = Z.", f"v(X) :- d(Z), Z = {P}.", f"c(N) :- N = #count {{ X : d({P}) }}.",
                                                 f"q(X) :- g({P}).", "{ g(X) : d(X) }."])
    sols = []
    for v in sym:
        for r in refasp.unify(pat, v, {}):
            if r.get("X") not in sols:
                sols.append(r.get("X"))
    e = ("n", case["x"])
    # a bound variable need not be a number for the pattern to be used for comparison
    want = {f"d({refasp.sstr(v)})" for v in sym} | {f"e({case['x']})"}
    for q in ("u", "z", "v"):
        want |= {f"{q}({refasp.sstr(x)})" for x in sols}
    if any(v in refasp.ev(pat, {"X": e}) for v in sym):
        want |= {f"w({case['x']})", f"w2({case['x']})"}
    want.add(f"c({len(sols)})")
    try:
        out, _ = ground(prog, ["--warn=none"])
    except rawc.ClingoError as err:
        raise pbt.Violation(f"rejected: {err} {err.msgs}\n{prog}")
    st_ = aspif.parse(out)[0]
    got = {x[1] for x in st_ if x[0] == "output" and not x[2]}
    if got != want:
        raise pbt.Violation(f"matching differs\n{prog}\n  wrong: {sorted(got - want)}\n  missing: {sorted(want - got)}")
    cond = {x[1] for x in st_ if x[0] == "output" and x[2] and x[1].startswith("q(")}
    if cond != {f"q({refasp.sstr(x)})" for x in sols}:
        raise pbt.Violation(f"matching of non-facts differs\n{prog}\n  {cond} instead of {sols}")
    ev.label(pat[0], f"solutions:{min(len(sols), 3)}")
    ev.nontrivial(len(sols) >= 1 and pat[0] != "v")


TECHNIQUE = "property-based testing: random term trees evaluated in ten rule contexts, by the term parser and as patterns, against a reference evaluator"
LEVEL_NOTE = "Random search over term trees with boundary numbers; each case compares every derived fact and the undefined-operation messages."

CHECK = pbt.Check(
    "C05",
    [pbt.Part("evaluate", cases(), run, quick=9000, thorough=200000, sample=program),
     pbt.Part("parse", st.fixed_dictionaries({"t": GROUND, "min": g.BOOL}), run_parse, quick=12000, thorough=300000, sample=lambda c: mstr(c["t"])),
     pbt.Part("patterns", patterns(), run_pattern, quick=6000, thorough=150000, sample=lambda c: [mstr(c["p"]), c["vals"]])],
    rule="random term trees over all operators, boundary numbers, symbols, tuples, pools, intervals and two variables, with full or "
         "minimal parentheses; non-trivial: contains an operation (patterns: has a solution)",
    build=build_engine,
    assumptions=["reference evaluation in lib/refasp.py (power with negative exponent is 0, undefined for base 0)"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
