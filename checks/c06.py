"""C06: symbols are canonical, totally ordered, and print/parse losslessly."""
from common import *
import gensess as g, rawc, refasp
from hypothesis import strategies as st

NAMES = ["a", "b", "aa", "f", "g", "_x", "zZ", "a'", "B_"[0].lower() + "_", "x1", "not_", "p" * 40]
STRS = ["", "a", "b", "ab", '"', "\\", "\n", 'a"b\\n', "é", "日本", "%", " ", "A", "f(1)", "-", "\t", "0"]
INTS = st.one_of(g.N(-3, 3), st.sampled_from([10, 100, -100, 2147483647, -2147483648, -2147483647, 65535, 65536, 1 << 24]))
TEXT = st.one_of(st.sampled_from(STRS), st.text(st.characters(min_codepoint=1, max_codepoint=0x2FF, exclude_categories=("Cs",)), max_size=5).filter(lambda s: "\r" not in s))
LEAF = st.one_of(INTS.map(lambda n: ["n", n]), INTS.map(lambda n: ["n", n]), TEXT.map(lambda s: ["s", s]), st.sampled_from([["inf"], ["sup"]]),
                 st.tuples(st.sampled_from(NAMES), g.BOOL).map(lambda x: ["f", x[0], [], x[1]]))


def ext(c):
    fun = lambda n: st.tuples(st.sampled_from(n), st.lists(c, max_size=3), g.BOOL).map(lambda x: ["f", x[0], x[1], x[2]])
    return st.one_of(fun(NAMES), fun(["f", "g"]), st.tuples(st.lists(c, max_size=3), st.sampled_from([True, True, True, False])).map(lambda x: ["f", "", x[0], x[1] or not x[0]]))


TREE = st.recursive(LEAF, ext, max_leaves=6)


def variants(draw, t):
    """a tree that differs slightly"""
    k = draw(g.N(0, 4))
    if t[0] == "f":
        if k == 0:
            return ["f", t[1], t[2], not t[3]] if t[1] or t[2] else t
        if k == 1 and t[2]:
            i = draw(g.N(0, len(t[2]) - 1))
            return ["f", t[1], t[2][:i] + [variants(draw, t[2][i])] + t[2][i + 1:], t[3]]
        if k == 2 and t[1]:
            return ["f", t[1] + "a", t[2], t[3]]
        if k == 3:
            return ["f", t[1], t[2] + [["n", 1]], t[3]]
        return ["f", t[1], t[2][:-1], t[3] or not (t[1] or t[2][:-1])]
    if t[0] == "n":
        return ["n", t[1] + 1 if t[1] < 5 else t[1] - 1]
    return ["s", t[1] + "a"] if t[0] == "s" else t


@st.composite
def batches(draw):
    ts = draw(st.lists(TREE, min_size=2, max_size=6))
    for _ in range(draw(g.N(0, 3))):
        ts.append(variants(draw, ts[draw(g.N(0, len(ts) - 1))]))
    return {"ts": ts}


def tup(t):
    return (t[0],) + tuple(t[1:]) if t[0] != "f" else ("f", t[1], tuple(tup(x) for x in t[2]), t[3])


def deep(t):
    return 1 + max([deep(x) for x in t[2]], default=0) if t[0] == "f" else 1


def run(case, ev):
    raw = rawc.engine()
    L = raw.lib
    ts = [tup(t) for t in case["ts"]]
    syms = [raw.mk(t) for t in ts]
    again = [raw.mk(t) for t in reversed(ts)][::-1]
    eq = 0
    for t, s, s2 in zip(ts, syms, again):
        if raw.sym_tree(s) != t:
            raise pbt.Violation(f"symbol built from {t} reads as {raw.sym_tree(s)}")
        if raw.sym_str(s) != refasp.sstr(t):
            raise pbt.Violation(f"symbol {t} prints as {raw.sym_str(s)!r} instead of {refasp.sstr(t)!r}")
        if t[0] == "f" and raw.v("clingo_symbol_is_negative", "bool", s) == t[3]:
            raise pbt.Violation(f"wrong sign of {refasp.sstr(t)}")
    keys = [refasp.skey(t) for t in ts]
    for i, a in enumerate(syms):
        for j, b in enumerate(again):
            e, lt = bool(L.clingo_symbol_is_equal_to(a, b)), bool(L.clingo_symbol_is_less_than(a, b))
            we, wl = ts[i] == ts[j], keys[i] < keys[j]
            A, B = refasp.sstr(ts[i]), refasp.sstr(ts[j])
            if e != we:
                raise pbt.Violation(f"{A} == {B} is {e}")
            if lt != wl:
                raise pbt.Violation(f"{A} < {B} is {lt}")
            if we and L.clingo_symbol_hash(a) != L.clingo_symbol_hash(b):
                raise pbt.Violation(f"equal symbols {A} hash differently")
            eq += we and i != j
    ev.label(*{t[0] for t in ts}, f"depth:{max(map(deep, ts))}", "has-equal" if eq else "all-different")
    # the grounder compares, sorts and joins like that
    for t, s in zip(ts, syms):
        p, msgs = raw.parse_term(refasp.sstr(t))
        if p is None:
            raise pbt.Violation(f"printed symbol {refasp.sstr(t)!r} cannot be parsed: {msgs}")
        if not L.clingo_symbol_is_equal_to(p, s) or raw.sym_tree(p) != t:
            raise pbt.Violation(f"printed symbol {refasp.sstr(t)!r} parses as {raw.sym_str(p)}")
    ev.nontrivial(max(map(deep, ts)) >= 2)


def run_program(case, ev):
    """the same symbols as facts, joined and compared by the grounder"""
    ts = list(dict.fromkeys(tup(t) for t in case["ts"]))
    txt = "\n".join(f"d({refasp.sstr(t)})." for t in case_trees(case)) + """
lt(X,Y) :- d(X), d(Y), X < Y.
le(X,Y) :- d(X), d(Y), not X > Y.
eq(X,Y) :- d(X), X = Y, d(Y).
mn(X) :- X = #min { Y : d(Y) }.
mx(X) :- X = #max { Y : d(Y) }.
n(N) :- N = #count { Y : d(Y) }.
neg(X) :- d(X), d(-X).
"""
    out, _ = ground(txt, ["--warn=none"])
    import aspif
    got = {s[1] for s in aspif.parse(out)[0] if s[0] == "output" and not s[2]}
    S, K = refasp.sstr, refasp.skey
    want = {f"d({S(t)})" for t in ts} | {f"n({len(ts)})"}
    for a in ts:
        want.add(f"eq({S(a)},{S(a)})")
        for b in ts:
            if K(a) < K(b):
                want.add(f"lt({S(a)},{S(b)})")
            if not K(b) < K(a):
                want.add(f"le({S(a)},{S(b)})")
        v = ("n", refasp.wrap32(-a[1])) if a[0] == "n" else ("f", a[1], a[2], not a[3]) if a[0] == "f" else None
        if v in ts:
            want.add(f"neg({S(a)})")
    o = sorted(ts, key=K)
    want |= {f"mn({S(o[0])})", f"mx({S(o[-1])})"}
    if got != want:
        raise pbt.Violation(f"wrong facts for\n{txt}\n  wrong: {sorted(got - want)[:8]}\n  missing: {sorted(want - got)[:8]}")
    ev.label(f"distinct:{len(ts)}")
    ev.nontrivial(len(ts) > 2)


def case_trees(case):
    return [tup(t) for t in case["ts"]]


# ---------------------------------------------------------------- signatures
SIGS = st.lists(st.tuples(st.sampled_from(NAMES), st.one_of(g.N(0, 4), st.sampled_from([65534, 65535, 65536, 70000, 1 << 20])), g.BOOL), min_size=2, max_size=6)


def run_sig(case, ev):
    raw = rawc.engine()
    L = raw.lib
    mk = lambda n, a, p: raw.v("clingo_signature_create", "clingo_signature_t", n.encode(), a, p)
    xs = [mk(*s) for s in case]
    ys = [mk(*s) for s in reversed(case)][::-1]
    for s, x in zip(case, xs):
        r = (raw.ffi.string(L.clingo_signature_name(x)).decode(), L.clingo_signature_arity(x), bool(L.clingo_signature_is_positive(x)), bool(L.clingo_signature_is_negative(x)))
        if r != (s[0], s[1], s[2], not s[2]):
            raise pbt.Violation(f"signature {s} reads as {r}")
    key = lambda s: (not s[2], s[1], s[0].encode())
    for s, x in zip(case, xs):
        for t, y in zip(case, ys):
            e, l = bool(L.clingo_signature_is_equal_to(x, y)), bool(L.clingo_signature_is_less_than(x, y))
            if e != (tuple(s) == tuple(t)) or l != (key(s) < key(t)):
                raise pbt.Violation(f"signatures {s} and {t}: equal {e} less {l}")
            if e and L.clingo_signature_hash(x) != L.clingo_signature_hash(y):
                raise pbt.Violation(f"equal signatures {s} hash differently")
    ev.nontrivial(len({tuple(s) for s in case}) > 1)
    ev.label("big-arity" if any(s[1] > 60000 for s in case) else "small-arity")


TECHNIQUE = "property-based testing: random symbol trees against a reference order, printer and parser round trip"
LEVEL_NOTE = "Random search over batches of symbol trees that share parts and differ slightly; all pairs of a batch are compared."

CHECK = pbt.Check(
    "C06",
    [pbt.Part("symbols", batches(), run, quick=20000, thorough=400000, sample=lambda c: [refasp.sstr(tup(t)) for t in c["ts"]]),
     pbt.Part("grounder", batches(), run_program, quick=5000, thorough=100000, sample=lambda c: [refasp.sstr(tup(t)) for t in c["ts"]]),
     pbt.Part("signatures", SIGS, run_sig, quick=6000, thorough=100000)],
    rule="random batches of 2-9 symbol trees (numbers at the limits, strings with escapes, signed functions, tuples, nesting) some of "
         "which differ in one place; non-trivial: a compound symbol (grounder: three different symbols; signatures: two)",
    build=build_engine,
    assumptions=["order as documented in clingo.h: #inf, numbers, identifiers, strings, functions, #sup"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
