"""C13: Python symbols agree with the solver library in every operation."""
from bindcommon import *
from bindcommon import _apis
import functools
import gensess as g
from hypothesis import strategies as st

TEXT = st.text(alphabet=st.one_of(st.sampled_from('ab_\'"\\\n\t é∀#%@'), st.characters(min_codepoint=1, max_codepoint=0x2FFF, exclude_categories=["Cs"])), max_size=6)
NAME = g.one_of(g.pick(["a", "b", "f", "_x", "aB1", "not_", "x'y"]), st.from_regex(r"\A[_']{0,2}[a-z][A-Za-z0-9_']{0,4}\Z"))


@g.cached
def tree(depth):
    num = g.one_of(g.N(-3, 3), st.integers(-2**31, 2**31 - 1)).map(lambda n: ["n", n])
    leaf = g.one_of(num, st.tuples(NAME, g.BOOL).map(lambda t: ["f", t[0], [], t[1]]), TEXT.map(lambda s: ["s", s]), st.just(["inf"]), st.just(["sup"]))
    if not depth:
        return leaf
    sub = st.deferred(lambda: tree(depth - 1))
    return g.one_of(leaf, st.tuples(NAME, st.lists(sub, min_size=1, max_size=4), g.BOOL).map(lambda t: ["f", t[0], t[1], t[2]]),
                    st.lists(sub, max_size=3).map(lambda a: ["f", "", a, True]))


@st.composite
def case(draw):
    ts = draw(g.lists(tree(3), 1, 4))
    # neighbours: same symbol with something changed
    if draw(g.BOOL):
        t = draw(g.pick([0]))
        x = json.loads(json.dumps(ts[t]))
        if x[0] == "f" and x[1]:
            k = draw(g.N(0, 3))
            if k == 0:
                x[3] = not x[3]
            elif k == 1 and x[2]:
                x[2].pop()
            elif k == 2:
                x[1] = x[1] + "a"
            else:
                x[2].append(["n", 0])
        ts.append(x)
    return {"trees": ts, "args": draw(g.lists(g.pick([["a", 1, True], ["f", 2, True], ["", 1, True], ["a", 0, False], ["b", 0, True]]), 0, 2))}


def err(f):
    try:
        return ["ok", f()]
    except RuntimeError as e:
        return ["RuntimeError", str(e)]


def run(case, ev):
    import clingo
    from clingo import symbol as S
    ref, api = _apis
    raw = __import__("refclingo").raw()
    lib, ffi = raw.lib, raw.ffi

    def bad(msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(case)}")

    def check(t):
        r, p = ref.mk(t), api.mk(t)
        if str(r) != str(p):
            bad(f"str {p} instead of {r}")
        if p._rep != r.rep:
            bad(f"different symbol for {t}: {p!r}")
        if hash(p) != lib.clingo_symbol_hash(r.rep) and hash(p) != hash(lib.clingo_symbol_hash(r.rep)):
            bad(f"hash of {p}")
        k = {"n": "Number", "s": "String", "f": "Function", "inf": "Infimum", "sup": "Supremum"}[t[0]]
        if p.type.name != k:
            bad(f"type {p.type}")
        for name in ("number", "string", "name", "arguments", "positive", "negative"):
            want = {"number": t[1] if k == "Number" else None, "string": t[1] if k == "String" else None,
                    "name": t[1] if k == "Function" else None, "positive": t[3] if k == "Function" else None,
                    "negative": not t[3] if k == "Function" else None, "arguments": t[2] if k == "Function" else None}[name]
            got = err(lambda: getattr(p, name))
            if want is None:
                if got[0] != "RuntimeError":
                    bad(f"{name} of {p!r} is {got}")
            elif name == "arguments":
                if got[0] != "ok" or len(got[1]) != len(want) or any(x != api.mk(y) for x, y in zip(got[1], want)):
                    bad(f"arguments of {p!r} are {got}")
            elif got != ["ok", want] or type(got[1]) is not type(want):
                bad(f"{name} of {p!r} is {got}, expected {want!r}")
        if eval(repr(p), {n: getattr(S, n) for n in ("Number", "String", "Function", "Infimum", "Supremum")}) != p:
            bad(f"repr {p!r}")
        for name, arity, pos in case["args"] + ([[t[1], len(t[2]), t[3]], [t[1], len(t[2]), not t[3]], [t[1], len(t[2]) + 1, t[3]]] if k == "Function" else []):
            want = k == "Function" and (t[1], len(t[2]), t[3]) == (name, arity, pos)
            if p.match(name, arity, pos) != want:
                bad(f"match({name},{arity},{pos}) of {p}")
            if pos and p.match(name, arity) != want:
                bad(f"match({name},{arity}) of {p}")
        q = err(lambda: S.parse_term(str(p)))
        if q[0] != "ok" or q[1] != p or hash(q[1]) != hash(p):
            bad(f"parse_term(str({p!r})) is {q}")
        if k == "Function":
            for x in t[2]:
                check(x)
    syms = []
    for t in case["trees"]:
        check(t)
        syms.append((ref.mk(t), api.mk(t), t))
    for r, p, t in syms:
        for r2, p2, t2 in syms:
            eq = bool(lib.clingo_symbol_is_equal_to(r.rep, r2.rep))
            lt = bool(lib.clingo_symbol_is_less_than(r.rep, r2.rep))
            gt = bool(lib.clingo_symbol_is_less_than(r2.rep, r.rep))
            if (t == t2) != eq:
                bad(f"{t} {t2}")
            got = (p == p2, p != p2, p < p2, p > p2, p <= p2, p >= p2, hash(p) == hash(p2) or not eq, len({p, p2}), {p: 1}.get(p2))
            want = (eq, not eq, lt, gt, lt or eq, gt or eq, True, 1 if eq else 2, 1 if eq else None)
            if got != want:
                bad(f"comparison of {p} and {p2}: {got} instead of {want}")
        for other in (None, 1, "a", str(p), [p], r):
            if p == other or not p != other:
                bad(f"{p!r} equal to {other!r}")
            try:
                p < other
                bad(f"{p!r} < {other!r} does not raise")
            except TypeError:
                pass
    want = sorted((r for r, _, _ in syms), key=functools.cmp_to_key(
        lambda a, b: -1 if lib.clingo_symbol_is_less_than(a.rep, b.rep) else int(not lib.clingo_symbol_is_equal_to(a.rep, b.rep))))
    if [str(x) for x in sorted(p for _, p, _ in syms)] != [str(x) for x in want]:
        bad("sorted")
    # functions take any sequence
    args = [p for _, p, _ in syms]
    f1, f2 = S.Function("g", args), S.Function("g", tuple(args), True)
    if f1 != f2 or f1.arguments != args or S.Tuple_(args) != S.Function("", args) or S.Function("g", args, False).positive:
        bad("Function")
    if args and clingo.Function("g") == f1:
        bad("default arguments")
    ev.label(*(t[0] for t in case["trees"]))
    ev.nontrivial(any(t[0] == "f" and t[2] for t in case["trees"]))


@g.cached
def term(depth):
    leaf = g.one_of(g.N(-3, 5).map(str), g.pick(["a", "f", "\"s\"", "#inf", "#sup", "-a", "()", "(1,)", "2147483647", "X", "_", "\"\\n\\\\\"",
                                               "0x1F", "0b11", "0o7", "a'"]))
    if not depth:
        return leaf
    s = st.deferred(lambda: term(depth - 1))
    return g.one_of(
        leaf, st.tuples(s, g.pick(["+", "-", "*", "/", "**", "&", "?", "^", ",", ";", ".."]), s).map(lambda t: f"{t[0]}{t[1]}{t[2]}"),
        st.tuples(g.pick(["-", "~", "|", "("]), s).map(lambda t: {"|": f"|{t[1]}|", "(": f"({t[1]})"}.get(t[0], t[0] + t[1])),
        st.tuples(g.pick(["f", "g", "-f", "@f", ""]), st.lists(s, max_size=3)).map(lambda t: f"{t[0]}({','.join(t[1])})"))


# modulo by zero crashes the installed library (see DESIGN.md): no "\\" operator here
PT = st.fixed_dictionaries({"text": g.one_of(term(2), term(3), st.text(alphabet="f(1,2)-\"a+ *", max_size=8)), "limit": g.N(0, 3), "logger": g.N(0, 4)})


def parse(case, ev):
    """parse_term returns the symbol, or raises with the messages of the library"""
    outs = []
    for a in _apis:
        msgs = []
        try:
            r = str(a.parse_term(case["text"], (lambda c, m: msgs.append([getattr(c, "name", c), m])) if case["logger"] else None, case["limit"]))
        except Exception as e:
            r = [type(e).__name__, str(e)]
        outs.append([r, msgs])
        if os.environ.get("VP_REF_ONLY"):
            return
    if outs[0] != outs[1]:
        raise pbt.Violation(f"parse_term({case['text']!r}): {outs[1]}, the library says {outs[0]}")
    ok = isinstance(outs[0][0], str)
    ev.label("ok" if ok else "rejected", "msgs" if outs[0][1] else "-")
    ev.nontrivial(len(case["text"]) > 2)


TECHNIQUE = "property-based testing: random symbols and terms, Python symbol operations compared with the raw C interface and with the generated structure"
LEVEL_NOTE = "Random search over nested symbols and neighbours of them; every operation of the symbol interface is evaluated on every symbol and pair."
CHECK = pbt.Check(
    "C13",
    [pbt.Part("symbols", case(), run, quick=10000, thorough=200000),
     pbt.Part("parse", PT, parse, quick=10000, thorough=200000)],
    rule="non-trivial: a compound symbol occurs / a term text of more than two characters",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
