"""C30: C++ symbols, containers and inspection agree with the C interface."""
from cppcommon import *
import gensess as g
from hypothesis import strategies as st

TREE = g.tree(3)
SIG = g.one_of(st.tuples(g.pick(["a", "b", "f", "", "_x", "not_"]), g.pick([0, 1, 2, 3, 10]), g.BOOL).map(list))


@st.composite
def sym_case(draw):
    ts = [draw(TREE), draw(TREE)]
    for _ in range(draw(g.N(0, 2))):
        x = json.loads(json.dumps(draw(g.pick(ts[:]))))
        if x[0] == "f" and x[1]:
            k = draw(g.N(0, 4))
            if k == 0:
                x[3] = not x[3]
            elif k == 1 and x[2]:
                x[2].pop()
            elif k == 2:
                x[1] += "a"
            elif k == 3:
                x[2].append(["n", 0])
        ts.append(x)
    return {"trees": ts, "sigs": draw(st.lists(SIG, max_size=3)), "signs": draw(g.N(0, 255)), "alt": draw(g.N(0, 11))}


def rel3(lt, gt):
    """all six relations in the order ==, !=, <, <=, >, >="""
    return (not lt and not gt, lt or gt, lt, not gt, gt, not lt)


def symbols(case, ev):
    import cppapi
    import refclingo as R
    m = mod()
    api = cppapi.CppApi(os.environ["VP_CPP"], case)
    raw = R.raw()
    lib, ffi = raw.lib, raw.ffi

    def bad(msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(case)}")

    def attempt(f):
        try:
            return ["ok", f()]
        except m.CppError as e:
            return [e.kind, str(e)]

    def c_fail(name, r, typ):
        out = ffi.new(typ)
        args = [r.rep, out] if name != "clingo_symbol_arguments" else [r.rep, out, ffi.new("size_t*")]
        if getattr(lib, name)(*args):
            return None
        return ["runtime_error" if lib.clingo_error_code() != 2 else "logic_error", ffi.string(lib.clingo_error_message()).decode("utf-8", "surrogateescape")]

    def check(t):
        p, r = api.mk(t), R.mk(t)
        if p.rep != r.rep:
            bad(f"{p} instead of {r}")
        if str(p) != str(r):
            bad(f"{p} printed, in C {r}")
        if m.span_show([p]) != "{ " + str(r) + " }":
            bad(f"{p} printed as {m.span_show([p])}")
        if hash(p) != hash(lib.clingo_symbol_hash(r.rep)):
            bad(f"hash of {p}")
        k = t[0]
        kind = {"n": 1, "s": 4, "f": 5, "inf": 0, "sup": 7}[k]
        if p.type != kind:
            bad(f"type {p.type} of {p}")
        for name, c, typ, ok in (("number", "clingo_symbol_number", "int*", k == "n"), ("name", "clingo_symbol_name", "char const**", k == "f"),
                                 ("string", "clingo_symbol_string", "char const**", k == "s"), ("positive", "clingo_symbol_is_positive", "bool*", k == "f"),
                                 ("negative", "clingo_symbol_is_negative", "bool*", k == "f"), ("arguments", "clingo_symbol_arguments", "clingo_symbol_t const**", k == "f")):
            got = attempt(lambda: getattr(p, name))
            if ok:
                want = {"number": lambda: t[1], "name": lambda: t[1], "string": lambda: t[1], "positive": lambda: t[3], "negative": lambda: not t[3],
                        "arguments": lambda: [R.mk(x).rep for x in t[2]]}[name]()
                if name == "arguments" and got[0] == "ok":
                    got = ["ok", [x.rep for x in got[1]]]
                want = ["ok", want]
            else:
                want = c_fail(c, r, typ)
            if got != want:
                bad(f"{name} of {p}: {got} instead of {want}")
        if k == "f":
            for n, a in ((t[1], len(t[2])), (t[1], len(t[2]) + 1), (t[1] + "x", len(t[2])), ("", len(t[2])), ("", 0)):
                if bool(p.match(n, a)) != ((n, a) == (t[1], len(t[2]))):
                    bad(f"match({n},{a}) of {p}")
            for x in t[2]:
                check(x)
        elif p.match("", 0) or p.match("a", 0):
            bad(f"match of {p}")
        # through text
        q = attempt(lambda: m.parse_term(str(r), lambda c, n, x: None, 20))
        try:
            want = R.parse_term(str(r), lambda c, x: None).rep
        except RuntimeError:
            want = None
        if (q[1].rep if q[0] == "ok" else None) != want:
            bad(f"{r} parsed: {q}")
        return p, r
    both = [check(t) for t in case["trees"]]
    lt = lib.clingo_symbol_is_less_than
    lits = []
    for i, (p, r) in enumerate(both):
        for j, (q, s) in enumerate(both):
            want = rel3(bool(lt(r.rep, s.rep)), bool(lt(s.rep, r.rep)))
            if tuple(m.sym_rel(p, q)) != want:
                bad(f"relations of {p} and {q}: {m.sym_rel(p, q)}")
            if want[0] != bool(lib.clingo_symbol_is_equal_to(r.rep, s.rep)):
                bad("equal")
            if (p == q) != want[0]:
                bad("equality")
            a, b = bool(case["signs"] >> i & 1), bool(case["signs"] >> (j + 2) & 1)
            lits.append(((p, a), (q, b)))
    # literals over symbols: positive ones first, then by symbol
    got = m.slit_rel([x for x, _ in lits], [y for _, y in lits])
    for ((p, a), (q, b)), (rel, show, sym) in zip(lits, got):
        less = bool(lt(p.rep, q.rep)) if a == b else a and not b
        more = bool(lt(q.rep, p.rep)) if a == b else b and not a
        if tuple(rel) != rel3(less, more):
            bad(f"relations of literals {a} {p} and {b} {q}: {rel}")
        if show != ("" if a else "~") + str(p) or sym.rep != p.rep:
            bad(f"literal {a} {p} is {show}")
    syms = [p for p, _ in both]
    for k in range(len(syms) + 1):
        want = "{ " + ", ".join(map(str, syms[:k])) + (" }" if k else "}")
        if m.span_show(syms[:k]) != want:
            bad(f"span printed as {m.span_show(syms[:k])!r}, expected {want!r}")
    # signatures
    sigs = []
    for n, a, pos in case["sigs"] + [[t[1], len(t[2]), t[3]] for t in case["trees"] if t[0] == "f"]:
        out = ffi.new("clingo_signature_t*")
        if not lib.clingo_signature_create(n.encode(), a, pos, out):
            bad("signature")
        s = m.Signature(n, a, pos)
        if (s.name, s.arity, bool(s.positive), bool(s.negative)) != (n, a, pos, not pos) or s.rep != out[0]:
            bad(f"signature {(s.name, s.arity, s.positive, s.negative)} instead of {(n, a, pos)}")
        if str(s) != ("" if pos else "-") + f"{n}/{a}":
            bad(f"signature printed as {s}")
        sigs.append((s, out[0]))
    for s, r in sigs:
        for t, q in sigs:
            want = rel3(bool(lib.clingo_signature_is_less_than(r, q)), bool(lib.clingo_signature_is_less_than(q, r)))
            if tuple(m.sig_rel(s, t)) != want:
                bad(f"relations of signatures {s} and {t}: {m.sig_rel(s, t)}")
            if want[0] and hash(s) != hash(t):
                bad("hash of signatures")
    ev.label(*(t[0] for t in case["trees"]))
    ev.nontrivial(any(t[0] == "f" and t[2] for t in case["trees"]))


EXTRA = [g.opt(), g.show(), g.theory_stm(), g.theory_stm(), g.project()]
TEXT = g.text(EXTRA, 4)
SOLVE = g.solve(modes=("sync", "yield"))
INSPECT = g.one_of(g.atoms_op(), g.atoms_op(), g.conf_op(), g.conf_op(), g.attr_op(), st.just(["theory"]), st.just(["theory"]), st.just(["conf_walk"]), g.ext_op(), SOLVE,
                   g.pick(["n", "m", "k"]).map(lambda n: ["const", n]), g.backend(theory=True), g.ground(),
                   g.pick(["f(1,x)", "1+2*3", "(1", "a/0", "#inf", "-f(x)", "x+1", "\"a\\\"\"", "(1,)", "1..2"]).map(lambda t: ["parse_term", t]))


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT)], ["ground", [["base", []]]]]
    ops += draw(st.lists(INSPECT, min_size=1, max_size=5))
    return cpp_session(draw, ops, g)


def inspect(case, ev):
    t = compare(case, ev)
    ev.nontrivial(sum(1 for e in t if e[0] == "op" and e[2] in ("atoms", "theory", "conf", "conf_walk", "conf_desc")) > 1)


@st.composite
def same_case(draw):
    return {"args": draw(g.args()) + draw(g.pick([[], ["--stats"], ["--stats=2"], ["-t2"]])), "text": g.THEORY + draw(TEXT), "solve": draw(g.N(0, 2)), "alt": draw(g.N(0, 11)),
            "models": draw(g.N(0, 3))}


def same(case, ev):
    """statistics, configuration, atoms and theory of one control seen through both interfaces"""
    import cppapi
    import refclingo as R
    import sess
    raw = R.raw()
    V = R.V
    api = cppapi.CppApi(os.environ["VP_CPP"], case)
    try:
        c = api.control(case["args"], lambda c, m: None, 20)
    except RuntimeError:
        ev.label("rejected")
        return
    rc = raw.ffi.cast("clingo_control_t*", c.r.ptr)

    def bad(msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(case)}")
    try:
        c.add("base", [], case["text"])
        c.r.ground([("base", [])], None)
    except RuntimeError as e:
        ev.label("rejected")
        api.free(c)
        return
    for i in range(case["solve"]):
        c.solve()
        st_ = V("control_statistics", "clingo_statistics_t const*", rc)
        want = R.stats_dump(st_, V("statistics_root", "uint64_t", st_))
        got = c.r.statistics
        if json.dumps(got, sort_keys=True) != json.dumps(want, sort_keys=True):
            bad(f"statistics {json.dumps(got)[:1500]} instead of {json.dumps(want)[:1500]}")
        if list(got) != list(want):
            bad("order of keys")
    conf = V("control_configuration", "clingo_configuration_t*", rc)

    def walk(x, k, path):
        t = V("configuration_type", "clingo_configuration_type_bitset_t", conf, k)
        if (bool(x.is_value), bool(x.is_array), bool(x.is_map)) != (bool(t & 1), bool(t & 2), bool(t & 4)):
            bad(f"type of {path}")
        if t & 1:
            want = R.Conf(conf, k).value()
            if x.value != want:
                bad(f"value of {path} is {x.value!r} instead of {want!r}")
        if path and x.desc() != R.Conf(conf, k).desc():
            bad(f"description of {path}")
        if t & 2:
            n = V("configuration_array_size", "size_t", conf, k)
            if x.len != n:
                bad(f"size of {path}")
            for i in range(min(n, 3)):
                walk(x.idx(i), V("configuration_array_at", "clingo_id_t", conf, k, i), path + [i])
        if t & 4:
            n = V("configuration_map_size", "size_t", conf, k)
            keys = [R.s(V("configuration_map_subkey_name", "char const*", conf, k, i)) for i in range(n)]
            if list(x.keys) != keys:
                bad(f"keys of {path}")
            for name in keys:
                walk(x.sub(name), V("configuration_map_at", "clingo_id_t", conf, k, name.encode()), path + [name])
    walk(c.r.configuration, V("configuration_root", "clingo_id_t", conf), [])
    if not c.r.facade():
        bad("no clasp facade")
    api.free(c)
    ev.nontrivial(case["solve"] > 0)


LOC = st.tuples(g.pick(["a.lp", "b", "<string>", ""]), g.pick(["a.lp", "b", "<string>", ""]), st.lists(g.pick([0, 1, 2, 2, 3, 70000, 2**31]), min_size=4, max_size=4)).map(list)
OPS = ["copy", "copy2", "copy3", "move", "move2", "value", "value2", "value3", "value4", "value5", "emplace", "clear", "write", "take", "swap", "alias"]
VOPS = ["copy", "copy2", "move", "move2", "int", "int2", "str", "str2", "str3", "cnt", "cnt2", "cnt3", "vec", "vec2", "swap", "write", "self"]


def steps(ops):
    return st.lists(st.tuples(g.pick(ops), g.N(0, 2), g.N(0, 2), g.N(0, 9)).map(list), max_size=14)


VALUES = st.fixed_dictionaries({"loc": LOC, "opt": steps(OPS), "var": steps(VOPS), "code": st.tuples(g.N(-1, 6), g.N(-1, 9)).map(list),
                                "str": st.lists(st.text(alphabet="ab\"\\\né", max_size=6), max_size=3)})


def model_optional(ops):
    x, r = [None] * 3, []
    for op, a, b, v in ops:
        if op in ("copy", "copy2", "copy3"):
            x[a] = x[b]
        elif op in ("move", "move2"):
            t = x[b]
            if a != b or op == "move2":
                x[b] = None
            x[a] = t
        elif op in ("value", "value2", "value3", "value5"):
            x[a] = v
        elif op == "value4":
            x[a] = v + 1
        elif op == "emplace":
            x[a] = v + 2
        elif op in ("clear", "take"):
            x[a] = None
        elif op == "write" and x[a] is not None:
            x[a] = v + 1
        elif op == "swap":
            x[a], x[b] = x[b], x[a]
        r.append(x + [sum(y is not None for y in x)])
    return r + [0]


def model_variant(ops):
    x, r = [("int", 0), ("str", "s"), ("cnt", 1)], []
    for op, a, b, v in ops:
        if op in ("copy", "copy2"):
            x[a] = x[b]
        elif op in ("move", "move2"):
            if a != b:
                x[a] = x[b]
                x[b] = ("int", 0)
        elif op in ("int", "int2"):
            x[a] = ("int", v)
        elif op in ("str", "str2", "str3"):
            x[a] = ("str", str(v))
        elif op[:3] == "cnt":
            x[a] = ("cnt", v + {"cnt": 0, "cnt2": 1, "cnt3": 2}[op])
        elif op == "vec":
            x[a] = ("vec", 2)
        elif op == "vec2":
            x[a] = ("vec", v + 10)
        elif op == "swap":
            x[a], x[b] = x[b], x[a]
        elif op == "write":
            k, y = x[a]
            x[a] = (k, y + v if k in ("int", "cnt") else y + "w" if k == "str" else y)
        s = []
        for k, y in x:
            s.append(f"{k}{y}")
            if k != "vec":
                s.append(("C" if k == "cnt" else "") + str(y))
        r.append(s + [sum(k == "cnt" for k, _ in x)])
    return r + [0]


def show_location(f, g_, n):
    bl, el, bc, ec = n
    out = f"{f}:{bl}:{bc}"
    if f != g_:
        return out + f"-{g_}:{el}:{ec}"
    if bl != el:
        return out + f"-{el}:{ec}"
    return out + (f"-{ec}" if bc != ec else "")


def values(case, ev):
    import refclingo as R
    m = mod()
    raw = R.raw()
    lib, ffi = raw.lib, raw.ffi

    def bad(what, got, want):
        raise pbt.Violation(f"{what}: {got} instead of {want}\n{json.dumps(case)}")
    f, h, n = case["loc"]
    want = [show_location(f, h, n), f, h, n[0], n[1], n[2], n[3]]
    got = list(m.location(f, h, n))
    if got != want:
        bad("location", got, want)
    for k, model in (("opt", model_optional), ("var", model_variant)):
        got = [list(x) if not isinstance(x, int) else x for x in (m.optionals if k == "opt" else m.variants)(case[k])]
        want = [list(x) if not isinstance(x, int) else x for x in model(case[k])]
        if got != want:
            bad(k, got, want)
    e, w = case["code"]

    def text(p):
        return "" if p == ffi.NULL else ffi.string(p).decode()
    got, want = m.codes(e, w), text(lib.clingo_error_string(e)) + "|" + text(lib.clingo_warning_string(w))
    if got != want:
        bad("codes", got, want)
    for x in case["str"]:
        if m.add_string(x) != x:
            bad("string", m.add_string(x), x)
    v = ffi.new("int[3]")
    lib.clingo_version(v, v + 1, v + 2)
    if tuple(m.version()) != tuple(v):
        bad("version", m.version(), tuple(v))
    ev.nontrivial(len(case["opt"]) + len(case["var"]) > 3)


TECHNIQUE = ("property-based testing: generated symbols, programs and inspection histories driven through clingo.hh, compared with the raw C interface on the same values and controls; "
             "generated histories of value types (optionals, variants) compared with models")
LEVEL_NOTE = "Random search; clingo.hh of /repo is compiled into the driver, the solver library is the installed libclingo."
CHECK = pbt.Check(
    "C30",
    [pbt.Part("symbols", sym_case(), symbols, quick=10000, thorough=150000),
     pbt.Part("inspect", session(), inspect, quick=8000, thorough=100000),
     pbt.Part("same", same_case(), same, quick=600, thorough=10000),
     pbt.Part("values", VALUES, values, quick=10000, thorough=150000)],
    rule="symbol trees and neighbours of them, histories of reading atoms, theory atoms, configuration and statistics, histories of optionals and variants; "
         "non-trivial: a function with arguments / more than one reading operation / a solve / more than three changes",
    build=build_cpp, init=init_cpp,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
