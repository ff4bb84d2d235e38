"""Generators of session histories (see sess.py)."""
import functools

from hypothesis import strategies as st

import sess

N = functools.lru_cache(None)(lambda a, b: st.integers(a, b))
BOOL = st.booleans()
_pick = functools.lru_cache(None)(lambda x: st.sampled_from(x))


def pick(x):
    try:
        return _pick(tuple(x) if isinstance(x, list) else x)
    except TypeError:
        return st.sampled_from(x)


def cached(f):
    """strategies are built once"""
    memo = {}

    def key(x):
        if isinstance(x, st.SearchStrategy):
            return id(x)
        if isinstance(x, (list, tuple)):
            return tuple(key(y) for y in x)
        return repr(x)

    @functools.wraps(f)
    def call(*a, **kw):
        k = (key(a), key(sorted(kw.items())))
        if k not in memo:
            memo[k] = (a, kw, f(*a, **kw))
        return memo[k][2]
    return call

THEORY = """#theory t { term { + : 1, binary, left; - : 1, binary, left; - : 3, unary; * : 2, binary, left; ** : 4, binary, right;
 ? : 0, binary, right; ! : 5, unary }; &sum/0 : term, {<=, >=, =}, term, any; &diff/0 : term, any; &dom/0 : term, {!=}, term, head }."""


@cached
def lists(s, lo=0, hi=None, unique=False):
    return st.lists(s, min_size=lo, max_size=hi, unique=unique)


@cached
def one_of(*s):
    return st.one_of(*s)


WAITS = st.sampled_from([[["wait"]], [["wait", 30.0]], []])

# ---------------------------------------------------------------- symbols

@cached
def tree(depth=2):
    num = st.one_of(N(-3, 5), pick([2**31 - 1, -2**31])).map(lambda n: ["n", n])
    name = pick(["a", "b", "f", "_x", "aB1", "_'", "x'"])
    string = st.text(alphabet='ab"\\\n é', max_size=3).map(lambda s: ["s", s])
    const = st.tuples(name, BOOL).map(lambda x: ["f", x[0], [], x[1]])
    leaf = st.one_of(num, const, const, string, st.just(["inf"]), st.just(["sup"]))
    if depth == 0:
        return leaf
    sub = st.deferred(lambda: tree(depth - 1))
    fun = st.tuples(name, st.lists(sub, min_size=1, max_size=3), BOOL).map(lambda x: ["f", x[0], x[1], x[2]])
    tup = st.lists(sub, max_size=3).map(lambda x: ["f", "", x, True])
    return st.one_of(leaf, leaf, fun, tup)


def fun(name, *args):
    return ["f", name, [(["n", a] if isinstance(a, int) else a) for a in args], True]


@cached
def atom_ref():
    """atoms that the generated programs tend to know"""
    return st.one_of(
        N(1, 4).map(lambda i: fun("a", i)), N(1, 4).map(lambda i: fun("a", i)), pick(["b", "c", "d", "x", "y"]).map(fun),
        N(1, 3).map(lambda i: fun("e", i)), N(1, 3).map(lambda i: fun("s", i)), pick([["f", "a", [["n", 1]], False], ["f", "a", [["n", 2]], False], ["f", "b", [], False]]),
        st.tuples(N(1, 2), N(1, 2)).map(lambda t: fun("t", *t)), st.just(fun("nope")))


# ---------------------------------------------------------------- programs

@cached
def stm():
    n = N(1, 4)
    return st.one_of(
        n.map(lambda i: f"{{a(1..{i})}}."), n.map(lambda i: f"{{a(1..{i})}}."), st.just("{b; c}."), st.just("x | y."),
        st.tuples(n, n).map(lambda t: f"{t[0]} {{a(1..{t[1]})}} {t[0] + 1}."),
        pick(["x | y :- b.", "c :- a(X), not b.", ":- a(X), a(X+1).", ":- not a(1), b.", "d :- #sum{X:a(X)} >= 3.",
              "d :- 2 #count{X:a(X)}, not c.", "r(X) :- a(X). r(X+1) :- r(X), X<3, b.", "-a(1) :- b.", "-b :- c, not -a(1).", "{-a(1)}. {-c}.", ":- b, c.", "b.",
              "p(X) : a(X) :- c.", "g(X,Y) :- a(X), a(Y), X != Y.", "a(1). a(2).", "m(X) :- X = #max{Y:a(Y)}.",
              "o :- not not o.", "{o; u}. :- o, not u.", "k(\"s t\",(1,),(),f(x,-y)) :- b.", ":- a(X), X > 2."]),
        pick(["#external e(1..2).", "#external e(X) : a(X).", "#external e(3). [true]", "#external e(1). [free]",
              "f(X) :- e(X).", "{f(X)} :- e(X).", ":- e(1), e(2).", "e(2) :- b."]))


@cached
def opt():
    return st.one_of(
        st.tuples(N(-2, 3), N(-1, 2)).map(lambda t: f"#minimize {{ {t[0]}@{t[1]},X : a(X); 2@{t[1]},b : b }}."),
        st.tuples(N(1, 3), N(0, 2)).map(lambda t: f"#maximize {{ X@{t[1]},X : a(X); {t[0]}@1 : c }}."),
        N(-1, 2).map(lambda p: f":~ a(X), not b. [X@{p},X]"))


@cached
def show():
    return pick(["#show.", "#show a/1.", "#show b/0.", "#show f(X) : a(X).", "#show \"str\" : b.", "#show (X,Y) : a(X), a(Y), X<Y.",
                 "#show -a/1.", "#show 1 : not b.", "#show t(b) : not a(1), not c."])


@cached
def project():
    return pick(["#project a/1.", "#project b.", "#project a(X) : not b.", "#project c."])


@cached
def heu():
    return st.one_of(
        st.tuples(N(-2, 2), N(0, 2), pick(["sign", "level", "true", "false", "init", "factor"])).map(
            lambda t: f"#heuristic a(X). [{t[0]}@{t[1]},{t[2]}]"),
        st.just("#heuristic b : c. [1,true]"))


@cached
def edge():
    return pick(["#edge (X,X+1) : a(X).", "#edge (2,1) : b.", "#edge (X,1) : a(X), c.", "#edge (u,v)."])


@cached
def theory_gen():
    """theory atoms with elements of all shapes"""
    term = pick(["1", "-2", "x", "\"s\"", "f(1,x)", "(1,)", "[x]", "{1,2}", "()", "1+x", "-(1*2)"])
    cond = pick(["a(1)", "not b", "b", "x", "not c", "a(X)", "not not b"])
    elem = st.tuples(lists(term, 0, 3), lists(cond, 0, 3)).map(
        lambda e: ", ".join(e[0] or ([] if e[1] else ["1"])) + (" : " + ", ".join(e[1]) if e[1] else ""))  # elements without terms and literals are not printed
    atom = st.tuples(pick(["&sum", "&diff"]), lists(elem, 0, 3)).map(lambda a: a[0] + "{ " + "; ".join(a[1]) + " }")
    guard = pick(["", "", " >= 3", " <= -x", " = f(1)"])
    body = pick(["", " :- b.", " :- a(1), not c."])
    return st.tuples(atom, guard, body).map(
        lambda a: a[0] + (a[1] if a[0].startswith("&sum") else "") + (a[2] or "."))


@cached
def theory_stm():
    return one_of(theory_gen(), theory_fix())


@cached
def theory_fix():
    return pick(["&sum{X,Y+1 : a(X), a(Y)} >= 3 :- b.", "&sum{f(X)-1 ; (X,) : a(X)} = 2*X :- a(X).", "&diff{} .", "&diff{1;2; -x}.",
                 ":- &sum{1 : b; \"str\",[1,2],{x,y}}.", "c :- &diff{a ? b ** 2 : c}.", "&dom{!x : a(X)} != f(1,-2).",
                 "&sum{ 1-2-3 : not b } <= (-4).", "&diff{ X : a(X), not c } :- x.", "&sum{}."])


@cached
def parts():
    return pick([
        "#program step(t). s(t). {t(t,1..2)}. :- t(t,1), t(t,2). #external e(t+5).",
        "#program step(t). {s(t)}. :- s(t), b. #minimize{t@2,t : s(t)}. ",
        "#program step(t). w(t) | s(t). #show t : s(t).",
        "#program more. {b}. #external e(9)."])


@cached
def multi():
    """program parts with up to six parameters"""
    return st.permutations(["x", "y", "n1", "abc", "u", "x'"]).flatmap(
        lambda ps: st.tuples(N(0, 6), st.lists(tree(1), min_size=6, max_size=6)).map(lambda t: ["multi", ps[:t[0]], t[1][:t[0]]]))


@cached
def warn():
    return pick(["z :- undefd.", "y(X+a) :- X=1.", "y(1/0).", "y(X-f) :- a(X).", "z(Y) :- Y = 1..3/0."])


def calls():
    return st.one_of(
        pick(["p(@f(X,b)) :- a(X).", "p(@g(1,\"s\")).", "p(@h()).", "p(X) :- X = @f(1,(2,x)), b.", "q(X,Y) :- X = @f(1), Y = @g(2).",
              "p(@f(@g(X))) :- X = 1..2.", ":- a(X), @h(X) = 1.",
              "p(@f(X,1,b)) :- a(X).", "p(@g(X,\"s\",(2,x),-1)) :- X = 1..2.", "p(X) :- X = @h(1,b,#inf,#sup,f(1),\"t\").",
              "p(@g(5,X,b), @f(3,2,1)) :- a(X).", "p(@f(%s))." % ",".join(map(str, range(40))), "#show @f(X) : a(X).", "#minimize{@g(X),X : a(X)}."]))


@cached
def text(extra=None, n=4):
    base = st.lists(stm(), min_size=1, max_size=n)
    ex = st.lists(st.one_of(*extra), max_size=3) if extra else st.just([])
    pre = pick(["{a(1..3); b; c}. ", "{a(1..2); b}. ", "{a(1..2)}. {b; c}. #external e(1..2). ", "", "{a(1); -a(1..2); -b; c}. ", "a(1). {a(2..3)}. b. {c}. "])
    return st.tuples(pre, base, ex).map(lambda t: t[0] + "\n".join(t[1] + t[2]))


ARGS = ["0", "1", "2", "3"]


@cached
def args():
    return st.tuples(
        pick(ARGS + ["0"] * 3),
        st.lists(pick(["--opt-mode=optN", "--opt-mode=enum", "--enum-mode=brave", "--enum-mode=cautious", "--project=show",
                       "--project=project", "--heuristic=Domain", "-Wno-atom-undefined", "-c", "--restart-on-model",
                        "--enum-mode=record", "--enum-mode=bt", "--rand-freq=0.5",
                       "--dom-mod=3,16"]),
                 max_size=2, unique=True)).map(
        lambda t: [t[0]] + [y for x in dedup(t[1]) for y in (["-c", "n=3"] if x == "-c" else x.split())])


def dedup(opts):
    return list({x.split("=")[0]: x for x in opts}.values())


# ---------------------------------------------------------------- operations

@cached
def symref():
    return st.one_of(atom_ref(), atom_ref(), pick([1, -1, 2, 3, -4]))


@cached
def assumption():
    return st.one_of(st.tuples(atom_ref(), BOOL).map(list), st.tuples(atom_ref(), BOOL).map(list),
                     pick([1, -1, 2, -2, 3]))


@cached
def symbols_kw():
    return st.dictionaries(pick(["atoms", "terms", "shown", "theory", "complement"]), BOOL, max_size=5)


@cached
def model_op(raises=0.0):
    ops = [st.just(["dump"]), st.just(["truth"]), symbols_kw().map(lambda k: ["symbols", k]),
           symbols_kw().map(lambda k: ["symbols", k]), atom_ref().map(lambda t: ["contains", t]),
           st.lists(tree(), max_size=3).map(lambda l: ["extend", l])]
    return st.one_of(*ops)


@cached
def clause_op():
    return st.tuples(pick(["clause", "nogood"]), st.lists(assumption(), max_size=2)).map(list)


@cached
def exc_op():
    return pick(sess.EXC_KINDS).map(lambda k: ["raise", k])


@cached
def model_script(ret=True, clause=True, exc=False):
    op = [model_op(), model_op(), model_op()]
    if clause:
        op.append(clause_op())
    if ret:
        op.append(st.one_of(st.just(["ret", False]), st.just(["ret", True]), st.just(["ret", 0])))
    if exc:
        op.append(exc_op())
    return st.lists(st.lists(st.one_of(*op), max_size=3), max_size=5)


@cached
def opt_none(s, p=2):
    return st.one_of(st.none(), *([s] * p))


@cached
def stats_value(depth=2):
    leaf = st.one_of(N(-3, 3).map(float), st.floats(allow_nan=False, width=32).map(float))
    if depth == 0:
        return leaf
    sub = st.deferred(lambda: stats_value(depth - 1))
    return st.one_of(leaf, st.lists(sub, max_size=3), st.dictionaries(pick("klmn"), sub, max_size=3))


@cached
def stats_script():
    v = stats_value(0)
    va = st.lists(v, max_size=3)
    vm = st.dictionaries(pick("klmn"), v, max_size=3)
    val = st.one_of(  # a name keeps its shape
        st.tuples(st.just("user_v"), v), st.tuples(st.just("user_a"), va), st.tuples(st.just("user_m"), vm),
        st.tuples(st.just("user_aa"), st.lists(va, max_size=2)), st.tuples(st.just("user_am"), st.lists(vm, max_size=2)),
        st.tuples(st.just("user_ma"), st.dictionaries(pick("klmn"), va, max_size=2)),
        st.tuples(st.just("user_mm"), st.dictionaries(pick("klmn"), vm, max_size=2)))
    return st.lists(st.tuples(pick(["step", "accu"]), val).map(lambda t: [t[0], *t[1]]), max_size=3)


@cached
@st.composite
def solve(draw, modes=("sync", "yield", "async", "async_yield"), exc=False, clause=True, last=True):
    mode = draw(pick(modes))
    kw = {"mode": mode, "assumptions": draw(lists(assumption(), 0, 3))}
    a = "async" in mode
    m = draw(opt_none(model_script(exc=exc, clause=clause), 3 if mode != "async_yield" else 1))
    if m is not None:
        kw["model"] = m
    if draw(BOOL):
        kw["unsat"] = []
    if draw(BOOL):
        kw["stats"] = draw(stats_script())
    if draw(BOOL):
        kw["finish"] = []
    if mode == "sync":
        if draw(BOOL):
            kw["core"] = [draw(pick(sess.EXC_KINDS))] if exc and draw(N(0, 3)) == 0 else []
        if last and draw(N(0, 2)) == 0:
            kw["last"] = draw(lists(one_of(model_op(), *([exc_op()] if exc else [])), 0, 2))
    else:
        kw["hops"] = draw(hops(mode))
    return ["solve", kw]


@cached
def yield_hops():
    ops = lists(model_op(), 0, 2)
    h = st.one_of(st.just(["resume"]), ops.map(lambda o: ["model", o]), ops.map(lambda o: ["model", o]),
                  pick([["wait"], ["wait", -1.0]]), st.just(["get"]), st.just(["core"]),
                  st.just(["last"]), st.just(["cancel"]), st.tuples(N(1, 9), ops).map(lambda t: ["iter", t[0], t[1]]),
                  st.tuples(N(1, 9), ops).map(lambda t: ["iter", t[0], t[1]]),
                  st.lists(clause_op(), max_size=1).map(lambda o: ["model", o]))
    return st.lists(h, max_size=7)


@cached
@st.composite
def hops(draw, mode):
    ops = lists(model_op(), 0, 2)
    if mode == "yield":
        return draw(yield_hops())
    if mode == "async":
        pre = draw(lists(pick([["peek"], ["wait", 30.0], ["wait"]]), 0, 2))
        end = draw(lists(pick([["get"], ["wait"], ["core"], ["get"], ["wait", 0.0]]), 0, 3))
        if draw(N(0, 5)) == 0:
            return pre + [["cancel"]]
        return pre + [["get"]] + end
    # async_yield: resume, wait, model until done
    n = draw(N(0, 6))
    out = []
    for _ in range(n):
        out += [["resume"]] + ([["peek"]] if draw(BOOL) else [])
        w = draw(pick([[["wait"]], [["wait", 30.0]], []]))
        out += w + [["model", draw(ops)]]
        if draw(N(0, 5)) == 0:
            out.append(draw(pick([["last"], ["wait", 0.0]])))
    if draw(BOOL):
        out.append(["iter", draw(N(1, 20)), draw(ops)])
    k = draw(N(0, 5))
    if k == 0:
        out.append(["cancel"])
    elif k > 1:
        out += [["iter", 1000, []], ["get"], ["core"]]
    return out


@cached
def ground_ctx(exc=False):
    b = [st.tuples(st.just("one"), tree(1)).map(list), N(0, 2).map(lambda i: ["arg", i]),
         st.lists(tree(1), max_size=3).map(lambda l: ["many", l]), st.just(["args"]), st.just(["wrap"])]
    if exc:
        b.append(exc_op())
    script = st.lists(st.one_of(*b), min_size=1, max_size=3)
    return st.fixed_dictionaries({"f": script, "g": script, "h": script})


@cached
def ground(exc=False, ctx=False):
    ps = st.one_of(st.just([["base", []]]), st.just([["base", []]]),
                   st.lists(st.one_of(st.just(["base", []]), N(1, 3).map(lambda i: ["step", [["n", i]]]), st.just(["more", []])),
                            max_size=3))
    if ctx:
        return st.tuples(ps, ground_ctx(exc)).map(lambda t: ["ground", *t])
    return ps.map(lambda p: ["ground", p])


CONF = [["solve", "models"], ["solve", "opt_mode"], ["solve", "enum_mode"], ["solve"], ["configuration"], ["solver"], ["solver", 0],
        ["solver", 0, "heuristic"], ["solver", "heuristic"], ["solver", 0, "restarts"], ["tester", "solver", 0, "sign_def"],
        ["asp", "trans_ext"], ["stats"], ["parallel_mode"], ["nope"], ["solve", "nope"], [], ["solver", 0, "seed"], ["solver", 0, "rand_freq"],
        ["tester"], ["share"], ["solve", "parallel_mode"], ["solve", "solve_limit"]]
CONF_SET = [(["solve", "models"], "0"), (["solve", "models"], 2), (["solve", "enum_mode"], "brave"), (["solve", "enum_mode"], "cautious"),
            (["solve", "enum_mode"], "auto"), (["solve", "opt_mode"], "optN"), (["solve", "opt_mode"], "opt"), (["solve", "opt_mode"], "enum"),
            (["solve", "opt_mode"], "bogus"), (["solver", 0, "heuristic"], "Berkmin"), (["solver", 0, "seed"], 17), (["solver", 0, "sign_def"], "rnd"),
            (["nope"], 1), (["solve", "project"], "show"), (["solve", "models"], -1), (["stats"], 2), (["solver", "seed"], 5),
            (["solve", "solve_limit"], "5,5"), (["configuration"], "frumpy")]


@cached
def conf_op():
    return st.one_of(pick(CONF).map(lambda p: ["conf", p]), pick([p for p in CONF if p]).map(lambda p: ["conf_desc", p] if isinstance(p[-1], str) else ["conf", p]),
                     pick(CONF_SET).map(lambda t: ["conf_set", t[0], t[1]]))


@cached
def attr_op():
    return st.one_of(
        st.tuples(pick(["enable_cleanup", "enable_enumeration_assumption"]), st.one_of(st.none(), BOOL)).map(
            lambda t: ["attr", t[0]] + ([] if t[1] is None else [t[1]])),
        st.just(["attr", "is_conflicting"]))


@cached
def atoms_op():
    return st.tuples(st.lists(st.one_of(atom_ref(), tree(1)), max_size=4),
                     st.lists(st.tuples(pick("abcefs"), N(0, 2), BOOL).map(list), max_size=2)).map(lambda t: ["atoms", *t])


@cached
def ext_op():
    return st.one_of(st.tuples(symref(), pick([True, False, None])).map(lambda t: ["assign", *t]),
                     st.tuples(symref(), pick([True, False, None])).map(lambda t: ["assign", *t]),
                     symref().map(lambda s: ["release", s]), symref().map(lambda s: ["release", s]), multi())


# ---------------------------------------------------------------- observers, backend, propagators

EVENTS = list(__import__("refclingo").OBS)


@cached
def observe(exc=False):
    ev = st.one_of(st.just(EVENTS), st.just(EVENTS), st.lists(pick(EVENTS), min_size=1, max_size=8, unique=True))
    style = pick(["derived", "duck", "derived"])
    ra = st.one_of(N(1, 20), N(1, 60)) if exc else st.none()
    return st.tuples(ev, BOOL, style, ra, pick(sess.EXC_KINDS)).map(
        lambda t: ["observe", t[0], t[1] if not exc else False, t[2]] + ([t[3], t[4]] if exc else []))


@cached
def bl():
    return st.one_of(N(1, 9), N(-9, -1))


@cached
def bls(n=3):
    return st.lists(bl(), max_size=n)


@cached
def bw(lo=-3, hi=4):
    return st.lists(st.tuples(bl(), N(lo, hi)).map(list), max_size=4)


@cached
def bstm(theory=True):
    ids = st.lists(N(0, 9), max_size=3)
    s = [
        st.one_of(st.just(["atom"]), atom_ref().map(lambda t: ["atom", t]), tree(1).filter(lambda t: t[0] == "f" and t[1]).map(lambda t: ["atom", t])),
        st.one_of(st.just(["atom"]), atom_ref().map(lambda t: ["atom", t])),
        st.tuples(bls(2), bls(3), BOOL).map(lambda t: ["rule", *t]),
        st.tuples(bls(3), bls(2)).map(lambda t: ["rule", t[0], t[1], True]),
        st.tuples(bls(2), bls(3)).map(lambda t: ["rule", *t]),
        st.tuples(bls(1), N(-1, 5), bw(0, 4), BOOL).map(lambda t: ["wrule", *t]),
        st.tuples(N(-1, 2), bw()).map(lambda t: ["minimize", *t]),
        bls(3).map(lambda l: ["project", l]),
        st.tuples(bl(), pick(["True_", "False_", "Free", "Release"])).map(lambda t: ["external", *t]),
        bl().map(lambda l: ["external", l]),
        bls(2).map(lambda l: ["assume", l]),
        st.tuples(bl(), pick(["Level", "Sign", "Factor", "Init", "True_", "False_"]), N(-3, 3), N(0, 3), bls(2)).map(lambda t: ["heuristic", *t]),
        st.tuples(N(0, 3), N(0, 3), bls(2)).map(lambda t: ["edge", *t]),
    ]
    if theory:
        s += [
            N(-4, 9).map(lambda n: ["tnum", n]), pick(["x", "sum", "a b", "+", ""]).map(lambda x: ["tstr", x]),
            tree(1).map(lambda t: ["tsym", t]), st.tuples(pick(["f", "+", "-", "g"]), st.lists(N(0, 9), min_size=1, max_size=3)).map(lambda t: ["tfun", *t]),
            st.tuples(pick(["Tuple", "Set", "List"]), ids).map(lambda t: ["tseq", *t]),
            st.tuples(ids, bls(2)).map(lambda t: ["elem", *t]),
            st.tuples(N(0, 9), ids, st.one_of(st.none(), st.just(0), N(1, 5))).map(lambda t: ["tatom", *t]),
            st.tuples(N(0, 9), ids, pick(["<=", "=", "op"]), N(0, 9), st.one_of(st.none(), st.just(0), N(1, 5))).map(lambda t: ["tgatom", *t]),
        ]
    return st.one_of(*s)


@cached
def backend(theory=True, exc=False):
    first = st.lists(st.one_of(st.just(["atom"]), atom_ref().map(lambda t: ["atom", t])), min_size=2, max_size=4)
    choice = st.just([["rule", [1, 2, 3, 4], [], True]])
    more = st.lists(bstm(theory), max_size=8)
    parts = [first, choice, more]
    if exc:
        parts.append(st.lists(exc_op(), max_size=1))
    return st.tuples(*parts).map(lambda t: ["backend", [y for x in t for y in x]])


@cached
def pref():
    return bl()


@cached
def prefs(n=3):
    return st.lists(bl(), max_size=n)


@cached
def init_op():
    return st.one_of(
        pref().map(lambda l: ["watch", l]), pref().map(lambda l: ["watch", l]), pref().map(lambda l: ["watch", l]),
        st.tuples(pref(), N(0, 1)).map(lambda t: ["watch", *t]), pref().map(lambda l: ["unwatch", l]),
        st.tuples(pref(), N(0, 1)).map(lambda t: ["unwatch", *t]),
        pref().map(lambda l: ["freeze", l]), pick(["Off", "Total", "Fixpoint", "Both", "Total", "Both"]).map(lambda m: ["check_mode", m]),
        pick(["Default", "Always"]).map(lambda m: ["undo_mode", m]),
        st.lists(bl(), min_size=1, max_size=3).map(lambda l: ["clause", l]), st.one_of(st.just(["add_literal"]), BOOL.map(lambda b: ["add_literal", b])),
        st.tuples(pref(), bw(), N(-2, 4), pick([0, 0, 1, -1, 2]), BOOL).map(lambda t: ["weight", *t[:2], t[2], t[3], t[4]]),
        st.tuples(pref(), bw(), N(-2, 4)).map(lambda t: ["weight", *t]),
        st.tuples(pref(), N(-2, 3), N(0, 2)).map(lambda t: ["minimize", *t]), st.tuples(pref(), N(1, 3)).map(lambda t: ["minimize", *t]),
        st.just(["propagate"]), st.just(["theory"]), st.just(["assignment"]), st.just(["atoms"]))


@cached
def control_op():
    fl = BOOL
    return st.one_of(
        st.tuples(pick(["clause", "nogood"]), st.lists(bl(), max_size=3), fl, fl).map(list),
        st.tuples(pick(["clause", "nogood"]), st.lists(bl(), min_size=1, max_size=3)).map(list),
        st.tuples(st.lists(bl(), min_size=1, max_size=3), st.dictionaries(pick(["tag", "lock"]), fl, max_size=2)).map(lambda t: ["kwclause", *t]),
        st.just(["propagate"]), st.just(["add_literal"]), pref().map(lambda l: ["watch", l]), pref().map(lambda l: ["has_watch", l]),
        pref().map(lambda l: ["unwatch", l]), st.just(["assignment"]), st.just(["thread"]))


@cached
def prop_strats(exc):
    extra = [exc_op()] if exc else []
    cops = st.lists(st.one_of(control_op(), control_op(), control_op(), *extra), max_size=3)
    dops = st.lists(st.one_of(pref().map(lambda l: ["lit", l]), st.just(["zero"]), st.just(["neg"]), st.just(["assignment"]), *extra),
                    max_size=2)
    return (st.lists(st.lists(st.one_of(init_op(), init_op(), init_op(), init_op(), *extra), max_size=7), min_size=1, max_size=2),
            st.lists(cops, max_size=5), st.lists(cops, max_size=4), st.lists(st.lists(st.just(["assignment"]), max_size=1), max_size=3),
            st.lists(dops, max_size=6))


METHODS = st.one_of(st.just(["init", "propagate", "undo", "check", "decide"]), st.just(["init", "propagate", "undo", "check"]),
                    st.lists(pick(["propagate", "undo", "check", "decide"]), unique=True).map(lambda l: (["init"] if len(l) != 2 else []) + l))


@cached
@st.composite
def propagator(draw, exc=False, name=0):
    s = {"name": name}
    for k, x in zip(["init", "propagate", "check", "undo", "decide"], prop_strats(exc)):
        s[k] = draw(x)
    # the library crashes if minimize constraints are extended in later steps
    s["init"][1:] = [[op for op in x if op[0] != "minimize"] for x in s["init"][1:]]
    return ["propagator", s, draw(METHODS), draw(pick(["derived", "duck"]))]
