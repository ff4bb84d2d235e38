"""C20: configuration and statistics map to the solver's values."""
from bindcommon import *
from bindcommon import _apis
import shutil
import tempfile
import types
import gensess as g
from hypothesis import strategies as st

# ------------------------------------------------------------- configuration

SOLVER_KEYS = ["heuristic", "seed", "rand_freq", "sign_def", "restarts", "deletion", "opt_strategy", "lookahead", "save_progress", "vsids_progress",
               "init_watches", "nope", "dom_mod", "contraction", "loops", "local_restarts"]
PATHS = g.one_of(
    g.pick(g.CONF), g.pick(g.CONF), st.tuples(g.pick([["solver"], ["solver", 0], ["solver", 1], ["solver", 2], ["tester", "solver"], ["tester", "solver", 0], ["solver", 7],
                                                      ["tester", "solver", 1], ["solver", -1]]), g.pick(SOLVER_KEYS)).map(lambda t: t[0] + [t[1]]),
    st.tuples(g.pick(["solve", "asp", "tester", ""]), g.pick(["eq", "trans_ext", "backprop", "models", "project", "opt_bound", "enum_mode", "parallel_mode", "global_restarts",
                                                             "distribute", "integrate", "configuration", "learn_explicit", "share", "sat_prepro", "supp_models"])).map(
        lambda t: ([t[0]] if t[0] else []) + [t[1]]))
VALUES = g.one_of(g.pick(["0", "1", "no", "yes", "auto", "brave", "Vsids", "Berkmin,0", "opt", "optN", "bb,lin", "usc,stratify", "bogus", "", "L,60", "F,100", "all", "dynamic",
                          "2,compete", "show", "3,16", "rnd", "asp", "frumpy", "many", "-1", "5,5", "umax,umax", "0.25", "1.5"]),
                  g.N(-2, 40), st.floats(0, 1, width=16), g.BOOL)
CONF_OP = g.one_of(
    PATHS.map(lambda p: ["conf", p]), PATHS.filter(lambda p: p and isinstance(p[-1], str)).map(lambda p: ["conf_desc", p]),
    st.tuples(PATHS.filter(lambda p: p and isinstance(p[-1], str)), VALUES).map(lambda t: ["conf_set", *t]),
    st.tuples(PATHS.filter(lambda p: p and isinstance(p[-1], str)), VALUES).map(lambda t: ["conf_set", *t]), g.pick(g.CONF_SET).map(lambda t: ["conf_set", *t]),
    st.just(["conf_walk"]))
SOLVE = st.just(["solve", {"mode": "sync", "model": []}])
CONF_OPS = st.lists(CONF_OP, min_size=1, max_size=8)
AGAIN = st.lists(CONF_OP, max_size=4)
CARGS = st.lists(g.pick(["--stats", "--configuration=trendy", "--heuristic=Berkmin", "--seed=3", "-n0", "--enum-mode=brave", "--opt-mode=optN", "-t2", "--rand-freq=0.5", "--sat-prepro=2",
                         "--tester=--heuristic=Vsids"]), max_size=3, unique_by=lambda x: x[:6])


@st.composite
def conf_case(draw):
    ops = draw(CONF_OPS)
    if draw(g.BOOL):
        ops += [["add", "base", [], draw(TEXT)], ["ground", [["base", []]]]] + draw(AGAIN)
    return {"args": draw(CARGS), "ops": ops + [["conf_walk"]]}


TEXT = g.text([g.opt()], 3)


def conf(case, ev):
    t = compare(case, ev, labels=False)
    for a, b in zip(t, t[1:]):
        if a[0] == "op":
            ev.label(f"{a[2]}:{b[0]}:" + ("missing" if b == ["ret", "missing"] else "-"))
    ev.nontrivial(any(a[0] == "op" and a[2] == "conf_set" and b == ["ret", None] for a, b in zip(t, t[1:])))


# ---------------------------------------------------------------- statistics

STEP = g.one_of(g.solve(modes=("sync", "sync", "yield"), clause=False, last=False), st.just(["stats"]), g.ground(), st.just(["stats"]))


@st.composite
def stat_case(draw):
    ops = [["add", "base", [], draw(TEXT) + draw(g.parts())], ["ground", [["base", []]]]]
    for _ in range(draw(g.N(1, 3))):
        ops += [["solve", {"mode": "sync", "stats": draw(g.stats_script()), "assumptions": draw(ASS)}], ["stats"]]
        ops += draw(STEPS)
    return {"args": draw(g.pick([["0"], ["1", "--stats"], ["0", "--stats=2"], ["0", "--stats=2", "-t2"], ["0", "--stats=1,2"]])), "ops": ops}


ASS = g.lists(g.assumption(), 0, 2)
STEPS = st.lists(STEP, max_size=2)


def stat(case, ev):
    """the tree that Python returns is what the C interface returns for the same control

    (two controls cannot be compared: which of its counters the library shows after several reads depends on memory layout)
    """
    import math
    import refclingo as R
    import sess
    from clingo._internal import _ffi
    R.raw()
    seen = []

    def same(x, y, where):
        if type(x) is not type(y) or isinstance(x, float) and not (x == y or math.isnan(x) and math.isnan(y)):
            raise pbt.Violation(f"{where}: {x!r} instead of {y!r}")
        if isinstance(x, dict):
            if list(x) != list(y):
                raise pbt.Violation(f"{where}: keys {list(x)} instead of {list(y)}")
            for k in x:
                same(x[k], y[k], f"{where}.{k}")
        elif isinstance(x, list):
            if len(x) != len(y):
                raise pbt.Violation(f"{where}: {x} instead of {y}")
            for i, (u, v) in enumerate(zip(x, y)):
                same(u, v, f"{where}[{i}]")

    class Session(sess.Session):
        def op_stats(self):
            ctl = R.ffi.cast("clingo_control_t*", int(_ffi.cast("uintptr_t", self.ctl._rep)))

            def read():
                stats = R.V("control_statistics", "clingo_statistics_t const*", ctl)
                return R.stats_dump(stats, R.V("statistics_root", "uint64_t", stats))
            before = read()
            got = self.ctl.statistics
            want = read()
            if str(before) != str(want):
                ev.label("unstable")  # after grounding, the library's counters change from read to read
                return
            same(got, want, "statistics")
            seen.append(got)
    tmp = tempfile.mkdtemp(prefix="sess-")
    try:
        t = Session(_apis[1], case, tmp).run()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for e in t:
        if e[0] == "exc":
            ev.label(f"exc:{e[1]}")
    ev.label(*(k for s in seen for k in s))
    ev.nontrivial(any(k.startswith("user") for s in seen for k in s))


# ---------------------------------------------------- user statistics, model based

KEY = g.one_of(g.pick("abcd"), g.pick("abcd"), g.pick(["a b", "é∀", "A", "0", "long" * 9, "'\""]))
LEAF = g.one_of(g.N(-3, 3), st.floats(allow_nan=False), st.integers(-2**40, 2**40), g.BOOL)
# the type of a path is fixed by its depth and a coin: shapes stay consistent
CALL = g.N(1, 9).map(lambda n: ["call", n])


@g.cached
def val(d):
    leaf = g.one_of(LEAF.map(lambda x: ["v", x]), LEAF.map(lambda x: ["v", x]), CALL)
    if not d:
        return leaf
    sub = st.deferred(lambda: val(d - 1))
    return g.one_of(leaf, st.tuples(st.lists(sub, max_size=3), g.pick(["list", "tuple"])).map(lambda t: ["l", *t]),
                    st.tuples(st.lists(st.tuples(KEY, sub).map(list), max_size=3, unique_by=lambda t: t[0]), g.pick(["dict", "proxy"])).map(lambda t: ["m", *t]))


PATH = st.lists(g.one_of(g.N(0, 5), KEY), max_size=3)
OP = g.one_of(
    st.tuples(st.just("set"), PATH, KEY, val(2)).map(list), st.tuples(st.just("set"), PATH, KEY, val(2)).map(list),
    st.tuples(st.just("setidx"), PATH, g.N(-2, 4), val(1)).map(list),
    st.tuples(st.just("update"), PATH, st.lists(st.tuples(KEY, val(2)).map(list), max_size=3, unique_by=lambda t: t[0]), st.lists(val(1), max_size=3)).map(list),
    st.tuples(g.pick(["append", "extend", "iadd"]), PATH, st.lists(val(1), min_size=1, max_size=3)).map(list),
    st.tuples(st.just("look"), PATH, KEY, g.N(-2, 5)).map(list), st.tuples(g.pick(["del", "insert", "add", "pop"]), PATH).map(list))
SCRIPT = st.lists(st.lists(st.tuples(g.pick([0, 1]), OP).map(list), max_size=10), min_size=1, max_size=3)
MODEL = st.fixed_dictionaries({"steps": SCRIPT, "args": g.pick([[], ["--stats"], ["--stats=2"]])})


class Mismatch(Exception):
    pass


def user_model(case, ev):
    """nested structures written through the mutable interface read back as written"""
    import clingo
    n_written = [0]

    def pyval(v):
        if v[0] == "v":
            return v[1]
        if v[0] == "call":
            return lambda old: v[1] if old is None else old * 2 + v[1]
        if v[0] == "l":
            return (list if v[2] == "list" else tuple)(pyval(x) for x in v[1])
        d = {k: pyval(x) for k, x in v[1]}
        return d if v[2] == "dict" else types.MappingProxyType(d)

    def fresh(v):
        n_written[0] += 1
        return (float(v[1]) if v[0] in ("v", "call") else [fresh(x) for x in v[1]] if v[0] == "l" else {k: fresh(x) for k, x in v[1]})

    def merge(old, v):
        """what assigning v to an existing entry makes of it"""
        if isinstance(old, float):
            if v[0] == "v":
                return float(v[1])
            if v[0] == "call":
                return old * 2 + v[1]
            raise Mismatch
        if isinstance(old, list):
            if v[0] != "l":
                raise Mismatch
            return [merge(o, v[1][i]) if i < len(v[1]) else o for i, o in enumerate(old)] + [fresh(x) for x in v[1][len(old):]]
        if v[0] != "m":
            raise Mismatch
        new = dict(old)
        for k, x in v[1]:
            new[k] = merge(old[k], x) if k in old else fresh(x)
        return new

    def same(real, model, where):
        if isinstance(model, float):
            if type(real) is not float or real != model:
                raise pbt.Violation(f"{where}: {real!r} instead of {model!r}")
        elif isinstance(model, list):
            if len(real) != len(model) or hasattr(real, "keys"):
                raise pbt.Violation(f"{where}: {list(real)!r} instead of {model!r}")
            for i, (a, b) in enumerate(zip(real, model)):
                same(a, b, f"{where}[{i}]")
                same(real[i], b, f"{where}[{i}]")
        else:
            keys = list(real.keys())
            if sorted(keys) != sorted(model) or len(real) != len(model) or list(real) != keys or [k for k, _ in real.items()] != keys or len(list(real.values())) != len(keys):
                raise pbt.Violation(f"{where}: keys {keys} instead of {sorted(model)}")
            for (k, a), b in zip(list(real.items()), list(real.values())):
                same(a, model[k], f"{where}.{k}")
                same(b, model[k], f"{where}.{k}")
                same(real[k], model[k], f"{where}.{k}")
                if k not in real:
                    raise pbt.Violation(f"{where}: {k} not contained")

    models = [{}, {}]
    failure = []

    def walk(root, model, path):
        for p in path:
            if isinstance(model, list) and model:
                i = (p if isinstance(p, int) else len(p)) % len(model)
                root, model = root[i], model[i]
            elif isinstance(model, dict) and model:
                k = sorted(model)[(p if isinstance(p, int) else ord(p[0])) % len(model)]
                root, model = root[k], model[k]
            if isinstance(model, float):
                return None
        return root, model

    def raises(what, excs, f):
        try:
            f()
        except excs:
            return
        raise pbt.Violation(f"{what} does not raise {excs}")

    def one(root, op):
        k, path = op[0], op[1]
        at = walk(root[0], root[1], path)
        if at is None:
            return
        real, model = at
        ismap = isinstance(model, dict)
        try:
            if k == "set" and ismap:
                new = merge(model[op[2]], op[3]) if op[2] in model else fresh(op[3])
                real[op[2]] = pyval(op[3])
                model[op[2]] = new
            elif k == "setidx" and not ismap:
                i = op[2]
                if i < 0 or i >= len(model):
                    raises("assignment out of bounds", (IndexError, RuntimeError, OverflowError), lambda: real.__setitem__(i if i >= 0 else -i + len(model), pyval(op[3])))
                else:
                    new = merge(model[i], op[3])
                    real[i] = pyval(op[3])
                    model[i] = new
            elif k == "update" and ismap:
                new = merge(model, ["m", op[2]])
                real.update({n: pyval(v) for n, v in op[2]})
                model.update(new)
            elif k == "update":
                new = merge(model, ["l", op[3]])
                real.update([pyval(v) for v in op[3]])
                model[:] = new
            elif k in ("append", "extend", "iadd") and not ismap:
                new = [fresh(v) for v in op[2]]
                if k == "append":
                    for v in op[2]:
                        real.append(pyval(v))
                elif k == "extend":
                    real.extend(pyval(v) for v in op[2])
                else:
                    before = real
                    real += [pyval(v) for v in op[2]]
                    if real is not before:
                        raise pbt.Violation("+= made a new object")
                model += new
            elif k == "look":
                key, i = op[2:]
                if ismap:
                    if (key in real) != (key in model) or 1 in real or None in real:
                        raise pbt.Violation(f"containment of {key}")
                    if key not in model:
                        raises("lookup of a missing key", KeyError, lambda: real[key])
                        if real.get(key, "dflt") != "dflt":
                            raise pbt.Violation("get")
                elif i >= len(model):
                    raises("index out of bounds", IndexError, lambda: real[i])
            elif k == "del":
                raises("del", NotImplementedError, lambda: real.__delitem__(next(iter(model), "a") if ismap else 0))
            elif k == "insert" and not ismap:
                raises("insert", NotImplementedError, lambda: real.insert(0, 1.0))
            elif k == "add" and not ismap:
                raises("+", NotImplementedError, lambda: real + [1.0])
        except Mismatch:
            ev.label("mismatch")
            return
        ev.label("op:" + k)

    ctl = clingo.Control(["-Wnone", *case["args"]], lambda c, m: None)
    ctl.add("base", [], "{a; b}.")
    ctl.ground([("base", [])])
    for step in case["steps"]:
        called = []

        def on_statistics(stp, accu):
            # an exception must not leave this function: the library would end the process
            try:
                called.append(1)
                if len(stp):
                    models[0] = json_copy(dump(stp))
                same(accu, models[1], "accu")
                for w, op in step:
                    one(((stp, models[0]), (accu, models[1]))[w], op)
                    same(stp, models[0], "step")
                    same(accu, models[1], "accu")
            except BaseException as e:  # noqa: B902
                failure.append(e)
        models[0] = {}
        ctl.solve(on_statistics=on_statistics)
        if failure:
            raise failure[0]
        if len(called) != 1:
            raise pbt.Violation(f"on_statistics called {len(called)} times")
        s = ctl.statistics
        for name, m in zip(("user_step", "user_accu"), models):
            got = s.get(name, {})
            if got != m:
                raise pbt.Violation(f"{name}: {got} instead of {m}")
    ev.nontrivial(n_written[0] > 3)


def dump(x):
    if isinstance(x, float):
        return x
    return {k: dump(v) for k, v in x.items()} if hasattr(x, "items") else [dump(v) for v in x]


def json_copy(x):
    return x


TECHNIQUE = "stateful property-based testing: configuration paths and assignments against the raw C interface, solver statistics against the raw C interface, user statistics against nested dicts and lists"
LEVEL_NOTE = "Random search over configuration reads and writes (followed by a walk over the whole configuration), solve histories with statistics, and update sequences on user statistics."
CHECK = pbt.Check(
    "C20",
    [pbt.Part("configuration", conf_case(), conf, quick=1200, thorough=20000),
     pbt.Part("statistics", stat_case(), stat, quick=2000, thorough=30000),
     pbt.Part("user", MODEL, user_model, quick=6000, thorough=120000)],
    rule="non-trivial: an option was successfully assigned / user statistics were present / more than three values were written",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
