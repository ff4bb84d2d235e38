"""C23: External functions and embedded scripts are called faithfully."""
from bindcommon import *
from bindcommon import _apis
import re
import shutil
import subprocess
import tempfile
import types
import appl
import gensess as g
import scripts
from hypothesis import strategies as st

SYM = g.tree()
ARGS = g.lists(SYM, 0, 4)
FN = g.pick(["f", "f", "g", "h", "undef", "f_1", "fB"])
DEFN = g.pick(["f", "f", "g", "g", "h", "f_1", "fB"])
BEH = g.one_of(SYM.map(lambda t: ["const", t]), g.lists(SYM, 0, 4).map(lambda l: ["many", l]), g.lists(SYM, 0, 4).map(lambda l: ["many", l]), st.just(["args"]), st.just(["rev"]),
               g.pick(["w", "_w", "w'"]).map(lambda n: ["wrap", n]), st.just(["nargs"]), st.just(["sum"]), g.N(0, 4).map(lambda i: ["arg", i]),
               st.just(["type"]), g.pick("xy").map(lambda v: ["var", v]))
STM = g.one_of(st.tuples(st.just("fact"), FN, ARGS).map(list), st.tuples(st.just("fact"), FN, ARGS).map(list),
               st.tuples(st.just("vars"), FN, g.N(1, 4), g.lists(SYM, 0, 2)).map(list), st.tuples(st.just("nest"), FN, FN, g.lists(SYM, 0, 2)).map(list),
               st.tuples(st.just("two"), FN, FN, ARGS).map(list), st.tuples(st.just("body"), FN, ARGS, SYM).map(list))
STEP = st.tuples(st.just("step"), FN, g.lists(SYM, 0, 2)).map(list)
DEF = st.one_of(st.tuples(st.just("fun"), DEFN, BEH, g.N(0, 5)).map(list), st.tuples(st.just("fun"), DEFN, BEH, g.N(0, 5)).map(list),
                st.tuples(st.just("set"), g.pick("xy"), SYM).map(list))
PARTS = st.lists(g.one_of(st.just(["base", []]), g.N(1, 3).map(lambda i: ["step", [["n", i]]])), min_size=1, max_size=2, unique_by=str)


def numeric(case):
    """names must be parsable; the smallest number is out of the engine's range in comparisons; the sum of numbers must stay in the range of the numbers"""
    case = json.loads(json.dumps(case).replace('"_\'"', '"_b\'"').replace("-2147483648", "-2147483647"))

    def small(t):
        return ["n", t[1] % 1000] if t[0] == "n" and abs(t[1]) > 1000 else ["f", t[1], [small(x) for x in t[2]], t[3]] if t[0] == "f" else t

    def walk(x):
        if isinstance(x, list) and x and x[0] in ("n", "f") and (x[0] == "n" and len(x) == 2 or len(x) == 4 and isinstance(x[3], bool)):
            return small(x)
        if isinstance(x, list):
            return [walk(y) for y in x]
        return {k: walk(v) for k, v in x.items()} if isinstance(x, dict) else x
    return walk(case) if '"sum"' in json.dumps(case) else case


def text_of(case):
    """the programs and the position of their scripts"""
    sym = (lambda t: str(_apis[0].mk(t)))
    files, where = [], []
    seen = set()
    out, line = "#const k=f(1).\n", 2
    for i, it in enumerate(case["items"]):
        if it == "file":
            files.append(out)
            out, line = "", 1
            continue
        if isinstance(it, dict):
            c = scripts.code(it, (it["lang"], len(files)) not in seen)
            seen.add((it["lang"], len(files)))
            x = "#script (" + it["lang"] + ")\n" + c + "\n#end.\n"
            where.append((len(files), line, it["lang"], c))
        else:
            x = scripts.statement(i, it, sym) + "\n"
        out += x
        line += x.count("\n")
    if case.get("lifo"):
        where.sort(key=lambda w: (-w[0], w[1]))
    return files + [out], where


MAINOP = g.one_of(st.just(["solve"]), st.just(["solve"]), PARTS.map(lambda p: ["ground", p]), g.pick(["k", "nok"]).map(lambda c: ["const", c]),
                  g.pick(["p(1).", "p(2). p(3).", "q(X) :- p(X)."]).map(lambda t: ["add", t]), g.pick("xy").map(lambda v: ["global", v]))
MAIN = g.one_of(st.just([["ground", [["base", []]]], ["solve"]]), PARTS.map(lambda p: [["ground", p], ["solve"]]), g.lists(MAINOP, 1, 5))


@st.composite
def program(draw, langs):
    items = []
    for _ in range(draw(g.N(1, 3))):
        items.append({"lang": draw(st.sampled_from(langs)), "defs": draw(st.lists(DEF, min_size=1, max_size=3))})
    items += draw(st.lists(STM, min_size=1, max_size=4)) + draw(st.lists(STEP, max_size=1))
    items = [items[i] for i in draw(st.permutations(range(len(items))))]
    if draw(g.N(0, 2)) == 0:
        items.insert(draw(g.N(1, len(items))), "file")
    if draw(g.BOOL):
        blocks = [x for x in items if isinstance(x, dict)]
        for _ in range(draw(g.pick([1, 1, 2]))):
            draw(st.sampled_from(blocks))["defs"].append(["main", draw(MAIN)])
    return items


def clean_main(ops):
    """parts are grounded at most once; added text is ground with the next base"""
    seen, out = set(), []
    for op in ops:
        if op[0] == "ground":
            parts = [p for p in op[1] if str(p) not in seen]
            seen.update(map(str, parts))
            if parts:
                out.append(["ground", parts])
        elif op[0] == "add":
            if str(["base", []]) not in seen:
                out.append(op)
        else:
            out.append(op)
    return out


def expected(case, ops):
    """the observations of a main function"""
    m = scripts.Model(dict(case, items=case["items"]))
    out, atoms, added = [], [], []
    for op in ops:
        k = op[0]
        if k == "ground":
            atoms += m.atoms(op[1])
            if ["base", []] in op[1]:
                for t in added:
                    atoms += {"p(1).": [["f", "p", [["n", 1]], True]], "p(2). p(3).": [["f", "p", [["n", i]], True] for i in (2, 3)], "q(X) :- p(X).": []}[t]
                if "q(X) :- p(X)." in added:
                    atoms += [["f", "q", a[2], True] for a in atoms if a[1] == "p"]
                added = []
        elif k == "add":
            added.append(op[1])
        elif k == "solve":
            out.append(["solve", "SAT", sorted({str(_apis[0].mk(a)) for a in atoms})])
        elif k == "const":
            out.append(["const", "f(1)" if op[1] == "k" else "None"])
        elif k == "global":
            v = m.main().vars.get(op[1])
            out.append(["global", "None" if v is None else str(_apis[0].mk(v))])
    return m, out


@st.composite
def script_case(draw, langs):
    langs = draw(st.permutations(langs)) if "lua" not in langs else langs
    items = draw(program(langs))
    for it in items:
        if isinstance(it, dict):
            it["defs"] = [["main", clean_main(d[1])] if d[0] == "main" else d for d in it["defs"]]
    return numeric({"langs": list(langs), "items": items})


def fail(case, what, want, got, more=""):
    raise pbt.Violation(f"{what}\n expected: {want}\n got:      {got}\n{more}\n{json.dumps(case)}"[:6000])


# ---------------------------------------------------------------- the executable with embedded Python and Lua
def run_app(case, ev):
    # files given on the command line are read in reverse order
    case = dict(case, lifo=True)
    files, where = text_of(case)
    d = tempfile.mkdtemp(prefix="vpc23")
    try:
        for i, t in enumerate(files):
            with open(os.path.join(d, f"f{i}.lp"), "w") as f:
                f.write(t)
        m = scripts.Model(case)
        main = m.main()
        args = ["--outf=3"] if main else ["--text"]
        r = subprocess.run([os.environ["VP_CLINGO"], *args, *(f"f{i}.lp" for i in range(len(files)))], cwd=d, capture_output=True, timeout=60,
                           env=dict(os.environ, PYTHONPATH=str(__import__("vbuild").REPO / "libpyclingo"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out, err = r.stdout.decode(errors="backslashreplace"), r.stderr.decode(errors="backslashreplace")
    if main is None:
        want = sorted({str(_apis[0].mk(a)) + "." for a in m.atoms([["base", []]])})
        got = sorted(x for x in out.splitlines() if x)
        if got != want or r.returncode:
            fail(case, "grounding", want, got, f"exit {r.returncode}\n{err}\n{out}")
    else:
        m, want = expected(case, main.main)
        got, cur, ok = [], [], False
        for x in out.splitlines():
            if x.startswith("MAIN "):
                ok = x == "MAIN " + main.name and not got
            elif x == "SOLVE":
                cur = []
            elif x.startswith("M "):
                cur.append(x[2:])
            elif x.startswith("R "):
                got.append(["solve", x[2:], sorted(cur)])
            elif x.startswith("C "):
                got.append(["const", x[2:]])
            elif x.startswith("G "):
                got.append(["global", x[2:]])
        if not ok or got != want:
            fail(case, "main function", want, got, f"exit {r.returncode}\n{err}\n{out}")
        ev.label("main " + main.name)
    messages(case, m, err)
    label(case, m, ev)


def messages(case, m, err):
    got = set(re.findall("function '([^']*'*)' not found", err))
    if not m.undefined <= got <= m.undefined | m.may_undefined or not got and "info" in err:
        fail(case, "messages", m.undefined, err)


def same_calls(case, want, may, got):
    """the calls without repetitions"""
    want, may, got = ({json.dumps(x) for x in l} for l in (want, may, got))
    if not want <= got <= want | may:
        fail(case, "calls", sorted(want), sorted(got))


def label(case, m, ev):
    ev.label(*(b for _, n, _ in m.calls for b in {x[2][0] for it in case["items"] if isinstance(it, dict) for x in it["defs"] if x[0] == "fun" and x[1] == n}))
    ev.label(*("call " + x for x, _, _ in m.calls))
    if m.undefined:
        ev.label("undefined function")
    ev.nontrivial(len({(x, n) for x, n, _ in m.calls}) > 1)


# ---------------------------------------------------------------- Python's scripts and registered scripts
def run_scripts(case, ev):
    if os.environ.get("VP_REF_ONLY"):
        return
    if scripts.Model(case).main() is not None:
        case = dict(case, lifo=True)
    files, where = text_of(case)
    d = tempfile.mkdtemp(prefix="vpc23")
    m = scripts.Model(case)
    main = m.main()

    def child(trace):
        import clingo
        import clingo.script
        import sess
        mod = sys.modules["__main__"]
        for k in list(vars(mod)):
            if k in ("f", "g", "h", "f_1", "fB", "undef", "main", "v_x", "v_y"):
                delattr(mod, k)
        mk = sess.PyApi().mk
        for x in case["langs"]:
            if x == "python":
                clingo.script.enable_python()
            else:
                clingo.script.register_script(x, scripts.custom(x, trace, clingo.script.Script, mk, scripts.tree), "1.2.3")
        names = [f"f{i}.lp" for i in range(len(files))]
        if main is not None:
            return clingo.clingo_main(type("A", (clingo.Application,), {"message_limit": 1000})(), ["--outf=3", *names])
        ctl = clingo.Control(message_limit=1000)
        for n in names:
            ctl.load(n)
        for parts in ([["base", []]], [["step", [["n", 2]]]]):
            ctl.ground([(n, [mk(t) for t in a]) for n, a in parts])
            trace("atoms", [str(a.symbol) for a in ctl.symbolic_atoms])
        return 0
    try:
        for i, t in enumerate(files):
            with open(os.path.join(d, f"f{i}.lp"), "w") as f:
                f.write(t)
        st_, out, err, tr = appl.child(child, cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    more = f"{st_}\n{out}\n{err}\n{tr}"
    if main is None:
        if st_ != 0:
            fail(case, "exit status", 0, st_, more)
        atoms = []
        for parts, e in zip(([["base", []]], [["step", [["n", 2]]]]), [e for e in tr if e[0] == "atoms"]):
            atoms += m.atoms(parts)
            want = sorted({str(_apis[0].mk(a)) for a in atoms})
            if sorted(e[1]) != want:
                fail(case, f"grounding {parts}", want, sorted(e[1]), more)
    else:
        m, want = expected(case, main.main)
        got = []
        if main.name != "python":
            if [e[1] for e in tr if e[0] == "main"] != [main.name]:
                fail(case, "main function called", main.name, [e for e in tr if e[0] == "main"], more)
            for e in tr:
                if e[0] == "solve":
                    got.append(["solve", e[1], sorted(sum(e[2], []))])
                elif e[0] in ("const", "global"):
                    got.append([e[0], e[1]])
        else:
            cur = []
            for x in out.splitlines():
                if x == "SOLVE":
                    cur = []
                elif x.startswith("M "):
                    cur.append(x[2:])
                elif x.startswith("R "):
                    got.append(["solve", x[2:], sorted(cur)])
                elif x[:2] in ("C ", "G "):
                    got.append([{"C": "const", "G": "global"}[x[0]], x[2:]])
        if got != want:
            fail(case, "main function", want, got, more)
        ev.label("main")
    want = [[x, f"f{f}.lp", l, 1, "\n" + c + "\n"] for f, l, x, c in where if x != "python"]
    got = [e[1:] for e in tr if e[0] == "execute"]
    if got != want:
        fail(case, "executed scripts", want, got, more)
    same_calls(case, [c for c in m.calls if c[0] != "python"], m.may_calls, [e[1:4] for e in tr if e[0] == "call"])
    messages(case, m, err)
    label(case, m, ev)


# ---------------------------------------------------------------- context objects
KINDS = ["method", "instance", "static", "classmethod", "getattr", "module", "class", "falsy", "falsyseq", "slots", "property", "callable", "namespace", "partial"]


@st.composite
def context_case(draw):
    fs = draw(st.lists(st.tuples(st.just("fun"), DEFN, BEH.filter(lambda b: b[0] != "var"), g.N(0, 5)).map(list), min_size=1, max_size=3, unique_by=lambda x: x[1]))
    # a context lacking a function is an error
    names = [f[1] for f in fs]
    items = [["undef" if x == "undef" else names[len(x) % len(names)] if i in (1,) or i == 2 and it[0] in ("nest", "two") else x for i, x in enumerate(it)]
             for it in draw(st.lists(STM, min_size=1, max_size=5)) + draw(st.lists(STEP, max_size=1))]
    items = [[names[0] if x == "undef" else x for x in it] for it in items]
    return numeric({"langs": ["ctx"], "kind": draw(g.pick(KINDS)), "form": draw(g.N(0, 5)), "items": [{"lang": "ctx", "defs": fs}] + items,
                    "missing": draw(g.N(0, 6)) == 0})


def build_context(kind, funs):
    import functools
    if kind in ("method", "falsy", "falsyseq", "slots"):
        ns = {n: (lambda f: lambda self, *a: f(*a))(f) for n, f in funs.items()}
        ns.update({"falsy": {"__bool__": lambda self: False}, "falsyseq": {"__len__": lambda self: 0}, "slots": {"__slots__": ()}, "method": {}}[kind])
        return type("Ctx", (), ns)()
    if kind == "instance":
        o = type("Ctx", (), {})()
        for n, f in funs.items():
            setattr(o, n, f)
        return o
    if kind in ("static", "class"):
        c = type("Ctx", (), {n: staticmethod(f) for n, f in funs.items()})
        return c if kind == "class" else c()
    if kind == "classmethod":
        return type("Ctx", (), {n: classmethod((lambda f: lambda cls, *a: f(*a))(f)) for n, f in funs.items()})()
    if kind == "getattr":
        def get(self, name):
            if name not in funs:
                raise AttributeError(f"no function {name}")
            return funs[name]
        return type("Ctx", (), {"__getattr__": get})()
    if kind == "module":
        m = types.ModuleType("ctx")
        vars(m).update(funs)
        return m
    if kind == "property":
        return type("Ctx", (), {n: property((lambda f: lambda self: f)(f)) for n, f in funs.items()})()
    if kind == "namespace":
        return types.SimpleNamespace(**funs)
    if kind == "partial":
        return types.SimpleNamespace(**{n: functools.partial(f) for n, f in funs.items()})
    return types.SimpleNamespace(**{n: type("F", (), {"__call__": (lambda f: lambda self, *a: f(*a))(f)})() for n, f in funs.items()})


def run_context(case, ev):
    if os.environ.get("VP_REF_ONLY"):
        return
    import clingo
    m = scripts.Model(case)
    lang = m.langs[0]
    mk = _apis[1].mk
    calls = []

    def function(n, b):
        def f(*args):
            if any(type(a) is not clingo.Symbol for a in args):
                raise pbt.Violation(f"arguments {args}")
            a = [scripts.tree(x) for x in args]
            calls.append(["ctx", n, a])
            ret = [mk(t) for t in scripts.apply(lang, b, a)]
            if b[0] in ("const", "wrap", "nargs", "sum"):
                return ret[0]
            return [list, tuple, iter, dict.fromkeys, lambda x: (y for y in x), lambda x: (x * 2 if x else [])][case["form"]](ret)
        return f
    funs = {n: function(n, b) for n, b in lang.funs.items()}
    ctx = build_context(case["kind"], funs)
    ctl = clingo.Control(message_limit=0)
    items = case["items"] + ([["fact", "missing", []]] if case["missing"] else [])
    for i, s in enumerate(items[1:], 1):
        ctl.add("base", [], scripts.statement(i, s, lambda t: str(mk(t))))
    atoms = []
    for parts in ([["step", [["n", 3]]]], [["base", []]]):
        try:
            ctl.ground([(n, [mk(t) for t in a]) for n, a in parts], ctx)
        except AttributeError as e:
            if case["missing"] and "missing" in str(e):
                ev.label("missing function")
                return
            raise
        atoms += m.atoms(parts)
        want = sorted({str(mk(a)) for a in atoms})
        got = sorted(str(a.symbol) for a in ctl.symbolic_atoms)
        if got != want:
            fail(case, f"atoms of {parts}", want, got, str(calls))
    if case["missing"]:
        fail(case, "missing function", "AttributeError", "nothing")
    same_calls(case, m.calls, m.may_calls, calls)
    ev.label(case["kind"])
    label(case, m, ev)


def build():
    import vbuild
    return dict(build_py(), VP_CLINGO=str(vbuild.clingo_app()))


def init():
    init_py()
    import clingo.script
    appl.warm()


TECHNIQUE = ("property-based testing (model-based): generated functions are compiled to Python, Lua, context objects and a registered script language; "
             "the atoms, calls, arguments, executed code and results of main functions are compared with a model that evaluates the same description")
LEVEL_NOTE = "Random search over programs, functions and scripts; functions return constants, pools, arguments, and state of other scripts."
CHECK = pbt.Check(
    "C23",
    [pbt.Part("context", context_case(), run_context, quick=4000, thorough=80000),
     pbt.Part("scripts", script_case(["python", "s1", "s2"]), run_scripts, quick=1500, thorough=30000),
     pbt.Part("executable", script_case(["python", "lua"]), run_app, quick=1000, thorough=20000)],
    rule="programs with up to five statements calling up to three functions; non-trivial: at least two functions were called",
    build=build, init=init,
    assumptions=["the installed libclingo 5.6.2 executes the C calls", "grounding may call a function with the same arguments any number of times"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
