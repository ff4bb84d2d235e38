"""C34: exceptions and error codes of C++ code cross the C interface without loss."""
from cppcommon import *
import tempfile
import shutil
import appl
import c22
import gensess as g
from hypothesis import strategies as st

# ---------------------------------------------------------------- exceptions
KINDS = ["runtime_error", "range_error", "logic_error", "out_of_range", "bad_alloc", "UserError", "PlainError", "int", "string", "python"]
PROP = ["init", "propagate", "check", "decide"]
OBS = ["begin_step", "rule", "minimize", "external", "output_atom", "end_step"]

SPEC = st.one_of(
    st.tuples(st.just("call"), g.N(0, 3), g.pick(KINDS)),
    st.tuples(st.just("model"), g.N(0, 4), g.pick(KINDS)),
    st.tuples(st.just("loop"), g.N(0, 4), g.pick(KINDS)),
    st.tuples(g.pick(PROP), g.N(0, 3), g.pick(KINDS)),
    st.tuples(g.pick(OBS), g.N(0, 3), g.pick(KINDS)),
    st.tuples(g.pick(["backend", "builder", "parse", "visit", "transform"]), g.N(0, 3), g.pick(KINDS)),
    st.tuples(st.just("logger"), g.N(0, 2), g.pick(KINDS)))
OP = g.one_of(
    st.tuples(st.just("ground"), g.N(0, 5)),
    st.tuples(st.just("solve"), g.N(0, 4)),
    st.tuples(st.just("solve"), g.N(0, 4)),
    st.tuples(st.just("more"), g.N(0, 1)),
    st.tuples(st.just("assign"), g.N(0, 2)),
    st.tuples(st.just("backend"), g.N(0, 3)),
    st.tuples(st.just("twice"), g.N(0, 3)),
    st.tuples(st.just("builder"), g.N(0, 3)),
    st.tuples(st.just("parse"), g.N(0, 3)),
    st.tuples(st.just("tree"), g.N(0, 3)),
    st.tuples(st.just("log"), g.N(0, 2)),
    st.tuples(st.just("bad"), g.N(0, 9)))
ERRORS = st.fixed_dictionaries({
    "ops": g.lists(st.tuples(OP, g.one_of(st.none(), SPEC, SPEC)), 2, 8),
    "sites": g.lists(g.pick(PROP), 0, 4, unique=True), "obs": g.BOOL, "alt": g.N(0, 11), "args": g.pick([["0"], ["0"], ["0", "--opt-mode=ignore"]]),
    "seq": g.pick([None, True, False])})


class Boom(Exception):
    pass


class Thrower:
    """throws an exception at the n-th call of a callback"""

    def __init__(self, m):
        self.m, self.spec, self.left, self.want = m, None, 0, []

    def arm(self, spec, n):
        self.spec, self.left, self.want, self.n = spec, spec[1] if spec else 0, [], n

    def __call__(self, site):
        if self.spec is None or self.spec[0] != site:
            return
        self.left -= 1
        if self.left >= 0:
            return
        kind = self.spec[2]
        msg = f"{site} {self.n} fails äß"
        if kind == "python":
            e = Boom(msg, self.n)
            self.want.append(("python", e, 0))
            raise e
        e = self.m.CppError(msg)
        e.kind, e.msg, e.payload = kind, msg, 1000 + self.n
        self.want.append((kind, {"bad_alloc": "std::bad_alloc", "int": ""}.get(kind, msg), e.payload if kind in ("UserError", "int") else 0))
        raise e


def errors(case, ev):
    m = mod()
    t = Thrower(m)
    log = []

    def logger(code, name, msg):
        log.append((code, msg))
        t("logger")
    ctl = m.Control(case["args"], logger, 1000, case["alt"])
    try:
        drive(case, ev, m, t, log, ctl)
    finally:
        t.arm(None, 0)
        ctl.free()
    e = m.take_error()
    if e:
        bad("failed in a destructor: " + e, case)


def bad(msg, case):
    raise pbt.Violation(f"{msg}\n{json.dumps(case)[:3000]}")


def drive(case, ev, m, t, log, ctl):
    k = [case["alt"]]

    def alt():
        k[0] += 1
        return k[0]

    methods = {}

    def init(_, i):
        for a in i.symbolic_atoms.list(None, alt()):
            i.add_watch(i.solver_literal(a[1]))
        t("init")

    def propagate(_, c, ch):
        t("propagate")

    def check(_, c):
        t("check")

    def decide(_, th, a, f):
        t("decide")
        return f
    for s in case["sites"]:
        methods[s] = {"init": init, "propagate": propagate, "check": check, "decide": decide}[s]
    if "propagate" in methods and "init" not in methods:
        methods["init"] = init
    if methods:
        def undo(_, th, a, ch):
            pass
        methods["undo"] = undo
        ctl.register_propagator(type("P", (), methods)(), "decide" in methods, case["seq"])
    if case["obs"]:
        ctl.register_observer(lambda n, a: t(n), OBS, None)
    ctl.add("base", [], "{a; b}. #external e. #minimize{1@2,t:a,b}.")
    ctl.add("gi", [], "pi(@f(1)). pi(@f(2)). pi(@g(1,2)).")
    ctl.add("more", ["t"], "{c(t)}. #external x(t). c(t) :- x(t), a. :- c(t).")
    t.arm(None, 0)
    ctl.ground([("base", [])], None)
    state = {"step": 0}
    count = 0
    for n, (op, spec) in enumerate(case["ops"]):
        name, v = op
        if spec is not None and spec[0] in ("propagate", "check", "decide", "init") and spec[0] not in methods:
            spec = None
        if spec is not None and spec[0] in OBS and not case["obs"]:
            spec = None
        t.arm(spec, n)
        result, got = None, None
        try:
            result = OPS[name](m, ctl, t, v, alt, state, log)
        except m.CppError as e:
            got = (e.kind, str(e), e.payload)
        except Boom as e:
            got = ("python", e, 0)
        want = t.want
        if spec is not None and spec[0] == "logger":
            # the interface has no way to report these
            count += len(want)
            if got is None and result is not True:
                bad(f"operation {n} {op}: {result}", case)
            if got is not None and got[:2] not in [("runtime_error", x) for x in ("parsing failed", "grounding stopped because of errors")]:
                bad(f"operation {n} {op}: {got} although only the logger failed", case)
            if got is not None and name != "log":
                bad(f"operation {n} {op}: {got} although only the logger failed", case)
            continue
        if want:
            count += 1
            ev.label(f"{spec[0]}:{spec[2]}")
            if got is None:
                bad(f"operation {n} {op}: the exception {want[0]} got lost", case)
            if not any(w[0] == got[0] and (w[1] is got[1] if w[0] == "python" else w[1:] == got[1:]) for w in want[:1]):
                bad(f"operation {n} {op}: {got} instead of {want}", case)
            if name == "solve" and v % 5 in (1, 2):
                break  # the library does not stop searches in this mode
        elif name in ("bad", "log"):
            if result is not True:
                bad(f"operation {n} {op}: {got} {result}", case)
        elif got is not None:
            bad(f"operation {n} {op}: raised {got}", case)
        elif result is not True:
            bad(f"operation {n} {op}: {result}", case)
    ev.nontrivial(count > 0)


def o_ground(m, ctl, t, v, alt, state, log):
    def call(loc, name, args):
        t("call")
        return [[m.Number(state["step"])]]
    ctl.ground([("gi", [])] * (1 + v % 2), call)
    return True


def o_more(m, ctl, t, v, alt, state, log):
    state["step"] += 1
    ctl.ground([("more", [m.Number(state["step"])])], None)
    return True


def names(mod):
    return sorted(str(s) for s in mod.symbols(2) if s.name in ("a", "b"))


def o_solve(m, ctl, t, v, alt, state, log):
    seen = []

    class H:
        def on_model(self, mod):
            seen.append(tuple(names(mod)))
            t("model")
            return True

    def loop(mod):
        t("loop")
        return True
    r = m.solve_native(ctl, H(), loop, v)
    if not seen:
        return f"no models {r}"
    if v % 5 in (0, 3) and "opt" not in state and r is not None and not r[1]:
        return f"result {r}"
    return True


def o_assign(m, ctl, t, v, alt, state, log):
    ctl.assign_sym(m.Function("e", [], True, 0), [True, False, None][v])
    return True


def o_backend(m, ctl, t, v, alt, state, log):
    state["step"] += 1

    def body(b):
        a = b.add_atom(m.Function("bk", [m.Number(state["step"])], True, 0))
        b.rule(True, [a], [])
        t("backend")
        if v > 1:
            c = b.add_atom(None)
            b.rule(False, [c], [a])
            t("backend")
    ctl.with_backend(body)
    return True


def o_twice(m, ctl, t, v, alt, state, log):
    """the body of the backend handles exceptions itself"""
    state["step"] += 1
    caught = []

    def body(b):
        a = [b.add_atom(m.Function("bk", [m.Number(state["step"]), m.Number(i)], True, 0)) for i in range(v)]
        for x in a:
            try:
                b.rule(True, [x], [])
            except m.CppError as e:
                caught.append((e.kind, str(e), e.payload))
            except Boom as e:
                caught.append(("python", e, 0))
    ctl.with_backend(body)
    want, t.want = t.want, []
    return caught == want or f"caught {caught} instead of {want}"


def o_builder(m, ctl, t, v, alt, state, log):
    trees = []
    m.parse_string(f"z({v}). {{y({v})}}.", lambda n: trees.append(n), None, None, 20, alt())

    def body(b):
        for x in trees:
            b.add(x)
            t("builder")
    m.with_builder(ctl, body)
    return True


def o_parse(m, ctl, t, v, alt, state, log):
    n = [0]

    def cb(x):
        n[0] += 1
        t("parse")
    m.parse_string(f"z({v}). {{y({v})}}. w :- z(X), not y(X).", cb, None, None, 20, alt())
    return n[0] == 4 or n


def o_tree(m, ctl, t, v, alt, state, log):
    trees = []
    m.parse_string("w(X,Y) :- z(X+Y), not y(X), Z = #sum{Q:r(Q)}.", trees.append, None, None, 20, alt())
    n = [0]

    def visit(*a):
        n[0] += 1
        t("visit")
        return True

    def trans(x):
        n[0] += 1
        t("transform")
        return x
    x = trees[-1]
    x.visit_ast(visit, alt()) if v % 2 else x.transform_ast(trans, alt())
    return n[0] >= 1 or n


def o_log(m, ctl, t, v, alt, state, log):
    log.clear()
    if v == 0:
        state["step"] += 1
        ctl.add("log", ["t"], "lg(1/0,t). lg(t+u,t).")
        ctl.ground([("log", [m.Number(state["step"])])], None)
        return len(log) >= 1 or f"{log}"
    calls = []

    def l(code, name, msg):
        calls.append(msg)
        t("logger")
    try:
        m.parse_term("1+(", l, 10)
        return "no error"
    except m.CppError as e:
        ok = e.kind == "runtime_error" and (str(e) == "parsing failed" and any("syntax error" in c for c in calls) or "syntax error" in str(e))
        return ok or f"{e.kind} {e} {calls}"


BAD = {
    0: (lambda m, c: m.parse_term("p(", lambda *a: None, 20), None, None),
    1: (lambda m, c: m.Control([], None, 20, 0).load("/nonexistent/file.lp"), None, None),
    2: (lambda m, c: m.Number(1).name, None, None),
    3: (lambda m, c: m.String("a").number, None, None),
    4: (lambda m, c: c.configuration.sub("unknown"), None, None),
    5: (lambda m, c: c.configuration.set("configuration", "nonsense"), None, None),
    6: (lambda m, c: m.Control(["--unknown-option"], None, 20, 0), None, None),
    7: (lambda m, c: m.Infimum().arguments, None, None),
    8: (lambda m, c: m.parse_string("a :-", lambda x: None, None, lambda *a: None, 20, 0), "runtime_error", "syntax error"),
    9: (lambda m, c: c.statistics, None, None),
}
ECODE = {1: "runtime_error", 2: "logic_error", 3: "bad_alloc", 4: "runtime_error"}


def o_bad(m, ctl, t, v, alt, state, log):
    import refclingo as rc
    f, kind, msg = BAD[v]
    try:
        f(m, ctl)
    except m.CppError as e:
        code = rc.lib.clingo_error_code()
        p = rc.lib.clingo_error_message()
        text = "std::bad_alloc" if code == 3 else "no message" if p == rc.ffi.NULL else rc.s(p)
        if (e.kind, str(e)) != (ECODE[code], text):
            return f"{e.kind} {e} instead of {code} {text}"
        if kind is not None and (e.kind, str(e)) != (kind, msg):
            return f"{e.kind} {e} instead of {kind} {msg}"
        return True
    return v == 9 or "no error"


OPS = {"ground": o_ground, "more": o_more, "solve": o_solve, "assign": o_assign, "backend": o_backend, "twice": o_twice, "builder": o_builder, "parse": o_parse,
       "tree": o_tree, "log": o_log, "bad": o_bad}


# ---------------------------------------------------------------- applications
@st.composite
def app_case(draw):
    c = draw(c22.case_())
    c["kind"] = draw(g.pick(sorted(appl.KINDS)))
    c["alt"] = draw(g.N(0, 11))
    c["register"] = draw(g.pick([None] * 30 + ["raise"]))
    c["main"] = c["main"] or [["load"], ["ground", [["base", []]]], ["solve"]]
    if c["print"] is not None:
        c["print"] = [o for o in c["print"] if o[0] not in ("raise", "extend")]
    return c


def app_run(case, ev):
    d = tempfile.mkdtemp(prefix="vpc34")
    try:
        for i, t in enumerate(case["files"]):
            with open(os.path.join(d, f"file{i}.lp"), "w") as f:
                f.write(t)
        spec = dict(case, args=[f"file{a[1]}.lp" if a.startswith("@") else a for a in case["args"]])
        ref = appl.child(lambda t: appl.cxx_ref_app(spec, t), stdin=case["stdin"], cwd=d)
        got = appl.child(lambda t: appl.cxx_app(spec, t, os.environ["VP_CPP"]), stdin=case["stdin"], cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    names = ("exit status", "standard output", "standard error", "trace")
    for n, r, x in zip(names, ref, got):
        if n.startswith("standard"):
            r, x = appl.clean(r), appl.clean(x)
        if r != x:
            raise pbt.Violation(f"{n} differs\n C interface: {r}\n C++:         {x}\n{json.dumps(case)}\n{ref}\n{got}"[:6000])
    ev.label(f"exit {ref[0]}", *{e[0] for e in ref[3]})
    ev.nontrivial(len({e[0] for e in ref[3]}) > 2)


def init():
    init_cpp()
    appl.warm()


TECHNIQUE = ("property-based testing: generated histories on one control in which callbacks of all kinds throw C++ exceptions of generated types at "
             "generated calls; the exception that leaves the library call must be the thrown one and later operations work; generated C++ "
             "applications against the raw C interface in forked processes")
LEVEL_NOTE = "Random search over histories of up to 8 operations and over applications; undo callbacks and event handlers other than on_model cannot report errors."
CHECK = pbt.Check(
    "C34",
    [pbt.Part("errors", ERRORS, errors, quick=3000, thorough=60000),
     pbt.Part("applications", app_case(), app_run, quick=1600, thorough=40000)],
    rule="histories on one control with throwing callbacks, applications; non-trivial: an exception was thrown, at least three kinds of callbacks were called",
    build=build_cpp, init=init,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
