"""C18: Python exceptions surface, unchanged, at the call that triggered them."""
from bindcommon import *
import gensess as g
import sess
from hypothesis import strategies as st

EXTRA = [g.opt(), g.theory_stm(), g.warn(), g.calls()]
TEXT = g.text(EXTRA, 3)
BAD = g.pick([["add", "base", [], "p(X) :- q."], ["add", "base", [], "p :-"], ["add", "base", [], "p. :- @nofun(1) = 2."], ["loadmissing"],
              ["add", "base", [], "r(1"], ["parse_term", "f(X"], ["parse_term", "p q"], ["parse_term", "f(1/0)"], ["parse_term", "f(1)"],
              ["conf", ["nope"]], ["conf_set", ["solve", "opt_mode"], "bogus"], ["assign", 0, True], ["assign", 1000, True], ["fail", 1],
              ["conf_set", ["nope"], 1], ["load", "p. q :- ."], ["load", "l(1..2)."], ["remove_minimize"], ["project", "add", [1]],
              ["load_aspif", ["x.aspif"]], ["ground", [["nopart", []]]], ["ground", [["base", [["n", 1]]]]],
              ["ground", [["base", []]], {}]])
SOLVE = g.one_of(g.solve(modes=("sync", "yield"), exc=True), g.solve(modes=("sync", "yield"), exc=True), g.solve(modes=("async",), exc=True))
PSOLVE = g.solve(modes=("sync", "sync", "async"), exc=True, last=False)
RAISE = g.one_of(st.none(), g.pick(sess.EXC_KINDS))


@st.composite
def session(draw):
    ops = []
    if draw(g.N(0, 3)) == 0:
        ops.append(draw(g.observe(exc=True)))
    solve, stop = SOLVE, False
    if draw(g.N(0, 2)) == 0:
        p = draw(g.propagator(exc=True))
        # the library terminates the process if propagators raise while a handle is closed or the last model is tested,
        # and crashes in later steps if propagators add minimize constraints
        p[1]["init"] = [[i for i in x if i[0] != "minimize"] for x in p[1]["init"]]
        ops.append(p)
        solve, stop = PSOLVE, True
    if draw(g.N(0, 3)) == 0:
        ops.append(draw(BAD))
    ops.append(["add", "base", [], g.THEORY + draw(TEXT) + (draw(g.parts()) if draw(g.BOOL) else "")])
    ops.append(["ground", [["base", []]], draw(g.ground_ctx(exc=True))])
    for _ in range(draw(g.N(1, 4))):
        k = draw(g.N(0, 7))
        if k < 3:
            s = draw(solve)
            if stop and s[1]["mode"] == "async":
                s[1]["hops"] = [["get"], ["get"]]
            r = draw(RAISE)
            if s[1]["mode"] == "yield" and r is not None:
                i = draw(g.N(0, len(s[1]["hops"])))
                s[1]["hops"] = s[1]["hops"][:i] + [["body_raise", r]] + s[1]["hops"][i:]
            if s[1]["mode"] == "yield":
                # exceptions during wait terminate the process inside the library
                s[1]["hops"] = [h for h in s[1]["hops"] if h[0] != "wait"]
            ops.append(s)
        elif k < 6:
            ops.append(draw(BAD))
        elif k == 6:
            ops.append(draw(g.backend(exc=True)))
        else:
            ops.append(draw(g.one_of(g.ground(exc=True, ctx=True), g.ext_op(), st.just(["cleanup"]))))
    ops.append(["solve", {"mode": "sync", "model": [], "assumptions": []}])
    return {"args": draw(g.args()), "ops": ops, "logger": True, "stop": stop}


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "throw") > 0 or count(t, "exc") > 0)


@st.composite
def parse_case(draw):
    return {"stms": draw(g.lists(g.one_of(g.stm(), g.opt(), g.show()), 1, 5)), "at": draw(st.one_of(st.none(), g.N(0, 6))), "exc": draw(g.pick(sess.EXC_KINDS)),
            "how": draw(g.pick(["string", "file", "builder", "transform", "transform"])), "bad": draw(g.pick([None, None, "p :-", "q(", "p(X", "\"", "r :- not. s."])),
            "again": draw(g.BOOL)}


PARSE = parse_case()


def parse(case, ev):
    """exceptions in callbacks for statements"""
    import clingo
    import tempfile
    from clingo import ast
    text = "\n".join(case["stms"]) + "\n"
    plain = []
    ast.parse_string(text, plain.append)
    bad = case["bad"]
    msgs, seen = [], []
    thrown = sess.make_exc(case["exc"])
    n = [0]

    def cb(x):
        i = n[0]
        n[0] += 1
        if i == case["at"]:
            raise thrown
        seen.append(x)

    class T(ast.Transformer):
        def visit_SymbolicTerm(self, x):
            cb(x)
            return x

        visit_Function = visit_Variable = visit_SymbolicTerm
    logger = lambda c, m: msgs.append((c.name, m))  # noqa: E731

    def go(full):
        if case["how"] == "string":
            ast.parse_string(full, cb, logger=logger)
        elif case["how"] == "file":
            with tempfile.NamedTemporaryFile("w", suffix=".lp") as f:
                f.write(full)
                f.flush()
                ast.parse_files([f.name], cb, logger=logger)
        elif case["how"] == "builder":
            c = clingo.Control([], logger)
            with ast.ProgramBuilder(c) as b:
                def both(x):
                    cb(x)
                    b.add(x)
                ast.parse_string(full, both, logger=logger)
        else:
            t = T()

            def tr(x):
                if str(t(x)) != str(x):
                    raise pbt.Violation(f"identity transformer changed {x}")
            ast.parse_string(full, tr, logger=logger)
    for rnd in range(2 if case["again"] else 1):
        n[0] = 0
        msgs.clear()
        seen.clear()
        got = None
        try:
            go(text + (bad or ""))
        except pbt.Violation:
            raise
        except BaseException as e:
            got = e
        fires = case["at"] is not None and n[0] > case["at"]
        if case["how"] in ("string", "file", "builder"):
            # program base comes first
            if not bad and fires != (case["at"] is not None and case["at"] < len(plain)):
                raise pbt.Violation(f"callback {case['at']} of {len(plain)} ran: {fires}\n{json.dumps(case)}")
            if [str(x) for x in seen] [:len(plain)] != [str(x) for x in plain[:len(seen)]]:
                raise pbt.Violation("callbacks in wrong order")
        if fires:
            if got is not thrown:
                raise pbt.Violation(f"callback raised {thrown!r}, the call ended with {got!r}\n{json.dumps(case)}")
        elif bad:
            if type(got) is not RuntimeError or "syntax error" not in str(got) and "error" not in str(got):
                raise pbt.Violation(f"syntax error surfaced as {got!r}\n{json.dumps(case)}")
            if not msgs or not any("error" in m for _, m in msgs):
                raise pbt.Violation(f"no message for a syntax error: {msgs}\n{json.dumps(case)}")
        elif got is not None:
            raise pbt.Violation(f"unexpected {got!r}\n{json.dumps(case)}")
        ev.label("fires" if fires else "bad" if bad else "fine", case["how"])
        ev.nontrivial(fires or bad)


TECHNIQUE = "property-based testing: generated histories with exceptions injected at every callback and library errors, compared with a reference binding on the raw C interface"
LEVEL_NOTE = "Random search over histories; the exception object that leaves each call must be the very object raised."
CHECK = pbt.Check(
    "C18",
    [pbt.Part("sessions", session(), run, quick=9000, thorough=200000),
     pbt.Part("parse", PARSE, parse, quick=3000, thorough=40000)],
    rule="histories in which callbacks raise one of 10 exception shapes at a generated invocation; non-trivial: an exception was raised or a "
         "library error occurred",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls; functions it lacks are supplied by bind/compat58.c",
                 "exceptions in on_statistics, on_finish and on_unsat callbacks terminate the process inside the library and are not generated"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
