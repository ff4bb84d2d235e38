"""C22: Python applications see their options, files, models and messages correctly."""
from bindcommon import *
import appl
import gensess as g
from hypothesis import strategies as st

TEXTS = ["a. b :- a.", "{a;b}. #show a/0.", "{a(1..n)}. #const n=2. #minimize{X:a(X)}.", "x :- y. {c}.", "#show 1:{c}. {c}.", ":- not z(1). {z(1..2)}.",
         "p(1/0). p(q+1). {a}. w :- v.", "a. :- a.", "", "{d;e;f}. #project d/0. #show d/0.", "#program p(k). q(k). #program base. {r}.",
         "{a;b;c}. :- a, b. #maximize{1@2,a:a; 2@1,b:b}.", "#external e. h :- e. {i}.", "syntax error"]
NAMES = [None, None, "app", "my-app 2", "prögram", ""]
VERS = [None, None, "1.2.3", "α", ""]
GROUPS = ["Group A", "Group B", "Clingo.Example Options", "Basic Options"]


@st.composite
def option(draw, i):
    long_ = ["alpha", "beta-opt", "gamma", "delta"][i]
    spec = long_ + draw(g.pick(["", "", ",%s" % "xyuw"[i], ",@2", ",%s,@1" % "xyuw"[i]]))
    o = {"kind": draw(g.pick(["opt", "opt", "flag"])), "group": draw(g.pick(GROUPS)), "spec": spec,
         "desc": draw(g.pick(["some option", "", "a\nb", "description of %A option", "größe {x}"]))}
    if o["kind"] == "flag":
        o["init"] = draw(g.pick([None, False, True]))
    else:
        o.update(multi=draw(g.BOOL), arg=draw(g.pick([None, "<n>", "NUM", "<mode>"])), accept=draw(g.pick(["all", "all", "all", "short", "short", "digit", "digit"] * 2 + ["none", "raise"])))
    return o


VALUE = g.pick(["1", "22", "abc", "", "x=y", "a b", "-1", "ü", "yes", "no", "1", "7"])


@st.composite
def uses(draw, options):
    """command line arguments that use the options"""
    ret, used = [], []
    for _ in range(draw(g.N(0, 4))):
        rest = [o for o in options if o not in used or o["kind"] == "opt" and o["multi"]] if draw(g.N(0, 5)) else options
        if not rest:
            break
        o = draw(st.sampled_from(rest))
        used.append(o)
        bad = draw(g.N(0, 7)) == 0
        names = o["spec"].split(",")
        long_ = names[0]
        short = names[1] if len(names) > 1 and not names[1].startswith("@") else None
        form = draw(g.pick([0, 0, 1, 1, 2, 2, 3, 3, 4]))
        if o["kind"] == "flag":
            ret.append([["--" + long_], ["--" + long_], ["--" + long_ + "=" + draw(VALUE)] if bad else ["--" + long_], ["-" + short] if short else ["--" + long_],
                        ["--no-" + long_] if bad else ["--" + long_]][form])
        else:
            v = draw(VALUE) if bad or o["accept"] == "all" else draw(g.pick(["1", "22", "7"]))
            ret.append([["--" + long_ + "=" + v], ["--" + long_, v], ["-" + short, v] if short else ["--" + long_[:3] + "=" + v],
                        ["-" + short + v] if short else ["--" + long_ + "=" + v], ["--" + long_] if bad else ["--" + long_ + "=" + v]][form])
    return ret


STD = [["0"], ["1"], ["2"], ["--stats"], ["-q"], ["--outf=2"], ["--outf=1"], ["--outf=3"], ["-c", "n=3"], ["--const", "m=f(x)"], ["--text"], ["--help"], ["-h"],
       ["--help=2"], ["--help=3"], ["--version"], ["--verbose=0"], ["--unknown"], ["--mode=gringo"], ["--mode=gringo", "--output=text"], ["--opt-mode=optN"], ["-Wnone"],
       ["--output-debug=text"], ["-V0"], ["--enum-mode=brave"], ["--project"], ["--quiet=1,1,1"], ["--mode=clasp"], ["--seed=4"]]


@st.composite
def case_(draw):
    nopt = draw(g.N(0, 4))
    options = [draw(option(i)) for i in range(nopt)]
    args = list(draw(uses(options))) if options else []
    uniq = (lambda a: "models" if a[0].isdigit() else a[0].split("=")[0]) if draw(g.N(0, 9)) else (lambda a: object())
    args += draw(st.lists(st.sampled_from(STD[:5] * 9 + STD[8:10] * 9 + STD), max_size=4, unique_by=uniq))
    files = draw(st.lists(g.N(0, 2), max_size=3))
    args += [["@%d" % i] for i in files] + ([["-"]] if draw(g.N(0, 9)) == 0 else []) + ([["@9"]] if draw(g.N(0, 19)) == 0 else [])
    perm = draw(st.permutations(range(len(args))))
    args = [x for i in perm for x in args[i]]
    main = None
    if draw(g.N(0, 3)):
        k = draw(g.N(0, 5))
        main = draw(st.lists(MAINOP, max_size=5)) if k == 0 else [["load"], ["ground", [["base", []]]]] + draw(st.lists(MAINOP, max_size=3)) + [["solve"]]
    return {"options": draw(g.pick([None, "x"])) and options if not options else options, "args": args,
            "argv": draw(g.pick(["sys", "list", "list"])), "style": draw(g.pick(["class", "class", "instance", "duck"])),
            "program_name": draw(g.pick(NAMES)), "version": draw(g.pick(VERS)), "message_limit": draw(g.pick([None, None, 0, 1, 2, 7])),
            "logger": draw(g.BOOL), "validate": draw(g.pick([None, None, True, True, True, False, "flags", "flags", "raise"])), "main": main,
            "print": None if main is None else draw(PRINT),  # the library crashes if there is a printer but no main function
            "files": [draw(g.pick(TEXTS)) for _ in range(3)], "stdin": draw(g.pick(TEXTS))}


MAINOP = g.pick([["load"], ["ground", [["base", []]]], ["solve"], ["const", "n"], ["const", "k"], ["add", "{extra(1..2)}."], ["add", "bad"], ["text", "hello"],
                 ["raise"], ["ground", [["p", [["n", 3]]]]], ["ground", [["base", []], ["p", [["f", "g", [["n", 1]], True]]]]], ["add", "u :- undefined_atom."]])
PRINT = g.pick([None, None, [["print"]], [["text", "before\n"], ["print"], ["text", "after\n"]], [["text", "only text\n"]], [],
                [["extend", [["f", "ext", [["n", 1]], True], ["s", "str"]]], ["print"]], [["print"], ["print"]], [["text", "m:"], ["raise"]],
                [["extend", [["n", 5]]], ["text", "x"], ["print"], ["extend", [["n", 6]]], ["print"]]])


def run(case, ev):
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix="vpc22")
    try:
        for i, t in enumerate(case["files"]):
            with open(os.path.join(d, f"file{i}.lp"), "w") as f:
                f.write(t)
        spec = dict(case, args=[f"file{a[1]}.lp" if a.startswith("@") else a for a in case["args"]])
        ref = appl.child(lambda t: appl.ref_app(spec, t), stdin=case["stdin"], cwd=d)
        if os.environ.get("VP_REF_ONLY"):
            return
        got = appl.child(lambda t: appl.py_app(spec, t), stdin=case["stdin"], cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    names = ("exit status", "standard output", "standard error", "trace")
    for n, r, x in zip(names, ref, got):
        if n == "standard error" and ("Traceback" in r or "Traceback" in x):
            r, x = "Traceback" in r, "Traceback" in x
        elif n.startswith("standard"):
            r, x = appl.clean(r), appl.clean(x)
        if r != x:
            raise pbt.Violation(f"{n} differs\\n C interface: {r}\\n Python:      {x}\\n{json.dumps(case)}\\n{ref}\\n{got}".replace("\\n", "\n")[:6000])
    ev.label(f"exit {ref[0]}", *{e[0] for e in ref[3]})
    ev.nontrivial(len({e[0] for e in ref[3]}) > 2)


def init():
    init_py()
    appl.warm()


TECHNIQUE = ("property-based testing: generated applications (options, flags, validation, main functions, model printers, loggers) with generated "
             "command lines, run through clingo_main from Python and from a reference on the raw C interface in forked processes; "
             "callback traces, exit status and output must be equal")
LEVEL_NOTE = "Random search over applications and command lines; outputs are compared up to times."
CHECK = pbt.Check(
    "C22",
    [pbt.Part("applications", case_(), run, quick=4000, thorough=60000)],
    rule="applications with 0-4 options used on command lines with up to 12 arguments; non-trivial: at least three kinds of callbacks were called",
    build=build_py, init=init,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
