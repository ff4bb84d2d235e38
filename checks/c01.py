"""C01: the emitted ground program has exactly the answer sets of the input program."""
from common import *
import aspif, genasp, rawc, refasp
from hypothesis import strategies as st


def installed_models(txt):
    raw, ffi = rawc.installed(), rawc.installed().ffi
    with raw.control(["0", "--warn=none"]) as c:
        c.add("base", [], txt)
        c.ground()
        h = raw.v("clingo_control_solve", "clingo_solve_handle_t*", c.ctl, raw.lib.clingo_solve_mode_yield, ffi.NULL, 0,
                  ffi.NULL, ffi.NULL)
        ms = []
        try:
            while len(ms) < 2000:
                raw.f("clingo_solve_handle_resume", h)
                m = raw.v("clingo_solve_handle_model", "clingo_model_t const*", h)
                if m == ffi.NULL:
                    break
                n = raw.v("clingo_model_symbols_size", "size_t", m, 2)
                a = ffi.new("clingo_symbol_t[]", n)
                raw.f("clingo_model_symbols", m, 2, a, n)
                ms.append(frozenset(raw.sym_str(a[i]) for i in range(n)))
        finally:
            raw.f("clingo_solve_handle_close", h)
    return ms


def run(case, ev):
    txt = genasp.text(case)
    try:
        out, _ = ground(txt, ["--warn=none"])
    except rawc.ClingoError as e:
        raise pbt.Violation(f"safe program rejected: {e} {e.msgs}\n{txt}")
    try:
        steps = aspif.parse(out)
    except aspif.FormatError as e:
        raise pbt.Violation(f"malformed output: {e}\n{txt}\n{out}")
    got = sorted(map(sorted, aspif.answer_sets(steps)))
    if len(got) >= 2000:
        raise pbt.Discard
    oracle = "reference semantics"
    try:
        g = refasp.Grounder(case["rules"])
        want = sorted(sorted(map(refasp.ga_str, x)) for x in refasp.stable_models(g.run()))
    except refasp.TooBig:
        if "head-aggregate" in case["features"]:
            # the installed release miscounts negative weights in #sum+ heads
            raise pbt.Discard
        oracle = "installed clingo 5.6.2"
        ev.label("oracle:installed")
        want = sorted(map(sorted, installed_models(txt)))
    if got != want:
        extra = [m for m in got if m not in want]
        missing = [m for m in want if m not in got]
        raise pbt.Violation(f"answer sets differ from {oracle}\n{txt}\n  wrong: {extra[:5]}\n  missing: {missing[:5]}"
                            + (f"\n  multiplicities: {len(got)} models, {len(want)} expected" if not extra and not missing else ""))
    ev.label(*case["features"])
    ev.label("models:" + ("0" if not got else "1" if len(got) == 1 else "2+"))
    ev.nontrivial(len(got) > 1)


TECHNIQUE = "property-based testing: random programs, reference instantiation and answer set enumeration as oracle"
LEVEL_NOTE = "Random search over structured programs; every case is decided exactly against an independent reference semantics."

CHECK = pbt.Check(
    "C01",
    [pbt.Part("programs", genasp.programs(), run, quick=9000, thorough=160000, sample=genasp.text),
     pbt.Part("larger", genasp.programs(max_rules=9), run, quick=2500, thorough=60000, sample=genasp.text)],
    rule="random safe programs (facts, choices, 1-9 further rules with all literal/head/aggregate kinds); non-trivial: "
         "at least two answer sets. Oracle: reference instantiation and here-and-there enumeration; where the universe is "
         "too big for it, the installed clingo 5.6.2.",
    build=build_engine,
    assumptions=["aspif output is solved by the installed clasp", "reference semantics in lib/refasp.py",
                 "absent third-party headers are replaced by /verif/shim"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
