"""C03: text output and intermediate output describe the same program."""
from common import *
import re
import aspif, genasp, gensess as g, rawc, refasp
from c02 import M
from hypothesis import strategies as st


class D(M):
    """directives with bodies"""

    def condlit(self, preds, bound):
        # conditional literals with undecided conditions are printed in an extended notation
        self.features.add("cond-literal")
        c, b2 = self.conj(genasp.DOMS, bound, genasp.LV, 1, 0)
        k = self.i(0, 4)
        return ["cond", ["pos" if k <= 2 else "not" if k == 3 else "nnot", self.negatom(preds, b2)], c]

    def directive(self):
        preds = self.o["preds"] + self.chosen * 3
        name, n = self.pick(preds)
        b, bound = self.body(preds + genasp.DOMS, maxpos=2, aggs=self.chance(1, 6))
        B = "; ".join(refasp.lstr(l) for l in b)
        t = lambda: refasp.tstr(self.useterm(bound, grow=self.chance(1, 3)))
        sep = " : " + B if B else ""
        k = self.i(0, 11)
        self.features.add(["show-all", "show-sig", "show-term", "show-term", "show-term", "external", "external", "edge", "edge", "project", "heuristic", "show-atom"][k])
        if k == 0:
            return "#show."
        if k == 1:
            return f"#show {self.pick(['', '', '-'])}{name}/{n}."
        if k <= 4:
            return f"#show {self.pick([t(), f'p({t()})', f't({t()},{t()})'])}{sep}."
        if k <= 6:
            # no recursion through externals
            a = ("e" if b or self.chance(1, 2) else name, n)
            args = [t() for _ in range(n)]
            return f"#external {a[0]}{'(' + ','.join(args) + ')' if args else ''}{sep}.{self.ext}"
        if k <= 8:
            return f"#edge ({t()},{t()}){sep}."
        if k == 9:
            return f"#project {name}/{n}." if self.chance(1, 3) else f"#project {name}{'(' + ','.join(t() for _ in range(n)) + ')' if n else ''}{sep}."
        if k == 10:
            return f"#heuristic {name}{'(' + ','.join(t() for _ in range(n)) + ')' if n else ''}{sep}. [{self.i(-2, 3)}@{self.i(0, 2)},{self.pick(['true', 'false', 'sign', 'factor', 'init', 'level'])}]"
        # an atom depending on externals
        return f"w :- e. v :- not e. #external e.{self.ext}" if self.chance(1, 2) else f"#show w : a. #defined w/0. w :- not b."


@st.composite
def programs(draw, max_rules=4):
    m = D(draw, dict(preds=list(genasp.PREDS)))
    m.ext = m.pick(["", "[true]", "[free]", "[false]"])     # the order of conflicting declarations is not kept
    ch = m.choices() + m.choices()
    m.chosen = [(e[0][1], len(e[0][2])) for r in ch for e in r["h"][2]]
    rules = m.facts() + ch
    for _ in range(draw(g.N(0, max_rules))):
        r = m.rule()
        if r["h"][0] == "disj":
            # like conditional literals in bodies
            r["h"][1] = [e for e in r["h"][1] if not e[1]] or [[[True, "b", []], []]]
        rules.append(r)
    tuples = []
    for _ in range(draw(g.N(0, 2))):
        rules.append(m.min_(tuples))
    for _ in range(draw(g.N(0, 4))):
        rules.append({"raw": m.directive()})
    order = draw(st.permutations(range(len(rules))))
    return {"rules": [rules[i] for i in order], "features": sorted(m.features)}


def summary(steps, project=False):
    """multiset of (shown, costs, heuristics that apply, projected atoms)"""
    s = aspif.Solver()
    try:
        for x in steps:
            s.add(x)
        models = s.solve(2000)
        if len(models) >= 2000:
            raise pbt.Discard
        s.outputs = [x for x in s.outputs if not x[0].startswith("proj_p_")]
        names = {}
        for txt, c in s.outputs:
            if len(c) == 1 and c[0] > 0:
                names.setdefault(c[0], set()).add(txt)
        heu = [x for step in steps for x in step if x[0] == "heuristic"]
        out = []
        for m in models:
            h = sorted({(x[1], tuple(sorted(names.get(x[2], ()))), x[3], x[4]) for x in heu if aspif.holds(m, x[5])})
            out.append((sorted(aspif.shown(m, s.outputs)), sorted((p, v) for p, v in aspif.costs(m, s.mins).items() if v), h))
        # atoms with the same value in all answer sets may be dropped
        proj = sorted({n for x in s.projects for a in x for n in names.get(a, ()) if len({a in m for m in models}) == 2})
        return sorted(out), proj
    finally:
        s.free()


DELAYED = re.compile(r"#delayed\((\d+)\)(,?)")


def inline(text):
    """the text output names aggregates, disjunctions and conditional literals #delayed(n) and lists them at the end"""
    defs, lines = {}, []
    for l in text.split("\n"):
        m = re.match(r"#delayed\((\d+)\) <=> (.*)$", l)
        if m:
            defs[m.group(1)] = m.group(2)
        else:
            lines.append(l)
    # projections of atoms to some arguments have internal names
    lines = [re.sub(r"#(p(?=[,)])|b(?=\())", r"proj_\1", re.sub(r"#p_(?=\w+\()", "proj_p_", l)) for l in lines]

    def sub(m):
        if m.group(1) not in defs:
            raise pbt.Violation(f"undefined {m.group(0)} in text output\n{text}")
        # a conditional literal has to be separated by a semicolon
        return DELAYED.sub(sub, defs[m.group(1)]) + m.group(2).replace(",", ";")
    defs = {k: re.sub(r"#(p(?=[,)])|b(?=\())", r"proj_\1", re.sub(r"#p_(?=\w+\()", "proj_p_", l)) for k, l in defs.items()}
    defs = {k: re.sub(r":-", ": -", l) if not l.rstrip().endswith("}") and "{" not in l else l for k, l in defs.items()}
    return "\n".join(DELAYED.sub(sub, l) for l in lines)


def colons(text):
    """a condition starting with a classically negated atom is printed without the space needed to tell it from ':-' (known finding)"""
    out = []
    for l in text.split("\n"):
        if l.startswith(("#show", "#external", "#heuristic", "#edge", "#project")):
            l = l.replace(":-", ": -")
        depth, r = 0, []
        for i, c in enumerate(l):
            depth += (c == "{") - (c == "}")
            r.append(c)
            if depth and c == ":" and l[i + 1:i + 2] == "-":
                r.append(" ")
        out.append("".join(r))
    return "\n".join(out)


def run(case, ev):
    txt = genasp.text(case)
    try:
        out, _ = ground(txt, ["--warn=none"])
    except rawc.ClingoError as e:
        raise pbt.Violation(f"program rejected: {e} {e.msgs}\n{txt}")
    text, _ = ground(txt, ["--warn=none", "--text"])
    text = inline(text)
    fixed = colons(text)
    try:
        again, _ = ground(fixed, ["--warn=none"])
    except rawc.ClingoError as e:
        raise pbt.Violation(f"text output cannot be grounded: {e} {e.msgs}\n{txt}\n--- text output\n{text}")
    a, b = summary(aspif.parse(out)), summary(aspif.parse(again))
    if a != b:
        diff = [(x, y) for x, y in zip(a[0], b[0]) if x != y][:3]
        raise pbt.Violation(f"text and intermediate output differ\n{txt}\n--- text output\n{text}\n--- intermediate / text: {len(a[0])} / {len(b[0])} models, {diff}\n  projections {a[1]} / {b[1]}")
    if fixed != text:
        raise pbt.Violation(f"the text output writes ':' directly before '-', which reads as ':-'\n{txt}\n--- text output\n{text}", sig="colon-minus")
    ev.label(*case["features"])
    ev.nontrivial(len(a[0]) > 1)


TECHNIQUE = "property-based testing: differential comparison of the two output paths on random programs (solved by the installed clasp)"
LEVEL_NOTE = "Random search over structured programs with directives; answer sets, costs, active heuristics and projections of both outputs must agree."

CHECK = pbt.Check(
    "C03",
    [pbt.Part("outputs", programs(), run, quick=6000, thorough=120000, sample=genasp.text)],
    rule="random safe programs with all literal, head and aggregate kinds, optimisation statements and #show/#external/#edge/#project/"
         "#heuristic directives; non-trivial: at least two answer sets",
    build=build_engine,
    assumptions=["aspif output is solved by the installed clasp"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
