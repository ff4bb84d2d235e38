"""C02: optimisation statements keep their exact costs."""
from common import *
import aspif, genasp, gensess as g, rawc, refasp
from hypothesis import strategies as st


def clean(d):
    return {p: v for p, v in d.items() if v}


def run(case, ev):
    txt = genasp.text(case)
    try:
        out, _ = ground(txt, ["--warn=none"])
    except rawc.ClingoError as e:
        raise pbt.Violation(f"safe program rejected: {e} {e.msgs}\n{txt}")
    steps = aspif.parse(out)
    try:
        gr = refasp.Grounder(case["rules"])
        rules = gr.run()
        mins = refasp.min_tuples(case["rules"], gr)
        models = refasp.stable_models(rules)
    except refasp.TooBig:
        raise pbt.Discard
    key = lambda m, c: (sorted(m), sorted(c.items()))
    want = sorted(key(map(refasp.ga_str, T), clean(refasp.cost(T, mins))) for T in models)
    got = sorted(key(m, clean(c)) for m, c in aspif.answer_sets(steps, with_costs=True))
    if [m for m, _ in got] != [m for m, _ in want]:
        raise pbt.Violation(f"answer sets differ with optimisation statements\n{txt}\n got {got[:5]}\n want {want[:5]}")
    if got != want:
        bad = [(x, y) for x, y in zip(got, want) if x != y]
        raise pbt.Violation(f"costs differ\n{txt}\n  (emitted, reference): {bad[:3]}")
    # a priority with statements must appear even if all its tuples vanish; every emitted priority must be declared
    declared = {p for p, _, _ in mins}
    emitted = {s[1] for step in steps for s in step if s[0] == "min"}
    if emitted - declared:
        raise pbt.Violation(f"undeclared priorities {emitted - declared}\n{txt}")
    ev.label(*{r["kind"] for r in case["rules"] if "min" in r}, f"prios:{len(declared)}")
    dup = sum(1 for v in mins.values() if len(v) > 1)
    ev.label("merged-tuples" if dup else "distinct-tuples")
    ev.nontrivial(len({tuple(c) for _, c in want}) > 1)


class M(genasp.G):
    """optimisation statements that share tuples"""

    def min_(self, tuples):
        preds = self.o["preds"] + genasp.DOMS + self.chosen * 5
        b, bound = self.body(preds, maxpos=2, aggs=self.chance(1, 5))
        kind = "weak" if any(l[0] in ("agg", "set", "cond") for l in b) else self.pick(["weak", "minimize", "maximize", "weak", "minimize"])
        if tuples and self.chance(1, 3):
            w, p, ts = self.pick(tuples)
            bad = [x for t in [w] + ([p] if p else []) + ts for x in refasp.tvars(t) if x not in bound]
            if not bad:
                return {"min": [[w, p, ts], b], "kind": kind, "perm": self.perm(b)}
        k = self.i(0, 5)
        w = ["n", self.i(-2, 3)] if k <= 2 or not bound else self.arith(bound) if k == 3 else self.useterm(bound, grow=True)
        p = None if self.chance(1, 3) else ["n", self.i(-1, 2)] if not bound or self.chance(3, 4) else self.useterm(bound)
        ts = [self.useterm(bound, grow=self.chance(1, 4)) for _ in range(self.i(0, 2))]
        tuples.append([w, p, ts])
        return {"min": [[w, p, ts], b], "kind": kind, "perm": self.perm(b)}

    def perm(self, b):
        return list(self.draw(st.permutations(range(len(b))))) if len(b) > 1 else list(range(len(b)))


@st.composite
def programs(draw, max_rules=2):
    m = M(draw, dict(preds=list(genasp.PREDS)))
    ch = m.choices() + m.choices()
    m.chosen = [(e[0][1], len(e[0][2])) for r in ch for e in r["h"][2]]
    rules = m.facts() + ch
    for _ in range(draw(st.integers(0, max_rules))):
        rules.append(m.rule())
    tuples = []
    for _ in range(draw(st.integers(1, 5))):
        rules.append(m.min_(tuples))
    order = draw(st.permutations(range(len(rules))))
    return {"rules": [rules[i] for i in order], "features": sorted(m.features)}


TECHNIQUE = "property-based testing: random optimisation programs, reference instantiation of tuple sets and costs as oracle"
LEVEL_NOTE = "Random search over structured programs; the cost of every answer set at every priority is compared with an independent reference."

CHECK = pbt.Check(
    "C02",
    [pbt.Part("costs", programs(), run, quick=9000, thorough=150000, sample=genasp.text)],
    rule="random safe programs with 1-5 #minimize/#maximize/weak constraints whose tuples overlap; non-trivial: two answer sets "
         "with different costs. Programs whose universe is too big for the reference are discarded.",
    build=build_engine,
    assumptions=["aspif output is solved by the installed clasp", "reference semantics in lib/refasp.py"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
