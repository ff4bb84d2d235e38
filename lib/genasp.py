"""Hypothesis strategies for logic programs (JSON-able structure of refasp.py)."""
import pbt  # noqa: F401  (puts hypothesis on the path)
from hypothesis import strategies as st

import refasp

DOMS = [("dom", 1), ("edge", 2)]                    # facts only
PREDS = [("a", 0), ("b", 0), ("c", 0), ("p", 1), ("q", 1), ("r", 1), ("s", 2)]
GV = ["X", "Y", "Z"]
LV = ["A", "B"]


class G:
    """one drawing context; wraps draw"""

    def __init__(self, draw, opts):
        self.draw = draw
        self.o = opts
        self.features = set()

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def chance(self, k, n):
        """true k times out of n; false is the simple choice"""
        return self.draw(st.integers(0, n - 1)) >= n - k

    def pick(self, xs):
        return xs[self.draw(st.integers(0, len(xs) - 1))]

    # ---- terms
    def const(self):
        k = self.i(0, 9)
        if k <= 5:
            return ["n", self.i(1, 3)]
        if k == 6:
            return ["n", self.i(-2, 4)]
        if k == 7:
            return ["c", self.pick(["x", "y"])]
        if k == 8:
            return self.pick([["s", "x"], ["f", "f", [["n", 1]]], ["t", [["n", 1], ["c", "x"]]], ["f", "f", [["c", "x"]]],
                              ["t", [["n", 1]]], ["inf"], ["sup"], ["neg", ["c", "x"]], ["s", "a\"b\\n\n"]])
        return ["n", self.i(1, 2)]

    def domconst(self):
        return ["n", self.i(1, 3)] if not self.chance(1, 5) else self.const()

    def patarg(self, bound, fresh):
        """argument of a positive literal; binds at most one variable of fresh/bound"""
        k = self.i(0, 13)
        if k <= 5 and fresh:
            v = self.pick(fresh)
            return ["v", v]
        if k <= 8 and bound:
            return ["v", self.pick(bound)]
        if k == 9 and fresh:
            v = ["v", self.pick(fresh)]
            self.features.add("arith-binding")
            return self.pick([["op", "+", v, ["n", 1]], ["op", "-", v, ["n", 1]], ["op", "*", ["n", 2], v],
                              ["op", "+", ["op", "*", ["n", -2], v], ["n", 3]], ["op", "-", ["n", 3], v], ["neg", v],
                              ["op", "+", ["n", 2], v], ["op", "*", v, ["n", 3]]])
        if k == 10 and bound:
            return self.arith(bound)
        if k == 11 and fresh:
            self.features.add("function-pattern")
            return self.pick([["f", "f", [["v", self.pick(fresh)]]], ["t", [["n", 1], ["v", self.pick(fresh)]]],
                              ["t", [["v", self.pick(fresh)]]]])
        if k == 12:
            self.features.add("pool")
            return ["pool", [self.domconst(), self.domconst()]] if self.chance(1, 2) else ["iv", ["n", self.i(0, 2)], ["n", self.i(1, 3)]]
        if k == 13:
            return ["v", "_"] if self.o.get("anon", True) else self.domconst()
        return self.domconst()

    def arith(self, bound):
        v = ["v", self.pick(bound)]
        w = ["v", self.pick(bound)] if self.chance(1, 2) else ["n", self.i(-2, 3)]
        op = self.pick(["+", "-", "*", "/", "\\", "&", "?", "^", "**"])
        if op == "**":
            w = ["n", self.i(0, 2)]
        k = self.i(0, 7)
        if k == 6:
            return ["abs", ["op", op, v, w]]
        if k == 7:
            return self.pick([["neg", v], ["bnot", v], ["abs", v], ["neg", ["op", op, v, w]]])
        return ["op", op, v, w]

    def useterm(self, bound, grow=False):
        """term over bound variables"""
        k = self.i(0, 9)
        if bound and k <= 5:
            return ["v", self.pick(bound)]
        if bound and grow and k <= 7:
            return self.arith(bound) if self.chance(2, 3) else ["f", "f", [["v", self.pick(bound)]]]
        if k == 8 and grow:
            self.features.add("pool")
            return self.pick([["pool", [self.domconst(), self.domconst()]], ["iv", ["n", self.i(0, 2)], ["n", self.i(1, 3)]]])
        return self.domconst()

    # ---- literals
    def sig(self, preds):
        return self.pick(preds)

    def posatom(self, preds, bound, fresh):
        name, n = self.sig(preds)
        args = [self.patarg(bound, fresh) for _ in range(n)]
        pos = not (self.o.get("cneg", True) and name in ("p", "a") and self.chance(1, 8))
        a = [pos, name, args]
        if not pos:
            self.features.add("classical-negation")
        new = [v for t in args for v in refasp.tvars(t) if v != "_" and v not in bound]
        return a, list(dict.fromkeys(bound + new))

    def negatom(self, preds, bound):
        name, n = self.sig(preds)
        return [not (self.o.get("cneg", True) and name in ("p", "a") and self.chance(1, 8)), name,
                [self.useterm(bound) for _ in range(n)]]

    def simple(self, preds, bound):
        """literal without new variables: comparison, negative literal, boolean"""
        k = self.i(0, 9)
        if k <= 4:
            self.features.add("negation")
            return ["not" if k <= 3 else "nnot", self.negatom(preds, bound)]
        if k <= 8:
            t = lambda: self.useterm(bound) if self.chance(2, 3) or not bound else self.arith(bound)
            chain = [[self.pick(refasp.CMP), t()]]
            if self.chance(1, 5):
                chain.append([self.pick(refasp.CMP), t()])
                self.features.add("chain")
            return ["cmp", self.pick([0, 0, 0, 0, 1, 2]), t(), chain]
        return ["bool", self.i(0, 2), self.i(0, 1)]

    def conj(self, preds, bound, fresh, npos, nsimple):
        """literals in evaluable order; returns (lits, bound)"""
        out = []
        for _ in range(npos):
            a, bound = self.posatom(preds, bound, [f for f in fresh])
            out.append(["pos", a])
        for _ in range(nsimple):
            k = self.i(0, 5)
            free = [f for f in fresh if f not in bound]
            if k == 5 and free and (bound or self.chance(1, 3)):
                self.features.add("assignment")
                v = ["v", self.pick(free)]
                rhs = self.arith(bound) if bound and self.chance(2, 3) else self.pick(
                    [["iv", ["n", self.i(0, 2)], ["n", self.i(1, 3)]], self.domconst()])
                out.append(["cmp", 0, v, [["=", rhs]]] if self.chance(1, 2) else ["cmp", 0, rhs, [["=", v]]])
                bound = bound + [v[1]]
            else:
                out.append(self.simple(preds, bound))
        return out, bound

    # ---- aggregates
    def elems(self, preds, bound, weights):
        n = self.i(1, 3)
        out = []
        for _ in range(n):
            c, b2 = self.conj(preds, bound, LV, self.i(0, 1) if self.chance(1, 4) else 1, self.i(0, 1) if self.chance(1, 3) else 0)
            ts = []
            if weights:
                k = self.i(0, 5)
                loc = [v for v in b2 if v in LV]
                if k <= 2:
                    ts.append(["n", self.i(-2, 3)])
                elif k <= 4 and loc:
                    ts.append(["v", self.pick(loc)])
                else:
                    ts.append(self.useterm(b2))
            ts += [self.useterm(b2, grow=False) for _ in range(self.i(0 if ts else 1, 2))]
            out.append([ts, c])
        return out

    def guard(self, bound, weights=True):
        t = ["n", self.i(-1, 3)] if not (bound and self.chance(1, 5)) else ["v", self.pick(bound)]
        return [self.pick(refasp.CMP), t]

    def agg(self, preds, bound):
        fun = self.pick(["count", "sum", "sum", "sum+", "min", "max"])
        self.features.add("agg-" + fun)
        els = self.elems(preds, bound, fun != "count")
        k = self.i(0, 5)
        lg = self.guard(bound) if k != 1 else None
        rg = self.guard(bound) if k in (1, 2) else None
        sign = self.pick([0, 0, 0, 1, 2])
        if self.chance(1, 6):
            self.features.add("set-agg")
            es = []
            for _ in range(self.i(1, 3)):
                c, b2 = self.conj(preds, bound, LV, self.i(0, 1), 0)
                l = ["pos" if self.chance(3, 4) else "not", self.negatom(preds, b2)]
                es.append([l, c])
            return ["set", sign, lg, es, rg]
        return ["agg", sign, fun, lg, els, rg]

    def condlit(self, preds, bound):
        self.features.add("cond-literal")
        c, b2 = self.conj(preds, bound, LV, 1, self.i(0, 1) if self.chance(1, 3) else 0)
        k = self.i(0, 4)
        l = ["pos" if k <= 2 else "not" if k == 3 else "nnot", self.negatom(preds, b2)]
        return ["cond", l, c]

    # ---- rules
    def body(self, preds, maxpos=2, aggs=True):
        npos = self.i(0, maxpos)
        b, bound = self.conj(preds, [], GV, npos, self.i(0, 2) if self.chance(2, 3) else 0)
        if aggs and self.chance(1, 3):
            b.append(self.agg(preds, bound))
        if aggs and self.chance(1, 6):
            b.append(self.condlit(preds, bound))
        return b, bound

    def growbound(self, b):
        """variables bound by domain predicates only (terms over them cannot grow)"""
        gb = set()
        for l in b:
            if l[0] == "pos" and l[1][1] in ("dom", "edge"):
                for t in l[1][2]:
                    gb |= refasp.tvars(t)
            elif l[0] == "cmp" and l[1] == 0 and len(l[3]) == 1 and l[3][0][0] == "=":
                for x, y in ((l[2], l[3][0][1]), (l[3][0][1], l[2])):
                    if x[0] == "v" and refasp.tvars(y) <= gb:
                        gb.add(x[1])
        return gb

    def headvars(self, b, gb):
        """variables that may occur in heads without terms growing over recursion"""
        ok = set(gb)

        def plain(t):
            if t[0] == "v":
                ok.add(t[1])
            elif t[0] in ("f", "t"):
                for x in t[-1]:
                    plain(x)
        for l in b:
            if l[0] == "pos":
                for t in l[1][2]:
                    plain(t)
        return ok

    def headatom(self, preds, bound, gb):
        name, n = self.sig(preds)
        pos = not (self.o.get("cneg", True) and name in ("p", "a") and self.chance(1, 8))
        args = []
        for _ in range(n):
            t = self.useterm(bound, grow=True)
            if t[0] not in ("v", "n", "c", "s", "pool", "iv", "inf", "sup") and not refasp.tvars(t) <= gb:
                t = self.useterm(bound)
            args.append(t)
        return [pos, name, args]

    def finish(self, h, b):
        perm = list(self.draw(st.permutations(range(len(b))))) if len(b) > 1 else list(range(len(b)))
        return {"h": h, "b": b, "perm": perm}

    def rule(self):
        preds = self.o["preds"]
        body_preds = preds + DOMS * 2
        b, bound = self.body(body_preds)
        gb = self.growbound(b)
        hv = self.headvars(b, gb)
        full, bound = bound, [v for v in bound if v in hv]
        k = self.i(0, 19)
        if k <= 8:
            h = ["atom", self.headatom(preds, bound, gb)]
        elif k <= 11 and b:
            h = ["none"]
        elif k <= 14:
            self.features.add("choice")
            els = []
            for _ in range(self.i(1, 2)):
                c, b2 = self.conj(DOMS if self.chance(2, 3) else body_preds, bound, LV, self.i(0, 1), 0)
                b2 = [v for v in b2 if v in bound or v in self.headvars(c, self.growbound(c))]
                els.append([self.headatom(preds, b2, set()), c])
            m = self.i(0, 3)
            h = ["choice", self.guard(bound) if m == 1 else None, els, self.guard(bound) if m == 2 else None]
        elif k <= 16 and self.o.get("disj", True):
            self.features.add("disjunction")
            els = []
            for _ in range(self.i(2, 3)):
                c, b2 = self.conj(DOMS, bound, LV, 1, 0) if self.chance(1, 4) else ([], bound)
                a = self.headatom(preds, b2, set())
                a[2] = [["n", 1] if t[0] in ("pool", "iv") else t for t in a[2]]
                els.append([a, c])
            h = ["disj", els]
        elif k == 17:
            self.features.add("head-aggregate")
            fun = self.pick(["count", "sum", "sum+", "min", "max"])
            els = []
            for _ in range(self.i(1, 2)):
                c, b2 = self.conj(DOMS, bound, LV, self.i(0, 1), 0)
                ts = [["n", self.i(-2, 3)]] if self.chance(1, 2) else []
                ts += [self.useterm(b2) for _ in range(self.i(0 if ts else 1, 1))]
                els.append([ts, self.headatom(preds, b2, set()), c])
            m = self.i(0, 3)
            h = ["hagg", fun, self.guard(bound) if m != 1 else None, els, self.guard(bound) if m in (1, 2) else None]
        elif k == 18:
            # bounded numeric recursion
            self.features.add("numeric-recursion")
            n = self.i(2, 4)
            return self.finish(["atom", [True, "p", [["op", "+", ["v", "X"], ["n", 1]]]]],
                               [["pos", [True, "p", [["v", "X"]]]], ["cmp", 0, ["v", "X"], [["<", ["n", n]]]]])
        else:
            # assignment aggregate over choice/derived atoms, value only used in res/1
            self.features.add("assignment-aggregate")
            bound = full
            fun = self.pick(["count", "sum", "sum+", "min", "max"])
            els = self.elems(preds + DOMS, bound, fun != "count")
            ag = ["agg", 0, fun, ["=", ["v", "N"]], els, None] if self.chance(1, 2) else ["agg", 0, fun, None, els, ["=", ["v", "N"]]]
            b = [l for l in b if l[0] != "agg"] + [ag]
            if self.chance(1, 3):
                b.append(["cmp", 0, ["v", "N"], [[self.pick(refasp.CMP), ["n", self.i(0, 3)]]]])
            h = ["atom", [True, "res", [["v", "N"]]]]
        return self.finish(h, b)

    def facts(self):
        out = []
        for _ in range(self.i(1, 3)):
            out.append(self.finish(["atom", [True, "dom", [self.domconst()]]], []))
        for _ in range(self.i(0, 3)):
            out.append(self.finish(["atom", [True, "edge", [self.domconst(), self.domconst()]]], []))
        if self.chance(1, 4):
            out.append(self.finish(["atom", [True, "dom", [["iv", ["n", 1], ["n", self.i(1, 3)]]]]], []))
        return out

    def choices(self):
        out = []
        preds = self.o["preds"]
        for _ in range(self.i(1, 2)):
            name, n = self.pick(preds)
            args, cond = [], []
            for v in LV[:n]:
                if self.chance(2, 3):
                    args.append(["v", v])
                    cond.append(["pos", [True, "dom", [["v", v]]]])
                else:
                    args.append(self.domconst())
            out.append(self.finish(["choice", None, [[[True, name, args], cond]], None], []))
        return out


@st.composite
def programs(draw, max_rules=5, **opts):
    preds = list(PREDS)
    o = dict(preds=preds, **opts)
    g = G(draw, o)
    rules = g.facts() + g.choices()
    for _ in range(draw(st.integers(1, max_rules))):
        rules.append(g.rule())
    if opts.get("mins"):
        g.o = o
        for _ in range(draw(st.integers(1, 3))):
            rules.append(minrule(g))
    if opts.get("shuffle", True) and len(rules) > 1:
        order = draw(st.permutations(range(len(rules))))
        rules = [rules[i] for i in order]
    return {"rules": rules, "features": sorted(g.features)}


def minrule(g):
    preds = g.o["preds"] + DOMS
    b, bound = g.body(preds, aggs=False)
    kind = g.pick(["weak", "minimize", "maximize"])
    w = ["n", g.i(-2, 3)] if g.chance(2, 3) or not bound else g.useterm(bound)
    p = None if g.chance(1, 3) else ["n", g.i(0, 2)]
    ts = [g.useterm(bound) for _ in range(g.i(0, 2))]
    perm = list(range(len(b)))
    return {"min": [[w, p, ts], b], "kind": kind, "perm": perm}


def text(case):
    return "\n".join(refasp.rstr(r) for r in case["rules"])
