"""Reference semantics for logic programs: naive instantiation by matching and
enumeration of answer sets by the here-and-there definition.  Written from the
language documentation; shares no code with the grounder.

Programs are JSON-able:
 term   ["n",k] ["c",name] ["s",str] ["v",X] ["f",name,[t]] ["t",[t]] ["op",o,l,r]
        ["neg",t] ["abs",t] ["bnot",t] ["iv",l,r] ["pool",[t]] ["inf"] ["sup"]
 atom   [positive, name, [t]]
 lit    ["pos",atom] ["not",atom] ["nnot",atom] ["cmp",sign,t,[[op,t],...]] ["bool",sign,value]
        (sign: 0 none, 1 not, 2 not not)
 elem   body literal or ["cond",lit,[lits]] or ["agg",sign,fun,[op,t]|None,elems,[op,t]|None]
        or ["set",sign,[op,t]|None,[[lit,[lits]]],[op,t]|None]
        agg elems: [[t...],[lits]] ; left guard [op,t] reads t op agg; right guard agg op t
 head   ["none"] ["atom",atom] ["disj",[[atom,[lits]]...]] ["choice",lg,[[atom,[lits]]],rg]
        ["hagg",fun,lg,[[[t..],atom,[lits]]],rg]
 rule   {"h":head,"b":[elem...],"perm":[...]}   b is in an evaluable order, perm is the printed order
 other  {"min":[[w,prio,[t]],[lits]]}  weak constraint / minimize element
"""
import itertools

BIN = ["+", "-", "*", "/", "\\", "**", "&", "?", "^"]
CMP = ["<", "<=", ">", ">=", "=", "!="]


class TooBig(Exception):
    pass


# ----------------------------------------------------------------- symbols
OVERFLOWS = [0]     # number of results that had to be wrapped so far


def wrap32(x):
    y = x & 0xFFFFFFFF
    y = y - (1 << 32) if y & 0x80000000 else y
    OVERFLOWS[0] += x != y
    return y


def skey(v):
    """sort key of the documented order"""
    k = v[0]
    if k == "inf":
        return (0,)
    if k == "n":
        return (1, v[1])
    if k == "s":
        return (4, v[1].encode())
    if k == "sup":
        return (7,)
    name, args, pos = v[1], v[2], v[3]
    if not args:
        return (2 if pos else 3, name.encode())
    return (5, 0 if pos else 1, len(args), name.encode(), tuple(skey(a) for a in args))


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace("\n", "\\n").replace('"', '\\"') + '"'


def sstr(v):
    k = v[0]
    if k == "n":
        return str(v[1])
    if k == "s":
        return quote(v[1])
    if k == "inf":
        return "#inf"
    if k == "sup":
        return "#sup"
    name, args, pos = v[1], v[2], v[3]
    if not args and name:
        return ("" if pos else "-") + name
    return ("" if pos else "-") + name + "(" + ",".join(map(sstr, args)) + ("," if name == "" and len(args) == 1 else "") + ")"


# ----------------------------------------------------------------- printing
def tstr(t):
    k = t[0]
    if k == "n":
        return str(t[1])
    if k in ("c", "v"):
        return t[1]
    if k == "s":
        return quote(t[1])
    if k == "f":
        return t[1] + "(" + ",".join(map(tstr, t[2])) + ")"
    if k == "t":
        return "(" + ",".join(map(tstr, t[1])) + ("," if len(t[1]) == 1 else "") + ")"
    if k == "op":
        return "(" + tstr(t[2]) + t[1] + tstr(t[3]) + ")"
    if k == "neg":
        return "-(" + tstr(t[1]) + ")" if t[1][0] in ("n", "op", "neg", "bnot", "iv") else "-" + tstr(t[1])
    if k == "abs":
        return "|" + tstr(t[1]) + "|"
    if k == "bnot":
        return "~" + tstr(t[1])
    if k == "iv":
        return "(" + tstr(t[1]) + ".." + tstr(t[2]) + ")"
    if k == "pool":
        return "(" + ";".join(map(tstr, t[1])) + ")"
    return "#inf" if k == "inf" else "#sup"


def astr(a):
    return ("" if a[0] else "-") + a[1] + ("(" + ",".join(map(tstr, a[2])) + ")" if a[2] else "")


SIGN = ["", "not ", "not not "]


def lstr(l):
    k = l[0]
    if k == "pos":
        return astr(l[1])
    if k == "not":
        return "not " + astr(l[1])
    if k == "nnot":
        return "not not " + astr(l[1])
    if k == "cmp":
        return SIGN[l[1]] + tstr(l[2]) + "".join(o + tstr(t) for o, t in l[3])
    if k == "bool":
        return SIGN[l[1]] + ("#true" if l[2] else "#false")
    if k == "cond":
        return lstr(l[1]) + ": " + ",".join(map(lstr, l[2]))
    if k == "agg":
        g = (tstr(l[3][1]) + l[3][0] if l[3] else "")
        r = (l[5][0] + tstr(l[5][1]) if l[5] else "")
        return SIGN[l[1]] + g + "#" + l[2] + "{" + ";".join(estr(e) for e in l[4]) + "}" + r
    if k == "set":
        g = (tstr(l[2][1]) + l[2][0] if l[2] else "")
        r = (l[4][0] + tstr(l[4][1]) if l[4] else "")
        return SIGN[l[1]] + g + "{" + ";".join(lstr(e[0]) + (": " + ",".join(map(lstr, e[1])) if e[1] else "") for e in l[3]) + "}" + r
    raise AssertionError(k)


def estr(e):
    return ",".join(map(tstr, e[0])) + ": " + ",".join(map(lstr, e[1]))


def hstr(h):
    k = h[0]
    if k == "none":
        return ""
    if k == "atom":
        return astr(h[1])
    if k == "disj":
        return ";".join(astr(a) + (": " + ",".join(map(lstr, c)) if c else "") for a, c in h[1])
    if k == "choice":
        g = (tstr(h[1][1]) + h[1][0] if h[1] else "")
        r = (h[3][0] + tstr(h[3][1]) if h[3] else "")
        return g + "{" + ";".join(astr(a) + (": " + ",".join(map(lstr, c)) if c else "") for a, c in h[2]) + "}" + r
    if k == "hagg":
        g = (tstr(h[2][1]) + h[2][0] if h[2] else "")
        r = (h[4][0] + tstr(h[4][1]) if h[4] else "")
        return g + "#" + h[1] + "{" + ";".join(",".join(map(tstr, t)) + ": " + astr(a) + (": " + ",".join(map(lstr, c)) if c else "") for t, a, c in h[3]) + "}" + r
    raise AssertionError(k)


def rstr(r):
    if "min" in r:
        (w, p, ts), body = r["min"]
        head = tstr(w) + ("@" + tstr(p) if p is not None else "")
        if r.get("kind", "weak") == "weak":
            return ":~" + ";".join(lstr(body[i]) for i in r["perm"]) + ".[" + ",".join([head] + list(map(tstr, ts))) + "]"
        return ("#minimize" if r["kind"] == "minimize" else "#maximize") + "{" + ",".join([head] + list(map(tstr, ts))) + ": " + ",".join(lstr(body[i]) for i in r["perm"]) + "}."
    if "raw" in r:
        return r["raw"]
    b = ";".join(lstr(r["b"][i]) for i in r["perm"])
    if r["h"][0] == "none":
        return ":-" + b + "."
    return hstr(r["h"]) + (":-" + b if b else "") + "."


# ----------------------------------------------------------------- evaluation
def ev(t, s):
    """all values of a term under substitution s (pools/intervals give many, undefined gives none)"""
    k = t[0]
    if k == "n":
        return [("n", t[1])]
    if k == "c":
        return [("f", t[1], (), True)]
    if k == "s":
        return [("s", t[1])]
    if k == "v":
        return [s[t[1]]]
    if k == "f":
        return [("f", t[1], a, True) for a in itertools.product(*[ev(x, s) for x in t[2]])]
    if k == "t":
        return [("f", "", a, True) for a in itertools.product(*[ev(x, s) for x in t[1]])]
    if k == "inf":
        return [("inf",)]
    if k == "sup":
        return [("sup",)]
    if k == "pool":
        return [v for x in t[1] for v in ev(x, s)]
    if k == "iv":
        if any(a[0] == b[0] == "n" and b[1] - a[1] > 500 for a in ev(t[1], s) for b in ev(t[2], s)):
            raise TooBig()
        return [("n", i) for a in ev(t[1], s) for b in ev(t[2], s) if a[0] == b[0] == "n" for i in range(a[1], b[1] + 1)]
    if k == "neg":
        r = []
        for v in ev(t[1], s):
            if v[0] == "n":
                r.append(("n", wrap32(-v[1])))
            elif v[0] == "f":
                r.append(("f", v[1], v[2], not v[3]))
        return r
    if k == "abs":
        return [("n", wrap32(abs(v[1]))) for v in ev(t[1], s) if v[0] == "n"]
    if k == "bnot":
        return [("n", wrap32(~v[1])) for v in ev(t[1], s) if v[0] == "n"]
    if k == "op":
        r = []
        for a in ev(t[2], s):
            for b in ev(t[3], s):
                if a[0] == "n" and b[0] == "n":
                    x = binop(t[1], a[1], b[1])
                    if x is not None:
                        r.append(("n", x))
        return r
    raise AssertionError(k)


def binop(o, a, b):
    if o == "+":
        return wrap32(a + b)
    if o == "-":
        return wrap32(a - b)
    if o == "*":
        return wrap32(a * b)
    if o == "/":
        if b == 0:
            return None
        q = abs(a) // abs(b)
        return wrap32(q if (a < 0) == (b < 0) else -q)
    if o == "\\":
        if b == 0:
            return None
        m = abs(a) % abs(b)
        return wrap32(-m if a < 0 else m)
    if o == "**":
        if b < 0:
            # undefined for zero, otherwise the (integer) result is zero
            if a == 0:
                return None
            return 0
        if abs(a) > 1 and b > 31:
            OVERFLOWS[0] += 1
            return wrap32(pow(a, b, 1 << 32))
        return wrap32(a ** b)
    if o == "&":
        return wrap32(a & b)
    if o == "?":
        return wrap32(a | b)
    if o == "^":
        return wrap32(a ^ b)
    raise AssertionError(o)


def cmp(op, a, b):
    if op == "=":
        return a == b
    if op == "!=":
        return a != b
    x, y = skey(a), skey(b)
    return x < y if op == "<" else x <= y if op == "<=" else x > y if op == ">" else x >= y


def tvars(t, out=None):
    out = set() if out is None else out
    if t[0] == "v":
        out.add(t[1])
    else:
        for x in t[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    tvars(x, out)
                else:
                    for y in x:
                        if isinstance(y, list):
                            tvars(y, out)
    return out


RANGE = 300


def unify(t, v, s):
    """substitutions extending s under which v is a value of t"""
    k = t[0]
    if k == "v":
        if t[1] == "_":
            return [s]
        if t[1] in s:
            return [s] if s[t[1]] == v else []
        s2 = dict(s)
        s2[t[1]] = v
        return [s2]
    un = [x for x in tvars(t) if x not in s]
    if not un:
        return [s] if v in ev(t, s) else []
    if k in ("f", "t"):
        name, args = (t[1], t[2]) if k == "f" else ("", t[1])
        if v[0] != "f" or v[1] != name or len(v[2]) != len(args) or not v[3]:
            return []
        res = [s]
        for a, x in zip(args, v[2]):
            res = [s3 for s2 in res for s3 in unify(a, x, s2)]
        return res
    if k == "neg":
        if v[0] == "n":
            return unify(t[1], ("n", wrap32(-v[1])), s)
        if v[0] == "f":
            return unify(t[1], ("f", v[1], v[2], not v[3]), s)
        return []
    if k == "op" and len(un) == 1:
        if v[0] != "n":
            return []
        res = []
        for i in range(-RANGE, RANGE + 1):
            s2 = dict(s)
            s2[un[0]] = ("n", i)
            if v in ev(t, s2):
                res.append(s2)
        return res
    raise AssertionError(f"cannot unify {t}")


def gatoms(a, s):
    return [(bool(a[0]), a[1], args) for args in itertools.product(*[ev(t, s) for t in a[2]])]


class Grounder:
    """program -> ground rules over an over-approximation of derivable atoms"""

    def __init__(self, rules, maxatoms=60, maxinst=4000):
        self.rules = rules
        self.maxatoms, self.maxinst = maxatoms, maxinst
        self.dom = {}      # signature -> ordered dict of atoms
        self.changed = False

    def define(self, ga):
        d = self.dom.setdefault((ga[0], ga[1], len(ga[2])), {})
        if ga not in d:
            d[ga] = len(d)
            self.changed = True
            if sum(map(len, self.dom.values())) > self.maxatoms:
                raise TooBig()

    def matches(self, a, s):
        d = self.dom.get((bool(a[0]), a[1], len(a[2])), {})
        out = []
        for ga in list(d):
            res = [s]
            for t, v in zip(a[2], ga[2]):
                res = [s3 for s2 in res for s3 in unify(t, v, s2)]
            # intervals/pools may match one atom several times: same substitution, same atom
            seen = []
            for r in res:
                if r not in seen:
                    seen.append(r)
                    out.append((r, ga))
        return out

    def known(self, ga):
        return ga in self.dom.get((ga[0], ga[1], len(ga[2])), {})

    # conjunction of literals -> list of (substitution, ground literals)
    def conj(self, lits, s):
        res = [(s, ())]
        for l in lits:
            nxt = []
            for s1, gl in res:
                for s2, g in self.lit(l, s1):
                    nxt.append((s2, gl + g))
            res = nxt
            if len(res) > self.maxinst:
                raise TooBig()
        return res

    def lit(self, l, s):
        """list of (substitution, ground literal tuple)"""
        k = l[0]
        if k == "pos":
            return [(s2, (("p", ga),)) for s2, ga in self.matches(l[1], s)]
        if k in ("not", "nnot"):
            # every instance of the arguments (pools/intervals) is an instance of the literal
            return [(s, (("n" if k == "not" else "nn", ga),)) for ga in dict.fromkeys(gatoms(l[1], s))]
        if k == "bool":
            val = bool(l[2]) ^ (l[1] == 1)
            return [(s, ())] if val else []
        if k == "cmp":
            return [(s2, ()) for s2 in self.cmp(l, s)]
        if k == "cond":
            insts = []
            for s2, gc in self.conj(l[2], s):
                for s3, gl in self.lit_ground(l[1], s2):
                    insts.append((gc, gl))
            return [(s, (("cond", tuple(dict.fromkeys(insts))),))]
        if k in ("agg", "set"):
            return self.agg(l, s)
        raise AssertionError(k)

    def lit_ground(self, l, s):
        """head of a conditional literal: all variables bound"""
        k = l[0]
        if k == "pos":
            return [(s, ("p", ga)) for ga in gatoms(l[1], s)]
        if k in ("not", "nnot"):
            return [(s, ("n" if k == "not" else "nn", ga)) for ga in gatoms(l[1], s)]
        if k == "bool":
            return [(s, ("T" if bool(l[2]) ^ (l[1] == 1) else "F",))]
        if k == "cmp":
            return [(s, ("T" if self.cmp(l, s) else "F",))]
        raise AssertionError(k)

    def cmp(self, l, s):
        sign, t0, chain = l[1], l[2], l[3]
        if sign == 0 and len(chain) == 1 and chain[0][0] == "=":
            un0 = [x for x in tvars(t0) if x not in s]
            un1 = [x for x in tvars(chain[0][1]) if x not in s]
            if un0 or un1:
                a, b = (t0, chain[0][1]) if un0 else (chain[0][1], t0)
                res = []
                for v in dict.fromkeys(ev(b, s)):
                    res += [r for r in unify(a, v, s) if r not in res]
                return res
        terms = [t0] + [t for _, t in chain]
        ops = [o for o, _ in chain]
        ok = 0
        tot = 0
        for vals in itertools.product(*[dict.fromkeys(ev(t, s)) for t in terms]):
            tot += 1
            ok += all(cmp(o, vals[i], vals[i + 1]) for i, o in enumerate(ops))
        if sign == 1 and len(chain) > 1 and not tot:
            # a disjunction of comparisons, of which only some are undefined
            raise TooBig()
        if sign == 1:
            # only generated without pools/intervals: at most one value
            return [s] if tot and not ok else []
        return [s] if ok else []

    def agg(self, l, s):
        if l[0] == "agg":
            sign, fun, lg, elems, rg = l[1:]
        else:
            sign, lg, elems, rg = l[1:]
            fun = "count"
        tuples = {}
        for i, e in enumerate(elems):
            if l[0] == "agg":
                for s2, gc in self.conj(e[1], s):
                    for tup in itertools.product(*[ev(t, s2) for t in e[0]]):
                        if fun in ("sum", "sum+") and tup[0][0] != "n":
                            continue
                        tuples.setdefault(tup, set()).add(gc)
            else:
                for s2, gc in self.conj(e[1], s):
                    for s3, gl in self.lit_ground(e[0], s2):
                        if gl[0] == "T":
                            tuples.setdefault(("lit", gl), set()).add(gc)
                        elif gl[0] != "F":
                            tuples.setdefault(("lit", gl), set()).add(gc + (gl,))
        els = tuple((tup, frozenset(c)) for tup, c in tuples.items())
        guards = []
        assign = None
        for side, g in (("l", lg), ("r", rg)):
            if g is None:
                continue
            op, t = g
            if side == "l":
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if t[0] == "v" and t[1] not in s:
                assert op == "=" and assign is None and sign == 0
                assign = t[1]
            else:
                guards.append((op, ev(t, s)))
        res = []
        if assign is not None:
            for v in possible_values(fun, els):
                s2 = dict(s)
                s2[assign] = v
                for gs in itertools.product(*[[(o, x) for x in vs] for o, vs in guards]):
                    res.append((s2, (("agg", 0, fun, (("=", v),) + gs, els),)))
            return res
        for gs in itertools.product(*[[(o, x) for x in dict.fromkeys(vs)] for o, vs in guards]):
            res.append((s, (("agg", sign, fun, gs, els),)))
        return res

    def run(self):
        """-> list of ground rules ('head kind', ...)"""
        norm = []
        for r in self.rules:
            if "h" in r:
                norm.append(r)
        for _ in range(60):
            self.changed = False
            for r in norm:
                for s, gb in self.conj(r["b"], {}):
                    self.head_atoms(r["h"], s)
            if not self.changed:
                break
        else:
            raise TooBig()
        out = []
        seen = set()
        for r in norm:
            for s, gb in self.conj(r["b"], {}):
                for gh in self.head(r["h"], s):
                    if (gh, gb) not in seen:
                        seen.add((gh, gb))
                        out.append((gh, gb))
            if len(out) > self.maxinst:
                raise TooBig()
        # classical negation
        for (pos, name, n), d in list(self.dom.items()):
            if not pos:
                for ga in d:
                    if self.known((True, name, ga[2])):
                        out.append((("disj", ()), (("p", ga), ("p", (True, name, ga[2])))))
        return out

    def head_atoms(self, h, s):
        for g in self.head(h, s):
            if g[0] == "disj":
                for ga in g[1]:
                    self.define(ga)
            else:
                for ga, c in g[1]:
                    self.define(ga)

    def head(self, h, s):
        k = h[0]
        if k == "none":
            return [("disj", ())]
        if k == "atom":
            return [("disj", (ga,)) for ga in dict.fromkeys(gatoms(h[1], s))]
        if k == "disj":
            # conditions over domain predicates only: instances are disjuncts
            atoms = []
            for a, c in h[1]:
                for s2, gc in self.conj(c, s):
                    if any(g[0] == "p" and not self.isfact(g[1]) for g in gc):
                        raise AssertionError("non-domain condition in disjunction")
                    atoms += gatoms(a, s2)
            return [("disj", tuple(dict.fromkeys(atoms)))]
        if k == "choice":
            els = {}
            for a, c in h[2]:
                for s2, gc in self.conj(c, s):
                    for ga in gatoms(a, s2):
                        els.setdefault((ga, gc))
            gs = self.hguards(h[1], h[3], s)
            return [("choice", tuple(els), "count", g, tuple(((("lit", ga)), gc + (("p", ga),)) for ga, gc in els)) for g in gs]
        if k == "hagg":
            els, tups = {}, {}
            for ts, a, c in h[3]:
                for s2, gc in self.conj(c, s):
                    for tup in itertools.product(*[ev(t, s2) for t in ts]):
                        if h[1] in ("sum", "sum+") and tup[0][0] != "n":
                            continue
                        for ga in gatoms(a, s2):
                            els.setdefault((ga, gc))
                            tups.setdefault((tup, gc + (("p", ga),)))
            gs = self.hguards(h[2], h[4], s)
            return [("choice", tuple(els), h[1], g, tuple(tups)) for g in gs]
        raise AssertionError(k)

    def isfact(self, ga):
        return True

    def hguards(self, lg, rg, s):
        opts = []
        for side, g in (("l", lg), ("r", rg)):
            if g is None:
                continue
            op, t = g
            if side == "l":
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            opts.append([(op, v) for v in dict.fromkeys(ev(t, s))])
        return list(itertools.product(*opts))


def possible_values(fun, els):
    if fun == "count":
        return [("n", i) for i in range(len(els) + 1)]
    if fun in ("sum", "sum+"):
        vals = {0}
        for tup, _ in els:
            w = tup[0][1]
            if fun == "sum+":
                w = max(w, 0)
            vals |= {v + w for v in vals}
        if len(vals) > 200:
            raise TooBig()
        return [("n", v) for v in sorted(vals)]
    ws = {tup[0] for tup, _ in els}
    ws.add(("sup",) if fun == "min" else ("inf",))
    return sorted(ws, key=skey)


def agg_value(fun, tuples):
    if fun == "count":
        return ("n", len(tuples))
    if fun == "sum":
        return ("n", sum(t[0][1] for t in tuples))
    if fun == "sum+":
        return ("n", sum(max(t[0][1], 0) for t in tuples))
    ws = [t[0] for t in tuples]
    if fun == "min":
        return min(ws, key=skey) if ws else ("sup",)
    return max(ws, key=skey) if ws else ("inf",)


# ------------------------------------------------------- here-and-there check
def gl_true(g, H, T):
    k = g[0]
    if k == "p":
        return g[1] in H
    if k == "n":
        return g[1] not in T
    if k == "nn":
        return g[1] in T
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "cond":
        for w in ((H, T) if H is not T else (T,)):
            for gc, gl in g[1]:
                if all(gl_true(c, w, T) for c in gc) and not gl_true(gl, w, T):
                    return False
        return True
    if k == "agg":
        sign, fun, gs, els = g[1:]

        def sat(w):
            tup = [t for t, cs in els if any(all(gl_true(c, w, T) for c in conj) for conj in cs)]
            v = agg_value(fun, tup)
            return all(cmp(o, v, x) for o, x in gs)
        if sign == 1:
            return not sat(T)
        if sign == 2:
            return sat(T)
        return sat(T) and (H is T or sat(H))
    raise AssertionError(k)


def head_true(h, H, T):
    if h[0] == "disj":
        return any(a in H for a in h[1])
    # choice: a or not a for every element whose condition holds
    for ga, gc in h[1]:
        if ga in T and ga not in H and all(gl_true(c, H, T) for c in gc):
            return False
    if H is T:
        tup = {t for t, gc in h[4] if all(gl_true(c, T, T) for c in gc)}
        v = agg_value(h[2], list(tup))
        return all(cmp(o, v, x) for o, x in h[3])
    return True


def rule_sat(r, H, T):
    h, b = r
    if all(gl_true(g, T, T) for g in b) and not head_true(h, T, T):
        return False
    if H is not T and all(gl_true(g, H, T) for g in b) and not head_true(h, H, T):
        return False
    return True


def head_atoms(h):
    return h[1] if h[0] == "disj" else tuple(a for a, _ in h[1])


def stable_models(grules, fixed_true=(), free=(), maxfree=11, limit=600, extra_choice=()):
    """all stable models as frozensets of ground atoms.  extra_choice: atoms that may
    be true without a rule (externals with value free)"""
    grules = list(grules)
    for a in extra_choice:
        grules.append((("choice", ((a, ()),), "count", (), ()), ()))
    for a in fixed_true:
        grules.append((("disj", (a,)), ()))
    derivable = set()
    for h, b in grules:
        derivable.update(head_atoms(h))
    # certain atoms: least model of the definite part
    sure = set()
    changed = True
    while changed:
        changed = False
        for h, b in grules:
            if h[0] == "disj" and len(h[1]) == 1 and h[1][0] not in sure:
                if all((g[0] == "p" and g[1] in sure) or (g[0] == "n" and g[1] not in derivable) for g in b):
                    sure.add(h[1][0])
                    changed = True
    free = sorted(derivable - sure, key=repr)
    if len(free) > maxfree:
        raise TooBig()
    rules = [r for r in grules if not (r[0][0] == "disj" and any(a in sure for a in r[0][1]))]
    # simplify bodies a little: drop rules with a literal that can never hold
    rules2 = []
    for h, b in rules:
        if any((g[0] == "p" and g[1] not in derivable) or (g[0] == "n" and g[1] in sure) or (g[0] == "nn" and g[1] not in derivable) for g in b):
            continue
        b2 = tuple(g for g in b if not ((g[0] in ("p", "nn") and g[1] in sure) or (g[0] == "n" and g[1] not in derivable)))
        rules2.append((h, b2))
    support = {}
    for r in rules2:
        for a in head_atoms(r[0]):
            support.setdefault(a, []).append(r)
    order = sorted(rules2, key=lambda r: (len(r[1]) + (5 if any(g[0] in ("agg", "cond") for g in r[1]) else 0)))
    models = []
    for mask in range(1 << len(free)):
        T = frozenset(sure | {a for i, a in enumerate(free) if mask >> i & 1})
        ok = True
        for r in order:
            if not rule_sat(r, T, T):
                ok = False
                break
        if not ok:
            continue
        cand = [a for a in free if a in T]
        # supportedness (necessary for stability)
        for a in cand:
            if not any(all(gl_true(g, T, T) for g in r[1]) for r in support.get(a, ())):
                ok = False
                break
        if not ok:
            continue
        n = len(cand)
        for m2 in range((1 << n) - 1):
            H = frozenset(sure | {a for i, a in enumerate(cand) if m2 >> i & 1})
            if all(rule_sat(r, H, T) for r in order):
                ok = False
                break
        if ok:
            models.append(T)
            if len(models) > limit:
                raise TooBig()
    return models


def ga_str(ga):
    return ("" if ga[0] else "-") + ga[1] + ("(" + ",".join(map(sstr, ga[2])) + ")" if ga[2] else "")


def min_tuples(rules, grounder):
    """ground minimize tuples: (prio, weight, tuple) -> set of condition conjunctions"""
    out = {}
    for r in rules:
        if "min" not in r:
            continue
        (w, p, ts), body = r["min"]
        sgn = -1 if r.get("kind") == "maximize" else 1
        for s, gb in grounder.conj(body, {}):
            for wv in ev(w, s):
                for pv in (ev(p, s) if p is not None else [("n", 0)]):
                    if wv[0] != "n" or pv[0] != "n":
                        continue
                    for tv in itertools.product(*[ev(t, s) for t in ts]):
                        out.setdefault((pv[1], wrap32(sgn * wv[1]), tv), set()).add(gb)
    return out


def cost(T, mins):
    r = {}
    for (p, w, tv), conds in mins.items():
        r.setdefault(p, 0)
        if any(all(gl_true(c, T, T) for c in gb) for gb in conds):
            r[p] += w
    return r
