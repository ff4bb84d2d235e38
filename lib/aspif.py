"""aspif (intermediate format) reader and solving by the installed clasp through
its C backend (raw, no wrapper of /repo involved)."""
import rawc


class FormatError(Exception):
    pass


def parse(text):
    """[[statement, ...] per step], statements as tuples:
    ('rule',choice,head,body) ('wrule',choice,head,bound,[(lit,w)]) ('min',prio,[(lit,w)])
    ('project',atoms) ('output',str,cond) ('external',atom,value) ('assume',lits)
    ('heuristic',mod,atom,bias,prio,cond) ('edge',u,v,cond)
    ('tnum',id,n) ('tstr',id,s) ('tfun',id,f,args) ('telem',id,terms,cond) ('tatom',a,term,elems,guard|None)"""
    lines = text.split("\n")
    if not lines or not lines[0].startswith("asp 1 0 0"):
        raise FormatError("bad header: " + (lines[0] if lines else ""))
    steps, cur = [], []
    i = 1
    # strings may contain newlines? aspif outputs are length-prefixed; handle generally
    data = text[len(lines[0]) + 1:]
    pos, n = 0, len(data)

    def num():
        nonlocal pos
        while pos < n and data[pos] == " ":
            pos += 1
        s = pos
        if pos < n and data[pos] == "-":
            pos += 1
        while pos < n and data[pos].isdigit():
            pos += 1
        if s == pos:
            raise FormatError(f"number expected at {pos}: {data[pos:pos+30]!r}")
        return int(data[s:pos])

    def nums():
        return tuple(num() for _ in range(num()))

    def wl():
        return tuple((num(), num()) for _ in range(num()))

    def string():
        nonlocal pos
        k = num()
        pos += 1
        # the length counts bytes
        b = data[pos:].encode(errors="surrogateescape")[:k] if not data[pos:pos + k].isascii() else None
        s = data[pos:pos + k] if b is None else b.decode(errors="surrogateescape")
        pos += len(s)
        return s

    def eol():
        nonlocal pos
        if pos < n and data[pos] != "\n":
            raise FormatError(f"end of line expected at {data[pos:pos+30]!r}")
        pos += 1

    open_ = False
    while pos < n:
        t = num()
        open_ = True
        if t == 0:
            eol()
            steps.append(cur)
            cur = []
            open_ = False
            continue
        if t == 1:
            ch = num()
            if ch not in (0, 1):
                raise FormatError("head type")
            head = nums()
            bt = num()
            if bt == 0:
                cur.append(("rule", ch, head, nums()))
            elif bt == 1:
                b = num()
                cur.append(("wrule", ch, head, b, wl()))
            else:
                raise FormatError("body type")
        elif t == 2:
            p = num()
            cur.append(("min", p, wl()))
        elif t == 3:
            cur.append(("project", nums()))
        elif t == 4:
            s = string()
            cur.append(("output", s, nums()))
        elif t == 5:
            a = num()
            cur.append(("external", a, num()))
        elif t == 6:
            cur.append(("assume", nums()))
        elif t == 7:
            m, a, b, p = num(), num(), num(), num()
            cur.append(("heuristic", m, a, b, p, nums()))
        elif t == 8:
            u, v = num(), num()
            cur.append(("edge", u, v, nums()))
        elif t == 9:
            k = num()
            if k == 0:
                i_ = num()
                cur.append(("tnum", i_, num()))
            elif k == 1:
                i_ = num()
                cur.append(("tstr", i_, string()))
            elif k == 2:
                i_, f = num(), num()
                cur.append(("tfun", i_, f, nums()))
            elif k == 4:
                i_ = num()
                terms = nums()
                cur.append(("telem", i_, terms, nums()))
            elif k in (5, 6):
                a, term = num(), num()
                elems = nums()
                cur.append(("tatom", a, term, elems, (num(), num()) if k == 6 else None))
            else:
                raise FormatError("theory type")
        elif t == 10:
            while pos < n and data[pos] != "\n":
                pos += 1
        else:
            raise FormatError(f"statement type {t}")
        eol()
    if open_ or cur:
        raise FormatError("step not terminated")
    return steps


class Solver:
    """Feeds statements to the installed solver; every aspif atom is mapped to a
    solver atom.  Theory statements are ignored (theory atoms become externals
    with value free, i.e. open choices)."""

    def __init__(self, args=("0",), theory_choice=True):
        self.raw = rawc.installed()
        self.ctl = self.raw.control(list(args))
        self.map = {}
        self.theory_choice = theory_choice
        self.outputs = []
        self.mins = []
        self.assume = []
        self.projects = []

    def free(self):
        self.ctl.free()

    def _atom(self, bk, a):
        if a not in self.map:
            p = self.raw.ffi.new("clingo_atom_t*")
            self.raw.f("clingo_backend_add_atom", bk, self.raw.ffi.NULL, p)
            self.map[a] = p[0]
        return self.map[a]

    def add(self, stms, opt=False):
        raw, ffi = self.raw, self.raw.ffi
        bk = raw.v("clingo_control_backend", "clingo_backend_t*", self.ctl.ctl)
        raw.f("clingo_backend_begin", bk)
        self.assume = []
        la = lambda xs: (ffi.new("clingo_literal_t[]", [self._lit(bk, x) for x in xs]), len(xs))
        aa = lambda xs: (ffi.new("clingo_atom_t[]", [self._atom(bk, x) for x in xs]), len(xs))

        def wa(xs):
            w = ffi.new("clingo_weighted_literal_t[]", len(xs))
            for i, (l, k) in enumerate(xs):
                w[i].literal, w[i].weight = self._lit(bk, l), k
            return w, len(xs)

        for s in stms:
            k = s[0]
            if k == "rule":
                raw.f("clingo_backend_rule", bk, bool(s[1]), *aa(s[2]), *la(s[3]))
            elif k == "wrule":
                raw.f("clingo_backend_weight_rule", bk, bool(s[1]), *aa(s[2]), s[3], *wa(s[4]))
            elif k == "min":
                # atoms occurring in no rule are unknown to clasp (it may use
                # their number for an auxiliary atom): they stay unmapped, i.e. false
                self.mins.append((s[1], s[2]))
                if opt:
                    raw.f("clingo_backend_minimize", bk, s[1], *wa(s[2]))
            elif k == "project":
                self.projects.append(s[1])
                raw.f("clingo_backend_project", bk, *aa(s[1]))
            elif k == "output":
                self.outputs.append((s[1], s[2]))
            elif k == "external":
                raw.f("clingo_backend_external", bk, self._atom(bk, s[1]), s[2])
            elif k == "assume":
                self.assume = [self._lit(bk, x) for x in s[1]]
            elif k == "edge":
                raw.f("clingo_backend_acyc_edge", bk, s[1], s[2], *la(s[3]))
            elif k == "tatom" and self.theory_choice and s[1]:
                raw.f("clingo_backend_rule", bk, True, *aa([s[1]]), ffi.NULL, 0)
        raw.f("clingo_backend_end", bk)

    def _lit(self, bk, l):
        return self._atom(bk, l) if l > 0 else -self._atom(bk, -l)

    def solve(self, limit=2000, assumptions=()):
        """list of frozensets of true aspif atoms"""
        raw, ffi = self.raw, self.raw.ffi
        asm = list(self.assume) + [self.map[a] if a > 0 else -self.map[-a] for a in assumptions]
        arr = ffi.new("clingo_literal_t[]", asm)
        h = raw.v("clingo_control_solve", "clingo_solve_handle_t*", self.ctl.ctl, raw.lib.clingo_solve_mode_yield, arr,
                  len(asm), ffi.NULL, ffi.NULL)
        models = []
        b = ffi.new("bool*")
        items = list(self.map.items())
        istrue = raw.lib.clingo_model_is_true
        try:
            while True:
                raw.f("clingo_solve_handle_resume", h)
                m = raw.v("clingo_solve_handle_model", "clingo_model_t const*", h)
                if m == ffi.NULL:
                    break
                tr = set()
                for a, sa in items:
                    istrue(m, sa, b)
                    if b[0]:
                        tr.add(a)
                models.append(frozenset(tr))
                if len(models) >= limit:
                    break
        finally:
            raw.f("clingo_solve_handle_close", h)
        return models


def holds(model, lits):
    return all((l in model) if l > 0 else (-l not in model) for l in lits)


def shown(model, outputs):
    return frozenset(s for s, c in outputs if holds(model, c))


def costs(model, mins):
    r = {}
    for p, wl in mins:
        r.setdefault(p, 0)
        for l, w in wl:
            if holds(model, (l,)):
                r[p] += w
    return r


def answer_sets(steps, limit=2000, with_costs=False):
    """answer sets (shown symbols) of a single-step aspif program"""
    s = Solver()
    try:
        for st in steps:
            s.add(st)
        ms = s.solve(limit)
        if with_costs:
            return [(shown(m, s.outputs), costs(m, s.mins)) for m in ms]
        return [shown(m, s.outputs) for m in ms]
    finally:
        s.free()
