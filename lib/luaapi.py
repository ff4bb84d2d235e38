"""The Lua module of /repo presented like the other bindings, so that sess.Session can run histories through it, and
the restriction of histories to what the Lua module offers."""
import copy
import json
import re

import luabridge
import refclingo
import sess
from luabridge import LuaError

CODES = {"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"}


_state = []


class LErr(Exception):
    """raised by scripts; arrives in Lua as the value .lua"""
    def __init__(self, lua, text):
        super().__init__(text)
        self.lua, self.text = lua, text


LONG = "long message " * 400
KINDS = {"plain": ("plain error", "plain error"), "percent": ("100% %s %d %n %", "100% %s %d %n %"), "unicode": ("schön ∀ fehler", "schön ∀ fehler"),
         "long": (LONG, LONG), "number": (17, "17"), "float": (1.5, "1.5"), "nil": (None, ""), "table": ([1, 2], ""), "bool": (True, ""),
         "lines": ("first\nsecond", "first\nsecond"), "empty": ("", "")}
EXC_KINDS = ["plain", "percent", "percent", "unicode", "long", "number", "float", "nil", "table", "bool", "lines", "empty"]


def sub(d, *names):
    """properties reading fields of the wrapped Lua value"""
    for n in names:
        d[n] = property(lambda self, n=n: self.r.m_index(n))


def check(ok, what):
    if not ok:
        raise AssertionError(what)


class P:
    """proxy of a Lua value"""
    def __init__(self, api, ref):
        self.api, self.r = api, ref

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.r, name)

    def __str__(self):
        return str(self.r)

    def _m(self, name, *a):
        return self.r.m(name, *a)


class LAtoms(P):
    def __iter__(self):
        return iter(self.api.lua.f("drain", self._m("iter")))

    def __len__(self):
        return len(self.r)

    def __getitem__(self, sym):
        return self._m("lookup", sym)

    def __contains__(self, sym):
        return self._m("lookup", sym) is not None

    def by_signature(self, name, arity, positive=True):
        f = self._m("by_signature", name, arity, positive) if not positive or self.api.alt() else self._m("by_signature", name, arity)
        return self.api.lua.f("drain", f)


class LSolveControl(P):
    symbolic_atoms = property(lambda self: LAtoms(self.api, self.r.symbolic_atoms))

    def add_clause(self, lits):
        self._m("add_clause", lits)

    def add_nogood(self, lits):
        self._m("add_nogood", lits)


class LModel(P):
    context = property(lambda self: LSolveControl(self.api, self.r.context))
    type = property(lambda self: str(self.r.type))
    thread_id = property(lambda self: self.r.thread_id - 1)

    def symbols(self, **kw):
        return self._m("symbols", kw)

    def contains(self, sym):
        return self._m("contains", sym)

    def is_true(self, l):
        return self._m("is_true", l)

    def extend(self, syms):
        self._m("extend", syms)


class LHandle(P):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._m("close")
        if self.api.alt():
            self._m("close")

    def get(self):
        return self._m("get")

    def resume(self):
        self._m("resume")

    def cancel(self):
        self._m("cancel")

    def core(self):
        # nil is the same as an empty core
        return self._m("core") or []

    def __iter__(self):
        f = self._m("iter")
        while True:
            m = f()
            if m is None:
                return
            yield LModel(self.api, m)


class LTrail(P):
    def begin(self, level):
        return self._m("first", level) - 1

    def end(self, level):
        return self._m("last", level)


def views(api, r):
    """all views of a sequence agree"""
    lua = api.lua
    lst = lua.f("drain", r.m("iter"))
    n = len(r)
    check(n == len(lst), f"length {n} of {lst}")
    check([r[i] for i in range(1, n + 1)] == lst, "index")
    want = [[i + 1, x] for i, x in enumerate(lst)]
    check(lua.f("pairs", r) == want, "pairs")
    check(lua.f("ipairs", r) == want, "ipairs")
    for i in (0, -1, n + 1, n + 2, -n):
        try:
            x = r[i]
        except LuaError:
            continue
        check(x is None, f"index {i} gives {x} for length {n}")
    return lst


class LAssignment(P):
    def has_literal(self, l):
        return self._m("has_lit", l)

    def is_free(self, l):
        return self._m("value", l) is None

    def __getattr__(self, name):
        if name in ("value", "level", "is_fixed", "is_true", "is_false", "decision"):
            return lambda x: self._m(name, x)
        return super().__getattr__(name)


class LInit(P):
    symbolic_atoms = property(lambda self: LAtoms(self.api, self.r.symbolic_atoms))
    assignment = property(lambda self: LAssignment(self.api, self.r.assignment))

    @property
    def check_mode(self):
        return str(self.r.check_mode)

    @check_mode.setter
    def check_mode(self, v):
        self.r.check_mode = v

    def solver_literal(self, l):
        return self._m("solver_literal", l)

    def add_watch(self, l, *t):
        self._m("add_watch", l, *[x + 1 for x in t])

    def add_literal(self, *a):
        return self._m("add_literal", *a)

    def add_clause(self, c):
        return self._m("add_clause", c)

    def add_weight_constraint(self, *a):
        return self._m("add_weight_constraint", *a)

    def add_minimize(self, *a):
        self._m("add_minimize", *a)

    def propagate(self):
        return self._m("propagate")

    def set_state(self, t, v):
        self._m("set_state", t + 1, v)


class LPropCtl(P):
    thread_id = property(lambda self: self.r.thread_id - 1)
    assignment = property(lambda self: LAssignment(self.api, self.r.assignment))

    def clause(self, name, lits, tag=None, lock=None):
        d = {1: lits}
        if tag is not None:
            d["tag"] = tag
        if lock is not None:
            d["lock"] = lock
        return self._m(name, d)

    def add_clause(self, *a, **k):
        return self.clause("add_clause", *a, **k)

    def add_nogood(self, *a, **k):
        return self.clause("add_nogood", *a, **k)

    def add_literal(self):
        return self._m("add_literal")

    def add_watch(self, l):
        self._m("add_watch", l)

    def remove_watch(self, l):
        self._m("remove_watch", l)

    def has_watch(self, l):
        return self._m("has_watch", l)

    def propagate(self):
        return self._m("propagate")


class LBackend(P):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._m("close")

    def args(self, names, vals):
        """positional, keyword, or mixed table"""
        k = [len(names), 0, 1][self.api.count % 3]
        self.api.count += 1
        return {**{i + 1: v for i, v in enumerate(vals[:k])}, **dict(zip(names[k:], vals[k:]))}

    def add_atom(self, *a):
        return self._m("add_atom", *a)

    def add_external(self, *a):
        self._m("add_external", *a)

    def add_rule(self, head, *a, **kw):
        if not a:
            self._m("add_rule", {[1, "head"][self.api.count % 2]: head, **kw})
            self.api.count += 1
            return
        self._m("add_rule", self.args(["head", "body", "choice"], (head,) + a))

    def add_weight_rule(self, *a):
        self._m("add_weight_rule", self.args(["head", "lower", "body", "choice"], a))

    def add_minimize(self, *a):
        self._m("add_minimize", self.args(["priority", "body"], a))


class LControl(P):
    symbolic_atoms = property(lambda self: LAtoms(self.api, self.r.symbolic_atoms))
    statistics = property(lambda self: self.r.statistics)

    def __init__(self, api, ref):
        super().__init__(api, ref)

    def add(self, name, params, text):
        self._m("add", name, params, text)

    def load(self, f):
        self._m("load", f)

    def assign_external(self, x, v):
        self._m("assign_external", x, v)

    def release_external(self, x):
        self._m("release_external", x)

    def cleanup(self):
        self._m("cleanup")

    def interrupt(self):
        self._m("interrupt")

    def get_const(self, n):
        return self._m("get_const", n)

    def backend(self):
        return LBackend(self.api, self._m("backend"))

    enable_cleanup = property(lambda s: s.r.enable_cleanup, lambda s, v: setattr(s.r, "enable_cleanup", v))
    enable_enumeration_assumption = property(lambda s: s.r.enable_enumeration_assumption,
                                             lambda s, v: setattr(s.r, "enable_enumeration_assumption", v))

    def solve(self, assumptions=(), yield_=False, async_=False, on_model=None, on_finish=None):
        d = {}
        if assumptions or self.api.alt():
            d["assumptions"] = assumptions
        if yield_:
            d["yield"] = True
        if on_model:
            d["on_model"] = lambda m: on_model(LModel(self.api, m))
        if on_finish:
            d["on_finish"] = on_finish
        r = self._m("solve", d) if d or self.api.alt() else self._m("solve")
        return LHandle(self.api, r) if yield_ else r


class LuaApi(sess.RefApi):
    name = "lua"
    lua_ = True

    def __init__(self, cpath, case):
        super().__init__()
        self.count = 0
        if not _state:
            # one state per process because every state registers itself for scripts in the library
            _state.append(luabridge.Lua(cpath))
        self.lua = _state[0]
        self.lua.reset(case.get("stress", 0))
        self.cl = self.lua.run("return setmetatable({}, {__index = clingo})")
        self.T = {n: self.lua.run(f"return setmetatable({{}}, {{__index = clingo.{n}}})")
                  for n in ("ExternalType", "PropagatorCheckMode")}
        self.in_co = case.get("co")

    def alt(self):
        self.count += 1
        return self.count % 2

    def run_co(self, fun):
        """inside of a coroutine"""
        ok, = self.lua.f("co", fun)
        return ok

    def close(self):
        self.cl = self.T = None
        self.lua.reset(0)

    def control(self, args, logger, limit):
        f = None
        if logger:
            def f(code, msg):
                logger(str(code), msg)
        return LControl(self, self.lua.f("call", self.cl.Control, args, f, limit))

    def free(self, ctl):
        ctl.r = None

    def mk(self, t):
        k = t[0]
        if k == "n":
            return self.cl.Number(t[1])
        if k == "s":
            return self.cl.String(t[1])
        if k == "f":
            if t[1] == "" and t[3]:
                return self.cl.Tuple([self.mk(x) for x in t[2]])
            if t[3] and not t[2] and self.alt():
                return self.cl.Function(t[1])
            return self.cl.Function(t[1], [self.mk(x) for x in t[2]], t[3])
        return self.cl.Infimum if k == "inf" else self.cl.Supremum

    def parse_term(self, text, logger=None, limit=20):
        return self.cl.parse_term(text, (lambda c, m: logger(str(c), m)) if logger else None, limit)

    def enum(self, cls, name):
        name = name.rstrip("_")
        return self.T["ExternalType"][name] if cls == "ext" else self.T["PropagatorCheckMode"][name]

    def ground_ctx(self, ctl, parts, functions):
        ctx = []
        if functions is not None:
            ctx = [{n: (lambda f: lambda self, *a: f(*a))(f) for n, f in functions.items()}]
            if self.alt():
                ctx = [self.lua.f("inherit", ctx[0])]
        ctl.r.m("ground", parts, *ctx)

    def theory(self, x):
        f = self.lua.f
        objs = {"t": [], "e": [], "a": []}

        def seen(kind, o):
            objs[kind].append(o)

        def term(t):
            seen("t", t)
            d = {"type": str(t.type), "str": str(t)}
            if d["type"] == "Number":
                d["number"] = t.number
            if d["type"] in ("Symbol", "Function"):
                d["name"] = t.name
            if d["type"] not in ("Symbol", "Number"):
                d["args"] = [term(a) for a in t.arguments]
            return d

        def elem(e):
            seen("e", e)
            return {"terms": [term(t) for t in e.terms], "cond": e.condition, "cid": e.condition_id, "str": str(e)}
        ret = []
        for a in f("drain", x.r.theory_atoms):
            seen("a", a)
            g = a.guard
            ret.append({"term": term(a.term), "elems": [elem(e) for e in a.elements], "lit": a.literal,
                        "str": str(a), "guard": None if g is None else [g[0], term(g[1])]})
        for k, l in objs.items():
            for i, y in enumerate(l[:20]):
                z = l[i * 7 % len(l)]
                c = f("cmp", y, z)
                (ret[0] if ret else {}).setdefault("cmp", []).append(c)
        return ret

    def observer(self, ctl, rec, events, replace, style):
        obs = {e: (lambda e: lambda self, *a: rec(e, a))(e) for e in events}
        if style == "derived":
            obs = self.lua.f("inherit", obs)
        ctl.r.m("register_observer", obs, *([replace] if replace or self.alt() else []))

    def propagator(self, ctl, p, methods, style):
        def st(s):
            return None if s is None else s.n

        def enter(t, s):
            p.ev("state", t, st(s))
            if s is not None:
                s.n = s.n + 1

        def init(self_, i):
            p.init(LInit(self, i))

        def propagate(self_, c, changes, s=None):
            c = LPropCtl(self, c)
            enter(c.thread_id, s)
            p.propagate(c, changes)

        def check_(self_, c, s=None):
            c = LPropCtl(self, c)
            enter(c.thread_id, s)
            p.check(c)

        def undo(self_, t, a, changes, s=None):
            enter(t - 1, s)
            p.undo(t - 1, LAssignment(self, a), changes)

        def decide(self_, t, a, fb, s=None):
            enter(t - 1, s)
            return p.decide(t - 1, LAssignment(self, a), fb)
        d = {m: {"init": init, "propagate": propagate, "check": check_, "undo": undo, "decide": decide}[m] for m in methods}
        if style == "derived":
            d = self.lua.f("inherit", d)
        ctl.r.m("register_propagator", d)

    def mkstate(self, n):
        s = self.lua.f("inherit", {})
        s.n = n
        return s

    def trail(self, a):
        t = a.r.trail
        return views(self, t), LTrail(self, t)

    def assignment_list(self, a):
        return views(self, a.r)

    def conf_get(self, c, x):
        if isinstance(x, int):
            l = self.lua.f("drain", c.m("iter"))
            check(len(l) == len(c), "length of configuration array")
            return l[x] if x < len(l) else None
        return getattr(c, x)

    def conf(self, ctl, path):
        c = ctl.r.configuration
        for x in path:
            if not isinstance(c, luabridge.Ref):
                return None
            c = self.conf_get(c, x)
        return c

    def conf_info(self, ctl, path):
        c = self.conf(ctl, path)
        return ["conf", len(c), c.keys] if isinstance(c, luabridge.Ref) else ["value", c]

    def conf_walk(self, ctl):
        def walk(c):
            if not isinstance(c, luabridge.Ref):
                return c
            r = []
            if len(c):
                r.append([walk(x) for x in self.lua.f("drain", c.m("iter"))])
            k = c.keys
            if k is not None:
                r.append([[k, c.m("description", k), walk(getattr(c, k))] for k in k])
            return r
        return walk(ctl.r.configuration)

    def conf_set(self, ctl, path, v):
        c = self.conf(ctl, path[:-1])
        if not isinstance(c, luabridge.Ref):
            return "missing"
        try:
            self.lua.f("newindex", c, path[-1], v)
        except LuaError:
            try:
                c.m("description", path[-1])
            except LuaError:
                return "missing"
            raise

    def conf_desc(self, ctl, path):
        c = self.conf(ctl, path[:-1])
        if not isinstance(c, luabridge.Ref):
            return "missing"
        try:
            return c.m("description", path[-1])
        except RuntimeError as e:
            if "unknown option" in str(e):
                return "missing"
            raise


class RefLua(sess.RefApi):
    """the reference, limited to what Lua shows"""
    lua_ = True

    def control(self, args, logger, limit):
        return RefLuaControl(args, logger, limit)

    def close(self):
        pass

    def theory(self, x):
        objs = {"t": [], "e": [], "a": []}

        def term(t):
            objs["t"].append(t.pop("hash"))
            for a in t.get("args", []):
                term(a)
        r = x.theory()
        for a in r:
            objs["a"].append(a.pop("hash"))
            term(a["term"])
            for e in a["elems"]:
                objs["e"].append(e.pop("hash"))
                for t in e["terms"]:
                    term(t)
            if a["guard"]:
                term(a["guard"][1])
        for k, l in objs.items():
            for i, y in enumerate(l[:20]):
                z = l[i * 7 % len(l)]
                (r[0] if r else {}).setdefault("cmp", []).append([y == z, y < z, y <= z])
        return r

    def conf_info(self, ctl, path):
        c = self.conf(ctl, path)
        if c is None:
            return ["value", None]
        if c.type() & 1:
            return ["value", c.value()]
        return ["conf", max(0, len(c)) if c.type() & 2 else 0, c.keys]

    def conf_walk(self, ctl):
        def walk(c):
            t = c.type()
            if t & 1:
                return c.value()
            r = []
            if t & 2 and len(c):
                r.append([walk(c.at(i)) for i in range(len(c))])
            if t & 4:
                r.append([[k, c.sub(k).desc(), walk(c.sub(k))] for k in c.keys])
            return r
        return walk(ctl.configuration)

    def propagator(self, ctl, p, methods, style):
        def enter(t):
            s = p.states.get(t)
            p.ev("state", t, None if s is None else s["n"])
            if s is not None:
                s["n"] += 1

        class W:
            def init(self, i):
                i.set_state = lambda t, v: p.states.__setitem__(t, v)
                p.init(i)

            def propagate(self, c, ch):
                enter(c.thread_id)
                p.propagate(c, ch)

            def check(self, c):
                enter(c.thread_id)
                p.check(c)

            def undo(self, t, a, ch):
                enter(t)
                p.undo(t, a, ch)

            def decide(self, t, a, fb):
                enter(t)
                return p.decide(t, a, fb)
        super().propagator(ctl, W(), methods, style)

    def mkstate(self, n):
        return {"n": n}


class RefLuaControl(refclingo.Control):
    null_event = True

    def solve(self, assumptions=(), **kw):
        """a positive symbol that is not an atom is a contradiction, a negative one is ignored"""
        lits, at = [], self.symbolic_atoms
        for x in assumptions:
            if isinstance(x, int):
                lits.append(x)
            else:
                a = at[x[0]]
                if a is not None:
                    lits.append(a.literal if x[1] else -a.literal)
                elif x[1]:
                    lits = [1, -1]
                    break
        return super().solve(lits, **kw)


class LuaPropagator(sess.ScriptedPropagator):
    def __init__(self, *a):
        super().__init__(*a)
        self.states = {}

    def init(self, init):
        self.shared = None
        super().init(init)

    def other_init_op(self, init, op):
        if op[0] == "state":
            if op[2] is None and self.shared is not None:
                s = self.shared
            else:
                s = self.shared = self.s.api.mkstate(op[2] or 0)
            init.set_state(op[1], s)
        elif op[0] == "badstate":
            try:
                self.s.api.lua
            except AttributeError:
                return "error"
            try:
                init.set_state(op[1], "x")
            except LuaError:
                return "error"
            return "ok"


def strip(msg):
    return re.sub(r'^\[string "prelude"\]:\d+: ', "", msg).split("\nstack traceback:")[0].rstrip()


class LuaSession(sess.Session):
    propagator_class = LuaPropagator

    def throw(self, kind):
        v, t = KINDS[kind]
        self.thrown = LErr(v, t)
        self.event(["throw", kind])
        raise self.thrown

    def exc(self, e):
        t, self.thrown = self.thrown, None
        if t is not None:
            if e is t:
                return ["exc", "user", True]
            if isinstance(e, LuaError):
                v = e.value
                ok = t.text in v if isinstance(v, str) else v == t.lua
                return ["exc", "user", True if ok else f"message {t.text!r} lost, got {v!r}"]
            return ["exc", type(e).__name__, str(e)]
        if isinstance(e, AssertionError):
            return ["exc", "assertion", str(e)]
        if isinstance(e, AttributeError) and "no function" in str(e) or isinstance(e, LuaError) and "attempt to call a nil value" in str(e):
            return ["exc", "no function"]
        return ["exc", "RuntimeError", strip(str(e))]

    def event(self, e):
        if e[0] == "obs":
            e = json.loads(json.dumps(e).replace('True_"', 'True"').replace('False_"', 'False"'))
        super().event(e)

    def model_dump(self, m):
        return [str(m), m.number, m.type, m.cost, m.optimality_proven, m.thread_id,
                [[str(x) for x in m.symbols(**{f: True})] for f in ("atoms", "terms", "shown", "theory")]]

    def model_truth(self, m):
        return [[str(a.symbol), m.contains(a.symbol), m.is_true(a.literal), m.is_true(-a.literal)] for a in m.context.symbolic_atoms]

    def op_stats(self):
        def empty(x):
            if isinstance(x, dict):
                return {k: empty(v) for k, v in x.items() if not k.startswith("user_")} if x else []
            return [empty(v) for v in x] if isinstance(x, list) else x
        return empty(super().op_stats())

    def run(self):
        t = super().run()
        return [e for e in t if e[0] != "compat"]


# ---------------------------------------------------------------- restriction of histories

def mops(ops, callback):
    r = []
    for op in ops:
        if op[0] == "extend" and not callback:
            continue
        if op[0] == "raise":
            op = ["raise", kind(op[1])]
        elif op[0] == "ret" and op[1] is not None:
            op = ["ret", bool(op[1])]
        r.append(op)
    return r


def kind(k):
    return k if k in KINDS else EXC_KINDS[(sess.EXC_KINDS.index(k) * 5 + 3) % len(EXC_KINDS)]


def fix_solve(kw):
    kw = dict(kw)
    for k in ("unsat", "stats", "core", "last", "capture"):
        kw.pop(k, None)
    y = "yield" in kw.get("mode", "sync")
    kw["mode"] = "yield" if y else "sync"
    if y:
        kw.pop("model", None)
        kw.pop("finish", None)
        hops = []
        for h in kw.get("hops", []):
            if h[0] in ("iter",):
                hops.append(["iter", h[1], mops(h[2], False)])
            elif h[0] == "body_raise":
                hops.append(["body_raise", kind(h[1])])
            elif h[0] in ("get", "cancel", "resume", "core"):
                hops.append(h)
            elif h[0] == "model":
                # model is only available by iteration
                hops.append(["iter", 1, mops(h[1], False)])
        # resume before iteration is part of the iteration step
        kw["hops"] = [h for i, h in enumerate(hops) if not (h[0] == "resume" and i + 1 < len(hops) and hops[i + 1][0] == "iter")]
    else:
        kw["hops"] = []
        if kw.get("model") is not None:
            kw["model"] = [mops(o, True) for o in kw["model"]]
        f = kw.get("finish")
        if f:
            kw["finish"] = []   # the library terminates if a finish callback fails
    return kw


SYM = {"atom", "rule", "wrule", "minimize", "external", "raise"}
IOPS = {"unwatch", "freeze", "undo_mode"}


def luaize(case):
    c = copy.deepcopy(case)
    ops = []
    for op in c["ops"]:
        k = op[0]
        if k == "add1":
            op = ["add", "base", [], op[1]]
        elif k in ("project", "remove_minimize", "register_backend", "load_aspif", "fail"):
            continue
        elif k == "solve":
            op = ["solve", fix_solve(op[1])]
        elif k == "ground" and len(op) > 2 and op[2] is not None:
            op = ["ground", op[1], {n: [["raise", kind(b[1])] if b[0] == "raise" else b for b in s] for n, s in op[2].items()}]
        elif k == "observe":
            op = op[:4] + ([op[4], kind(op[5])] if len(op) > 4 else [])
        elif k == "backend":
            op = ["backend", [["raise", kind(s[1])] if s[0] == "raise" else s for s in op[1] if s[0] in SYM]]
        elif k == "propagator":
            s = op[1]
            for n in ("init", "propagate", "check", "undo", "decide"):
                s[n] = [[["raise", kind(o[1])] if o[0] == "raise" else o for o in x if o[0] not in IOPS or n != "init"] for x in s[n]]
        ops.append(op)
    c["ops"] = ops
    return c


def run(api, case):
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix="sess-")
    try:
        return LuaSession(api, case, tmp).run(), tmp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
