"""Session interpreter: executes a generated history of API calls (JSON) through
an adapter and records everything that can be observed.  The same history is
run through the reference binding (refclingo, raw C interface) and through the
binding under test; the two traces have to be equal."""
import enum
import os
import tempfile

import pbt
import refclingo

MAXEV = 400


class UErr(Exception):
    pass


class UTwo(Exception):
    """needs two arguments to construct"""
    def __init__(self, a, b):
        super().__init__(f"{a}/{b}")
        self.a, self.b = a, b


class UBase(BaseException):
    pass


class UKey(KeyError):
    pass


class UFalsy(Exception):
    """an exception that collects messages"""

    def __len__(self):
        return 0


class UEq(Exception):
    def __eq__(self, other):
        raise TypeError("not comparable")

    __hash__ = None


def make_exc(kind):
    return {"falsy": lambda: UFalsy("nothing"), "surr": lambda: UErr("file \udcff"), "nul": lambda: UErr("a\0b"), "frozen": lambda: UEq("x"),
            "plain": lambda: UErr("plain error"), "two": lambda: UTwo("left", 2), "key": lambda: UKey("the key"),
            "rt": lambda: RuntimeError("user runtime error"), "empty": lambda: UErr(), "base": lambda: UBase("base"),
            "mem": lambda: MemoryError("user memory error"), "uni": lambda: UErr("schön ∀ error"),
            "type": lambda: TypeError("user type error"), "args": lambda: UErr("a", 2, None)}[kind]()


EXC_KINDS = ["falsy", "falsy", "surr", "nul", "frozen", "plain", "two", "key", "rt", "empty", "base", "mem", "uni", "type", "args"]


def norm(x):
    if isinstance(x, enum.Enum):
        return x.name
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {k: norm(y) for k, y in x.items()}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return str(x)


# ---------------------------------------------------------------- adapters

class RefApi:
    """the reference binding"""
    name = "reference"

    def __init__(self):
        refclingo.raw()

    def control(self, args, logger, limit):
        return refclingo.Control(args, logger, limit)

    def free(self, ctl):
        ctl.free()

    mk = staticmethod(refclingo.mk)
    parse_term = staticmethod(refclingo.parse_term)

    def enum(self, cls, name):
        return name

    def add1(self, ctl, text):
        ctl.add("base", [], text)

    def ground_ctx(self, ctl, parts, functions):
        def call(name, args):
            if name not in functions:
                raise AttributeError(f"no function {name}")
            r = functions[name](*args)
            return list(r) if isinstance(r, (list, tuple)) else [r]
        ctl.ground(parts, call if functions is not None else None)

    def theory(self, x):
        return x.theory()

    def observer(self, ctl, rec, events, replace, style):
        class Obs:
            def __getattr__(self, name):
                return lambda *a: rec(name, a)
        ctl.register_observer(Obs(), events, replace)

    def propagator(self, ctl, p, methods, style):
        ctl.register_propagator(p, methods)

    def with_backend(self, ctl, body):
        with ctl.backend() as b:
            body(b)

    def sequence(self, x):
        return x

    def trail(self, a):
        t = a.trail
        return t.list(), t

    def assignment_list(self, a):
        return a.list()

    def conf(self, ctl, path):
        c = ctl.configuration
        for x in path:
            if c is None:
                return None
            if isinstance(x, int):
                c = c.at(x) if 0 <= x < len(c) else None
            else:
                c = c.sub(x)
        return c

    def conf_info(self, ctl, path):
        c = self.conf(ctl, path)
        if c is None:
            return "missing"
        if c.type() & 1:
            return ["value", c.value()]
        return ["conf", bool(c.type() & 2), len(c), c.keys]

    def conf_walk(self, ctl):
        def walk(c):
            t = c.type()
            if t & 1:
                return c.value()
            r = []
            if t & 2:
                r.append([walk(c.at(i)) for i in range(len(c))])
            if t & 4:
                r.append([[k, c.sub(k).desc(), walk(c.sub(k))] for k in c.keys])
            return r
        return walk(ctl.configuration)

    def conf_set(self, ctl, path, v):
        c = self.conf(ctl, path)
        if c is None:
            return "missing"
        c.set(str(v))

    def conf_desc(self, ctl, path):
        c = self.conf(ctl, path)
        return "missing" if c is None else c.desc()

    def stats_set(self, st, name, v):
        st.set(name, v)

    def stats_dump(self, st):
        return st.dump()

    def log(self):
        r = refclingo.raw()
        return r.ffi.string(r.lib.compat58_log()).decode()

    def clear_log(self):
        r = refclingo.raw()
        r.lib.compat58_clear()
        r.lib.compat58_fail(0)

    def reset_undo(self):
        refclingo.raw().lib.compat58_reset_undo()

    def fail_next(self, n):
        refclingo.raw().lib.compat58_fail(n)


SLICES = [slice(1, None), slice(None, None, -1), slice(None, None, 2), slice(-3, -1), slice(-1, 0, -2), slice(1, 100), slice(0, 0)]


def check_sequence(seq, lst):
    """the sequence has the content of the list under all views"""
    n = len(lst)

    def check(ok, what):
        if not ok:
            raise AssertionError(f"inconsistent sequence: {what}")
    check(len(seq) == n and bool(seq) == bool(lst), "length")
    check([seq[i] for i in range(-n, n)] == lst + lst, "index")
    check(str(seq) == str([NoQuote(x) for x in lst]) or str(seq).startswith("<"), "str")
    check(list(reversed(seq)) == lst[::-1], "reversed")
    for x in lst[:2]:
        check(x in seq and seq.count(x) == lst.count(x) and seq.index(x) == lst.index(x), "search")
    for i in (n, -n - 1):
        try:
            seq[i]
            check(False, f"index {i}")
        except IndexError:
            pass
    for a in SLICES:
        v, w = seq[a], lst[a]
        check(list(v) == w and len(v) == len(w), f"slice {a}")
        for b in SLICES:
            check(list(v[b]) == w[b], f"slices {a}, {b}")
        if w:
            check(v[0] == w[0] and v[-1] == w[-1], f"ends of slice {a}")


class NoQuote:
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return str(self.x)


class PyApi(RefApi):
    """/repo's Python package"""
    name = "python"

    def __init__(self):
        super().__init__()
        import clingo
        import clingo.ast
        import clingo.backend
        import clingo.configuration
        import clingo.core
        import clingo.propagator
        import clingo.solving
        import clingo.symbol
        self.c = clingo
        self.parse_term = clingo.symbol.parse_term

    def control(self, args, logger, limit):
        return self.c.Control(args, (lambda c, m: logger(c.name, m)) if logger else None, limit)

    def free(self, ctl):
        # immediately frees the solver (deterministic in CPython)
        ctl.__del__()
        ctl._free = False

    def mk(self, t):
        s = self.c.symbol
        k = t[0]
        if k == "n":
            return s.Number(t[1])
        if k == "s":
            return s.String(t[1])
        if k == "f":
            if t[1] == "" and t[3]:
                return s.Tuple_([self.mk(x) for x in t[2]])
            return s.Function(t[1], [self.mk(x) for x in t[2]], t[3])
        return s.Infimum if k == "inf" else s.Supremum

    def enum(self, cls, name):
        return {"heu": self.c.backend.HeuristicType, "ext": self.c.core.TruthValue,
                "seq": self.c.backend.TheorySequenceType, "check": self.c.propagator.PropagatorCheckMode,
                "undo": self.c.propagator.PropagatorUndoMode, "backend": self.c.control.BackendType}[cls][name]

    def add1(self, ctl, text):
        ctl.add(text)

    def ground_ctx(self, ctl, parts, functions):
        if functions is None:
            ctl.ground(parts)
            return

        class Ctx:
            def __getattr__(self, name):
                raise AttributeError(f"no function {name}")
        ctx = Ctx()
        for n, f in functions.items():
            setattr(ctx, n, f)
        ctl.ground(parts, ctx)

    def theory(self, x):
        def term(t):
            d = {"type": t.type.name, "str": str(t), "hash": hash(t)}
            if d["type"] == "Number":
                d["number"] = t.number
            if d["type"] in ("Symbol", "Function"):
                d["name"] = t.name
            if d["type"] not in ("Symbol", "Number"):
                d["args"] = [term(a) for a in t.arguments]
            return d

        def elem(e):
            return {"terms": [term(t) for t in e.terms], "cond": e.condition, "hash": hash(e), "cid": e.condition_id,
                    "str": str(e)}
        ret = []
        for a in x.theory_atoms:
            g = a.guard
            ret.append({"term": term(a.term), "elems": [elem(e) for e in a.elements], "lit": a.literal, "hash": hash(a),
                        "str": str(a), "guard": None if g is None else [g[0], term(g[1])]})
        return ret

    def observer(self, ctl, rec, events, replace, style):
        ns = {}
        for e in events:
            ns[e] = (lambda e: lambda self, *a: rec(e, a))(e)
        base = (self.c.backend.Observer,) if style == "derived" else (object,)
        obs = type("Obs", base, ns if style != "instance" else {})()
        if style == "instance":
            for e in events:
                setattr(obs, e, (lambda e: lambda *a: rec(e, a))(e))
        ctl.register_observer(obs, replace)

    def propagator(self, ctl, p, methods, style):
        ns = {m: (lambda m: lambda self, *a: getattr(p, m)(*a))(m) for m in methods}
        base = (self.c.propagator.Propagator,) if style == "derived" else (object,)
        ctl.register_propagator(type("Prop", base, ns)())

    def sequence(self, x):
        check_sequence(x, list(x))
        return x

    def trail(self, a):
        t = a.trail
        lst = list(t)
        check_sequence(t, lst)
        return lst, t

    def assignment_list(self, a):
        lst = list(a)
        check_sequence(a, lst)
        return lst

    def conf_info(self, ctl, path):
        c = ctl.configuration
        for i, x in enumerate(path):
            if not isinstance(c, self.c.configuration.Configuration):
                return "missing"
            try:
                c = c[x] if isinstance(x, int) else getattr(c, x)
            except (AttributeError, IndexError):
                return "missing"
        if isinstance(c, self.c.configuration.Configuration):
            return ["conf", c.is_array, len(c), c.keys]
        return ["value", c]

    def conf_walk(self, ctl):
        def walk(c):
            if not isinstance(c, self.c.configuration.Configuration):
                return c
            r = []
            if c.is_array:
                r.append([walk(x) for x in c])
            if c.keys is not None:
                r.append([[k, c.description(k), walk(getattr(c, k))] for k in c.keys])
            return r
        return walk(ctl.configuration)

    def conf_parent(self, ctl, path):
        c = ctl.configuration
        for x in path[:-1]:
            if not isinstance(c, self.c.configuration.Configuration):
                return None
            try:
                c = c[x] if isinstance(x, int) else getattr(c, x)
            except (AttributeError, IndexError):
                return None
        return c if isinstance(c, self.c.configuration.Configuration) else None

    def conf_set(self, ctl, path, v):
        c = self.conf_parent(ctl, path)
        if c is None:
            return "missing"
        try:
            setattr(c, path[-1], v)
        except AttributeError:
            return "missing"

    def conf_desc(self, ctl, path):
        c = self.conf_parent(ctl, path)
        if c is None:
            return "missing"
        try:
            return c.description(path[-1])
        except RuntimeError as e:
            if str(e).startswith("unknown option"):
                return "missing"
            raise

    def stats_set(self, st, name, v):
        st[name] = v

    def stats_dump(self, st):
        if isinstance(st, float):
            return st
        if hasattr(st, "items"):
            return {k: self.stats_dump(v) for k, v in st.items()}
        return [self.stats_dump(x) for x in st]


# ---------------------------------------------------------------- propagator

class ScriptedPropagator:
    """Propagator driven by a script; literals are referenced by index into the
    list of solver literals known so far."""
    def __init__(self, sess, script):
        self.s, self.script, self.raised = sess, script, False
        self.lits, self.n = [], {"init": 0, "propagate": 0, "check": 0, "undo": 0, "decide": 0}

    def ev(self, *x):
        self.s.event(["prop", self.script.get("name", 0), *norm(x)])

    def lit(self, ref):
        if not self.lits:
            return 1 if ref > 0 else -1
        l = self.lits[(abs(ref) - 1) % len(self.lits)]
        return l if ref > 0 else -l

    def next_ops(self, kind):
        i = self.n[kind]
        self.n[kind] += 1
        seq = self.script.get(kind) or []
        if i < len(seq):
            return seq[i]
        tail = self.script.get(kind + "_rest")
        return tail or []

    def dump(self, a, full=True):
        lits = [l for l in dict.fromkeys(self.lits)]
        d = [a.decision_level, a.root_level, a.has_conflict, a.is_total]
        if full:
            tr, t = self.s.api.trail(a)
            d.append([tr, [[t.begin(i), t.end(i)] for i in range(a.decision_level + 1)],
                      [a.decision(i) for i in range(a.decision_level + 1)]])
            d.append([[l, a.has_literal(l), a.value(l), a.is_true(l), a.is_false(-l), a.is_free(-l), a.is_fixed(l),
                       a.level(l) if a.value(l) is not None else None] for l in lits])
            d.append(self.s.api.assignment_list(a))
        return d

    def guarded(self, fun):
        """library errors become part of the trace"""
        try:
            return fun()
        except RuntimeError as e:
            self.ev("error", str(e))
            return None

    def init(self, init):
        s = self.s
        s.api.reset_undo()
        atoms = init.symbolic_atoms
        self.lits = [init.solver_literal(a.literal) for a in atoms]
        self.ev("init", [[str(a.symbol), a.literal, init.solver_literal(a.literal), init.solver_literal(-a.literal)]
                         for a in atoms], init.number_of_threads, init.check_mode, None if s.lua else init.undo_mode)
        ops = self.next_ops("init")
        for op in ops:
            k = op[0]
            r = None
            if k == "watch":
                r = self.guarded(lambda: init.add_watch(self.lit(op[1]), *op[2:]))
            elif k == "unwatch":
                r = self.guarded(lambda: init.remove_watch(self.lit(op[1]), *op[2:]))
            elif k == "freeze":
                r = self.guarded(lambda: init.freeze_literal(self.lit(op[1])))
            elif k == "check_mode":
                init.check_mode = s.api.enum("check", op[1])
                r = init.check_mode
            elif k == "undo_mode":
                init.undo_mode = s.api.enum("undo", op[1])
                r = init.undo_mode
            elif k == "clause":
                r = self.guarded(lambda: init.add_clause([self.lit(x) for x in op[1]]))
                if r is False:
                    self.ev(k, r)
                    return
            elif k == "add_literal":
                r = self.guarded(lambda: init.add_literal(*op[1:]))
                if r is not None:
                    self.lits.append(r)
            elif k == "weight":
                r = self.guarded(lambda: init.add_weight_constraint(
                    self.lit(op[1]), [(self.lit(l), w) for l, w in op[2]], *op[3:]))
                if r is False:
                    self.ev(k, r)
                    return
            elif k == "minimize":
                r = self.guarded(lambda: init.add_minimize(self.lit(op[1]), *op[2:]))
            elif k == "propagate":
                r = self.guarded(init.propagate)
                if r is False:
                    self.ev(k, r)
                    return
            elif k == "theory":
                r = s.api.theory(init)
                for a in r:
                    l = init.solver_literal(a["lit"])
                    if l not in self.lits:
                        self.lits.append(l)
            elif k == "assignment":
                r = self.dump(init.assignment)
            elif k == "atoms":
                r = s.atoms_dump(init.symbolic_atoms)
            elif k == "raise":
                self.throw(op[1])
            else:
                r = self.other_init_op(init, op)
            self.ev(k, r)

    def other_init_op(self, init, op):
        raise NotImplementedError(op)

    def throw(self, kind):
        """a second exception while the first one unwinds terminates the process inside the library"""
        if not self.raised:
            self.raised = True
            self.s.throw(kind)

    def control_ops(self, control, ops):
        for op in ops:
            k = op[0]
            r = None
            if k in ("clause", "nogood"):
                f = control.add_clause if k == "clause" else control.add_nogood
                r = self.guarded(lambda: f([self.lit(x) for x in op[1]], *op[2:]))
                if not r:
                    self.ev(k, r)
                    return False
            elif k == "kwclause":
                r = self.guarded(lambda: control.add_clause([self.lit(x) for x in op[1]], **op[2]))
                if not r:
                    self.ev(k, r)
                    return False
            elif k == "propagate":
                r = self.guarded(control.propagate)
                if not r:
                    self.ev(k, r)
                    return False
            elif k == "add_literal":
                r = self.guarded(control.add_literal)
                if r is not None:
                    self.lits.append(r)
            elif k == "watch":
                r = self.guarded(lambda: control.add_watch(self.lit(op[1])))
            elif k == "has_watch":
                r = control.has_watch(self.lit(op[1]))
            elif k == "unwatch":
                r = control.remove_watch(self.lit(op[1]))
            elif k == "assignment":
                r = self.dump(control.assignment)
            elif k == "thread":
                r = control.thread_id
            elif k == "raise":
                self.throw(op[1])
            self.ev(k, r)
        return True

    def propagate(self, control, changes):
        self.ev("propagate", control.thread_id, list(changes), self.dump(control.assignment, False))
        self.control_ops(control, self.next_ops("propagate"))

    def check(self, control):
        self.ev("check", control.thread_id, self.dump(control.assignment, False))
        self.control_ops(control, self.next_ops("check"))

    def undo(self, thread_id, assignment, changes):
        self.ev("undo", thread_id, list(changes), self.dump(assignment, False))
        for op in self.next_ops("undo"):
            if op[0] == "assignment":
                self.ev("assignment", self.dump(assignment))

    def decide(self, thread_id, assignment, fallback):
        ops = self.next_ops("decide")
        r = fallback
        for op in ops:
            if op[0] == "lit":
                l = self.lit(op[1])
                if assignment.value(l) is None and assignment.has_literal(l):
                    r = l
            elif op[0] == "zero":
                r = 0
            elif op[0] == "neg":
                r = -fallback
            elif op[0] == "assignment":
                self.ev("assignment", self.dump(assignment))
            elif op[0] == "raise":
                self.throw(op[1])
        self.ev("decide", thread_id, fallback, r, self.dump(assignment, False))
        return r


# ---------------------------------------------------------------- session

class Nondet(Exception):
    pass


class Session:
    propagator_class = ScriptedPropagator
    lua = False

    def __init__(self, api, case, tmp):
        self.api, self.case, self.tmp = api, case, tmp
        self.lua = getattr(api, "lua_", False)
        self.trace, self.buf, self.dropped = [], None, 0
        self.thrown = None
        self.ctl = None

    # -- recording
    def event(self, e):
        t = self.trace if self.buf is None else self.buf
        if len(t) < MAXEV:
            t.append(e)
        else:
            self.dropped += 1

    def throw(self, kind):
        self.thrown = make_exc(kind)
        self.event(["throw", kind])
        raise self.thrown

    def exc(self, e):
        if e is self.thrown:
            self.thrown = None
            return ["exc", "user", type(e).__name__, str(e)]
        if isinstance(e, (AssertionError,)):
            return ["exc", "assertion", str(e)]
        return ["exc", type(e).__name__, str(e)]

    def run(self):
        api = self.api
        api.clear_log()
        logger = (lambda c, m: self.event(["log", c, m.replace(self.tmp, "TMP")])) if self.case.get("logger", True) else None
        try:
            try:
                self.ctl = api.control(self.case.get("args", []), logger, self.case.get("limit", 20))
            except (RuntimeError, MemoryError) as e:
                self.event(self.exc(e))
                return self.trace
            for i, op in enumerate(self.case["ops"]):
                self.event(["op", i, op[0]])
                try:
                    r = getattr(self, "op_" + op[0])(*op[1:])
                    self.event(["ret", norm(r)])
                    if self.case.get("stop") and any(e[0] == "throw" for e in self.trace):
                        break
                except Nondet:
                    # how far the search got depends on the schedule
                    if self.case.get("stop"):
                        break
                    self.buf = []
                    try:
                        sat = str(self.ctl.solve().satisfiable)
                    except (Exception, UBase) as e:  # noqa: B902
                        sat = None
                    self.buf = None
                    if any(o[0] in ("propagator", "observe") for o in self.case["ops"]):
                        sat = None
                    self.event(["again", sat])
                    break
                except (Exception, UBase) as e:  # noqa: B902
                    if isinstance(e, pbt.Violation):
                        raise
                    self.event(self.exc(e))
                    if self.case.get("stop") or op[0] in ("ground", "backend", "observe", "load", "add", "add1") and e is not None:
                        # the control object's state after failed grounding is unspecified
                        break
        finally:
            if self.ctl is not None:
                api.free(self.ctl)
        lg = api.log()
        if lg:
            self.trace.append(["compat", lg.replace(self.tmp, "TMP")])
        if self.dropped:
            self.trace.append(["dropped", self.dropped])
        return self.trace

    def symref(self, x):
        return x if isinstance(x, int) else self.api.mk(x)

    def assumption(self, x):
        return x if isinstance(x, int) else (self.api.mk(x[0]), x[1])

    # -- operations
    def op_add(self, name, params, text):
        self.ctl.add(name, params, text)

    def op_add1(self, text):
        self.api.add1(self.ctl, text)

    def op_load(self, text):
        p = os.path.join(self.tmp, "prg.lp")
        with open(p, "w") as f:
            f.write(text)
        self.ctl.load(p)

    def op_loadmissing(self):
        self.ctl.load(os.path.join(self.tmp, "missing.lp"))

    def op_ground(self, parts, functions=None):
        fs = None
        if functions is not None:
            fs = {n: self.fun(n, script) for n, script in functions.items()}
        self.api.ground_ctx(self.ctl, [(n, [self.api.mk(a) for a in args]) for n, args in parts], fs)

    def op_multi(self, params, args):
        """a program part with many parameters"""
        n = "multi%d" % len(params)
        ps = ",".join(params)
        self.ctl.add(n, params, "m(%s). {k(%s)} :- m(%s). #external e(%s)." % (ps, params[-1] if params else 0, ps, params[0] if params else 7))
        self.api.ground_ctx(self.ctl, [(n, [self.api.mk(a) for a in args])], None)

    def fun(self, name, script):
        """script: list of behaviours for successive calls (the last one repeats)"""
        n = [0]

        def call(*args):
            self.event(["call", name, [str(a) for a in args]])
            b = script[min(n[0], len(script) - 1)]
            n[0] += 1
            k = b[0]
            if k == "one":
                return self.api.mk(b[1])
            if k == "arg":
                return args[b[1] % len(args)] if args else []
            if k == "many":
                return [self.api.mk(t) for t in b[1]]
            if k == "args":
                return list(args)
            if k == "wrap":
                return [self.api.mk(["f", "w", [], True])] + list(args)
            if k == "raise":
                self.throw(b[1])
        return call

    def op_assign(self, x, truth):
        self.ctl.assign_external(self.symref(x), truth)

    def op_release(self, x):
        self.ctl.release_external(self.symref(x))

    def op_cleanup(self):
        self.ctl.cleanup()

    def op_const(self, name):
        return self.ctl.get_const(name)

    def op_attr(self, name, value=None):
        if value is not None:
            setattr(self.ctl, name, value)
        return getattr(self.ctl, name)

    def op_interrupt(self):
        self.ctl.interrupt()

    def op_conf(self, path):
        return self.api.conf_info(self.ctl, path)

    def op_conf_walk(self):
        return self.api.conf_walk(self.ctl)

    def op_conf_set(self, path, v):
        return self.api.conf_set(self.ctl, path, v)

    def op_conf_desc(self, path):
        return self.api.conf_desc(self.ctl, path)

    def op_stats(self):
        s = self.ctl.statistics

        def scrub(x, name=""):
            if isinstance(x, dict):
                return {k: scrub(v, k) for k, v in x.items()}
            if isinstance(x, list):
                return [scrub(v, name) for v in x]
            return "time" if name in ("total", "cpu", "solve", "unsat", "sat", "time", "cpu_time") else x
        return scrub(s)

    def op_parse_term(self, text):
        return str(self.api.parse_term(text, (lambda c, m: self.event(["log", norm(c), m])), 20))

    def atoms_dump(self, atoms, lookup=()):
        def one(a):
            return None if a is None else [str(a.symbol), a.literal, a.is_fact, a.is_external]
        sigs = atoms.signatures
        syms = [a.symbol for a in atoms][:30]
        return [[[one(atoms[x])[1:2], x in atoms] for x in syms], [one(a) for a in atoms], len(atoms), norm(sigs),
                [[norm(x), [one(a) for a in atoms.by_signature(*x)]] for x in sigs],
                [[one(atoms[self.api.mk(t)]), self.api.mk(t) in atoms] for t in lookup]]

    def op_atoms(self, lookup=(), sigs=()):
        at = self.ctl.symbolic_atoms
        return [self.atoms_dump(at, lookup), [[[str(a.symbol), a.literal] for a in at.by_signature(*x)] for x in sigs]]

    def op_theory(self):
        return self.api.theory(self.ctl)

    def op_remove_minimize(self):
        self.ctl.remove_minimize()

    def op_project(self, how, atoms):
        if how == "remove":
            self.ctl.remove_project()
        else:
            getattr(self.ctl, how + "_project")([self.symref(a) for a in atoms])

    def op_register_backend(self, type_, file, replace, sccs, steps):
        self.ctl.register_backend(self.api.enum("backend", type_), file, replace, sccs, steps)

    def op_load_aspif(self, files):
        self.ctl.load_aspif(files)

    def op_fail(self, n):
        """the next call of one of the functions of compat58 fails"""
        self.api.fail_next(n)

    def op_observe(self, events, replace=False, style="derived", raise_at=None, kind="plain"):
        n = [0]

        def rec(name, args):
            n[0] += 1
            self.event(["obs", name, norm(args)])
            if raise_at is not None and n[0] == raise_at:
                self.throw(kind)
        self.api.observer(self.ctl, rec, events, replace, style)

    def op_propagator(self, script, methods, style="derived"):
        self.api.propagator(self.ctl, self.propagator_class(self, script), methods, style)

    def op_backend(self, stms):
        """statements; ids are referenced by index into the lists of what was created"""
        ctl, api = self.ctl, self.api
        atoms, terms, elems = self.__dict__.setdefault("b_atoms", []), [], []

        def lit(r):
            if not atoms:
                return 1 if r > 0 else -1
            a = atoms[(abs(r) - 1) % len(atoms)]
            return a if r > 0 else -a

        new, water = [], 0

        def atom(r):
            return new[(abs(r) - 1) % len(new)] if new else water

        def L(xs):
            return [lit(x) for x in xs]

        def W(xs):
            return [(lit(x), w) for x, w in xs]

        def T(xs):
            return [terms[x % len(terms)] for x in xs] if terms else []

        def body(b):
            nonlocal water
            # atoms of earlier steps must not be redefined
            water = b.add_atom()
            for st in stms:
                k, a = st[0], st[1:]
                r = None
                if k == "atom":
                    r = b.add_atom(*[api.mk(x) for x in a])
                    atoms.append(r)
                    if r > water:
                        new.append(r)
                elif k == "rule":
                    if a[1] or not a[0]:
                        r = b.add_rule([atom(x) for x in a[0]], L(a[1]), *a[2:])
                    else:
                        # leave out the body
                        r = b.add_rule([atom(x) for x in a[0]], **dict(zip(["choice"], a[2:])))
                elif k == "wrule":
                    r = b.add_weight_rule([atom(x) for x in a[0]], a[1], W(a[2]), *a[3:])
                elif k == "minimize":
                    r = b.add_minimize(a[0], W(a[1]))
                elif k == "project":
                    r = b.add_project([atom(x) for x in a[0]])
                elif k == "external":
                    r = b.add_external(atom(a[0]), *[api.enum("ext", x) for x in a[1:]])
                elif k == "assume":
                    r = b.add_assume(L(a[0]))
                elif k == "heuristic":
                    r = b.add_heuristic(atom(a[0]), api.enum("heu", a[1]), a[2], a[3], L(a[4]))
                elif k == "edge":
                    r = b.add_acyc_edge(a[0], a[1], L(a[2]))
                elif k == "tnum":
                    r = b.add_theory_term_number(*a)
                    terms.append(r)
                elif k == "tstr":
                    r = b.add_theory_term_string(*a)
                    terms.append(r)
                elif k == "tsym":
                    r = b.add_theory_term_symbol(api.mk(a[0]))
                    terms.append(r)
                elif k == "tfun":
                    r = b.add_theory_term_function(a[0], T(a[1]))
                    terms.append(r)
                elif k == "tseq":
                    r = b.add_theory_term_sequence(api.enum("seq", a[0]), T(a[1]))
                    terms.append(r)
                elif k == "elem":
                    r = b.add_theory_element(T(a[0]), L(a[1]))
                    elems.append(r)
                elif k == "tatom" and terms:
                    at = [] if a[2] is None else [0 if a[2] == 0 else atom(a[2])]
                    r = b.add_theory_atom(T([a[0]])[0], [elems[x % len(elems)] for x in a[1]] if elems else [], *at)
                    if r:
                        atoms.append(r)
                elif k == "tgatom" and terms:
                    at = [] if a[4] is None else [0 if a[4] == 0 else atom(a[4])]
                    r = b.add_theory_atom_with_guard(T([a[0]])[0], [elems[x % len(elems)] for x in a[1]] if elems else [],
                                                     a[2], T([a[3]])[0], *at)
                    if r:
                        atoms.append(r)
                elif k == "raise":
                    self.throw(a[0])
                self.event(["bret", k, norm(r)])

        api.with_backend(ctl, body)

    # -- solving
    def model_dump(self, m):
        return [str(m), m.number, m.type, m.cost, m.priority, m.optimality_proven, m.thread_id,
                [[str(x) for x in m.symbols(**{f: True})] for f in ("atoms", "terms", "shown", "theory")]]

    def model_truth(self, m):
        r = []
        for a in m.context.symbolic_atoms:
            l = a.literal
            r.append([str(a.symbol), m.contains(a.symbol), m.is_true(l), m.is_true(-l), m.is_consequence(l), m.is_consequence(-l)])
        return r

    def model_ops(self, m, ops):
        ret = None
        for op in ops:
            k = op[0]
            r = None
            if k == "dump":
                r = self.model_dump(m)
            elif k == "symbols":
                r = [str(x) for x in self.api.sequence(m.symbols(**op[1]))]
            elif k == "truth":
                r = self.model_truth(m)
            elif k == "contains":
                try:
                    r = m.contains(self.api.mk(op[1]))
                except RuntimeError as e:
                    r = ["exc", str(e)]
            elif k == "extend":
                m.extend([self.api.mk(t) for t in op[1]])
                r = [str(x) for x in m.symbols(theory=True)]
            elif k in ("clause", "nogood"):
                getattr(m.context, "add_" + k)([self.assumption(x) for x in op[1]])
            elif k == "raise":
                self.throw(op[1])
            elif k == "ret":
                ret = op[1]
                continue
            self.event(["model", k, norm(r)])
        return ret

    def op_solve(self, kw):
        return self.solve(**kw)

    def solve(self, mode="sync", assumptions=(), model=None, unsat=None, stats=None, finish=None, core=None, last=None,
                 hops=(), capture=False):
        s, kw = self, {}
        nm = [0]
        if model is not None:
            def on_model(m):
                i = nm[0]
                nm[0] += 1
                ops = model[i] if i < len(model) else [["dump"]]
                return s.model_ops(m, ops)
            kw["on_model"] = on_model
        if unsat is not None:
            nu = [0]

            def on_unsat(lower):
                s.event(["unsat", norm(lower)])
                nu[0] += 1
                if unsat and nu[0] == unsat[0]:
                    s.throw(unsat[1])
            kw["on_unsat"] = on_unsat
        if stats is not None:
            def on_statistics(step, accu):
                s.event(["statistics"])
                for op in stats:
                    if op[0] == "raise":
                        s.throw(op[1])
                    tgt = step if op[0] == "step" else accu
                    s.api.stats_set(tgt, op[1], op[2])
                    s.event(["stats", s.api.stats_dump(tgt)])
            kw["on_statistics"] = on_statistics
        if finish is not None:
            def on_finish(res):
                s.event(["finish", s.result(res)])
                if finish:
                    s.throw(finish[0])
            kw["on_finish"] = on_finish
        if core is not None:
            def on_core(c):
                s.event(["core", norm(c)])
                if core:
                    s.throw(core[0])
            kw["on_core"] = on_core
        if last is not None:
            def on_last(m):
                s.event(["last"])
                s.model_ops(m, last)
            kw["on_last"] = on_last
        ass = [self.assumption(x) for x in assumptions]
        if mode == "sync":
            return self.result(self.ctl.solve(ass, **kw))
        y, a = "yield" in mode, "async" in mode
        if a:
            # callbacks come from another thread
            self.buf = []
        try:
            with self.ctl.solve(ass, yield_=y, async_=a, **kw) as h:
                for hop in hops:
                    if hop[0] == "body_raise":
                        self.throw(hop[1])
                    try:
                        r = self.hop(h, hop)
                        e = ["hop", hop[0], norm(r)]
                    except (Exception, UBase) as ex:  # noqa: B902
                        e = ["hop", hop[0], self.exc(ex)]
                    if a:
                        self.trace.append(e)
                    else:
                        self.event(e)
        finally:
            if a:
                buf, self.buf = self.buf, None
                complete = any(h[0] == "get" for h in hops) if not y else any(h[0] == "iter" and h[1] >= 1000 for h in hops)
                if complete and not any(h[0] == "cancel" for h in hops):
                    for e in buf:
                        self.event(["async", e])
                else:
                    raise Nondet
        return None

    def result(self, r):
        return [str(r), r.satisfiable, r.unsatisfiable, r.unknown, r.exhausted, r.interrupted]

    def hop(self, h, hop):
        k = hop[0]
        if k == "resume":
            h.resume()
        elif k == "model":
            m = h.model()
            if m is None:
                return None
            if self.buf is not None:
                # in asynchronous mode record into the main trace
                b, self.buf = self.buf, None
                try:
                    self.model_ops(m, hop[1])
                finally:
                    self.buf = b
            else:
                self.model_ops(m, hop[1])
            return True
        elif k == "wait":
            return h.wait(*hop[1:])
        elif k == "peek":
            h.wait(0.0)
        elif k == "get":
            return self.result(h.get())
        elif k == "cancel":
            h.cancel()
        elif k == "core":
            return h.core()
        elif k == "last":
            m = h.last()
            return None if m is None else [str(m), m.number]
        elif k == "iter":
            n = 0
            for m in h:
                self.model_ops(m, hop[2])
                n += 1
                if n == hop[1]:
                    break
            return n
        return None


def run(api, case):
    tmp = tempfile.mkdtemp(prefix="sess-")
    try:
        return Session(api, case, tmp).run(), tmp
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def scrub(trace, tmp):
    import json
    return json.loads(json.dumps(trace).replace(tmp, "TMP"))


def diff(a, b):
    """first difference of two traces"""
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "<end>"
        y = b[i] if i < len(b) else "<end>"
        if x != y:
            ctx = "\n".join(f"   {e}"[:500] for e in a[max(0, i - 4):i])
            return f"traces differ at event {i} after\n{ctx}\n  reference: {str(x)[:1500]}\n  observed:  {str(y)[:1500]}"
    return None
