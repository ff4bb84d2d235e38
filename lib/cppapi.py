"""clingo.hh of /repo (made available by the module cppclingo) presented like the other bindings, so that sess.Session can
run histories through it, and the restriction of histories to what the C++ interface offers."""
import copy
import importlib.machinery
import importlib.util
import json

import refclingo
import sess

_mod = []


def module(path=None):
    """the compiled module"""
    if not _mod:
        refclingo.raw()
        loader = importlib.machinery.ExtensionFileLoader("cppclingo", path)
        m = importlib.util.module_from_spec(importlib.util.spec_from_loader("cppclingo", loader))
        loader.exec_module(m)
        _mod.append(m)
    return _mod[0]


def check(ok, what):
    if not ok:
        raise AssertionError(what)


MODEL = refclingo.MODEL_TYPE


class CAtom:
    def __init__(self, t):
        self.symbol, self.literal, self.is_fact, self.is_external = t


class CAtoms:
    def __init__(self, api, r):
        self.api, self.r = api, r

    def __iter__(self):
        return map(CAtom, self.r.list(None, self.api.alt()))

    def __len__(self):
        return len(self.r)

    def __getitem__(self, s):
        a = self.r.find(s)
        return None if a is None else CAtom(a)

    def __contains__(self, s):
        return self.r.find(s) is not None

    def by_signature(self, name, arity, positive=True):
        return map(CAtom, self.r.list((name, arity, positive), self.api.alt()))

    @property
    def signatures(self):
        return self.r.signatures


class CSolveControl:
    def __init__(self, api, r):
        self.api, self.r = api, r

    @property
    def symbolic_atoms(self):
        return CAtoms(self.api, self.r.symbolic_atoms)

    def add_clause(self, lits):
        self.r.add_clause(lits, any(not isinstance(x, int) for x in lits) if lits else bool(self.api.alt() % 2))

    def add_nogood(self, lits):
        self.add_clause([-x if isinstance(x, int) else (x[0], not x[1]) for x in lits])


class CModel:
    def __init__(self, api, r):
        self.api, self.r = api, r

    def symbols(self, atoms=False, terms=False, shown=False, theory=False, complement=False):
        f = 2 * shown + 4 * atoms + 8 * terms + 16 * theory + 32 * complement
        r = self.r.symbols(f)
        if f == 2:
            check(r == self.r.symbols(2), "symbols")
        if f == 30:
            check(r == self.r.symbols(30), "all symbols")
        return r

    def __str__(self):
        t = [str(x) for x in self.r.symbols(2)]
        check(str(self.r) == "{ " + ", ".join(t) + " }" or not t and str(self.r) == "{ }", f"printing the model {t} as {self.r}")
        return " ".join(t)

    contains = property(lambda self: self.r.contains)
    is_true = property(lambda self: self.r.is_true)
    is_consequence = property(lambda self: self.r.is_consequence)
    cost = property(lambda self: self.r.cost)
    priority = property(lambda self: self.r.priority)
    number = property(lambda self: self.r.number)
    optimality_proven = property(lambda self: self.r.optimality_proven)
    thread_id = property(lambda self: self.r.thread_id)
    type = property(lambda self: MODEL[self.r.type])
    context = property(lambda self: CSolveControl(self.api, self.r.context))

    def extend(self, symbols):
        self.r.extend(symbols)


class CResult:
    """the fields agree"""
    def __init__(self, t):
        bits, sat, unsat, unknown, self.exhausted, self.interrupted, text = t
        self.satisfiable = True if sat else False if unsat else None
        self.unsatisfiable = None if self.satisfiable is None else not self.satisfiable
        self.unknown = unknown
        check(sat == bool(bits & 1) and unsat == bool(bits & 2) and unknown == (not sat and not unsat) and self.exhausted == bool(bits & 4)
              and self.interrupted == bool(bits & 8), f"fields of the result {t}")
        want = ("SATISFIABLE" + ("" if self.exhausted else "+") if sat else "UNSATISFIABLE" if unsat else "UNKNOWN") + ("/INTERRUPTED" if self.interrupted else "")
        check(text == want, f"result {t} printed as {text}")

    def __str__(self):
        return {True: "SAT", False: "UNSAT", None: "UNKNOWN"}[self.satisfiable]


class CHandle:
    def __init__(self, api, r):
        self.api, self.r = api, r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.r.close()
        return False

    def get(self):
        return CResult(self.r.get())

    def wait(self, timeout=None):
        return self.r.wait(timeout)

    def model(self):
        m = self.r.model()
        return None if m is None else CModel(self.api, m)

    def next(self):
        m = self.r.next()
        return None if m is None else CModel(self.api, m)

    def last(self):
        m = self.r.last()
        return None if m is None else CModel(self.api, m)

    def core(self):
        return self.r.core()

    def resume(self):
        self.r.resume()

    def cancel(self):
        self.r.cancel()

    def loop(self, fun):
        """fun says if to continue"""
        self.r.loop(lambda m: fun(CModel(self.api, m)), self.api.alt())


class RefHandle(refclingo.SolveHandle):
    def next(self):
        self.resume()
        return self.model()

    def loop(self, fun):
        m = self.model()
        while m is not None and fun(m):
            self.resume()
            m = self.model()


class CTrail:
    def __init__(self, lst, levels):
        self.lst, self.levels = lst, levels

    def list(self):
        return self.lst

    def begin(self, level):
        return self.levels[level][0]

    def end(self, level):
        return self.levels[level][1]


class CAssignment:
    def __init__(self, r):
        self.r = r

    def __getattr__(self, name):
        return getattr(self.r, name)

    def is_free(self, l):
        return self.r.value(l) is None

    @property
    def trail(self):
        return CTrail(*self.r.trail())

    def list(self):
        return self.r.list()


class CInit:
    def __init__(self, api, r):
        self.api, self.r = api, r

    add_clause = property(lambda self: self.r.add_clause)
    remove_watch = property(lambda self: self.r.remove_watch)
    add_watch = property(lambda self: self.r.add_watch)
    freeze_literal = property(lambda self: self.r.freeze_literal)
    propagate = property(lambda self: self.r.propagate)
    solver_literal = property(lambda self: self.r.solver_literal)
    number_of_threads = property(lambda self: self.r.number_of_threads)
    assignment = property(lambda self: CAssignment(self.r.assignment))
    symbolic_atoms = property(lambda self: CAtoms(self.api, self.r.symbolic_atoms))
    theory = property(lambda self: self.r.theory)
    check_mode = property(lambda self: refclingo.CHECK_MODE[self.r.get_check_mode()], lambda self, m: self.r.set_check_mode(m))
    undo_mode = property(lambda self: refclingo.UNDO_MODE[self.r.get_undo_mode()], lambda self, m: self.r.set_undo_mode(m))

    def add_literal(self, freeze=None):
        return self.r.add_literal(freeze)

    def add_minimize(self, lit, w, prio=None):
        self.r.add_minimize(lit, w, prio)

    def add_weight_constraint(self, lit, lits, bound, type_=0, eq=None):
        return self.r.add_weight_constraint(lit, lits, bound, type_, bool(eq), eq is None)


class CPropagateControl:
    def __init__(self, api, r):
        self.api, self.r = api, r

    def __getattr__(self, name):
        return getattr(self.r, name)

    assignment = property(lambda self: CAssignment(self.r.assignment))

    def add_clause(self, lits, tag=False, lock=False):
        return self.r.add_clause(lits, tag, lock)

    def add_nogood(self, lits, tag=False, lock=False):
        return self.r.add_clause([-l for l in lits], tag, lock)


class CBackend:
    def __init__(self, r):
        self.r = r

    def add_acyc_edge(self, u, v, cond):
        self.r.acyc_edge(u, v, cond)

    def add_assume(self, lits):
        self.r.assume(lits)

    def add_atom(self, sym=None):
        return self.r.add_atom(sym)

    def add_external(self, atom, value="False_"):
        self.r.external(atom, value)

    def add_heuristic(self, atom, type_, bias, prio, cond):
        self.r.heuristic(atom, type_, bias, prio, cond)

    def add_minimize(self, prio, lits):
        self.r.minimize(prio, lits)

    def add_project(self, atoms):
        self.r.project(atoms)

    def add_rule(self, head, body=(), choice=False):
        self.r.rule(choice, head, body)

    def add_weight_rule(self, head, lower, body, choice=False):
        self.r.weight_rule(choice, head, lower, body)

    def add_theory_term_number(self, n):
        return self.r.tnum(n)

    def add_theory_term_string(self, x):
        return self.r.tstr(x)

    def add_theory_term_function(self, name, args):
        return self.r.tfun(name, args)

    def add_theory_term_sequence(self, t, args):
        return self.r.tseq(t, args)

    def add_theory_term_symbol(self, sym):
        return self.r.tsym(sym)

    def add_theory_element(self, terms, cond):
        return self.r.elem(terms, cond)

    def add_theory_atom(self, term, elems, atom=None):
        return self.r.tatom(term, elems, atom)

    def add_theory_atom_with_guard(self, term, elems, op, rhs, atom=None):
        return self.r.tgatom(term, elems, op, rhs, atom)


class CConf:
    """a configuration entry and the entry it is part of"""
    def __init__(self, r, up=None, name=None):
        self.r, self.up, self.name = r, up, name

    def type(self):
        return self.r.is_value + 2 * self.r.is_array + 4 * self.r.is_map

    def sub(self, name):
        if self.type() & 4 and name in self.keys:
            return CConf(self.r.sub(name), self.r, name)
        if self.type() & 4:
            try:
                self.r.sub(name)
            except RuntimeError:
                # a path of names is accepted, too
                pass
        return None

    @property
    def keys(self):
        return self.r.keys if self.type() & 4 else None

    def __len__(self):
        return self.r.len if self.type() & 2 else 0

    def at(self, i):
        return CConf(self.r.idx(i))

    def value(self):
        return self.r.value

    def set(self, v):
        if self.up is None:
            raise AssertionError("cannot set")
        self.up.set(self.name, v)

    def desc(self):
        return self.r.desc()


class CStats:
    def __init__(self, api, r):
        self.api, self.r = api, r

    def type_of(self, v):
        return 2 if isinstance(v, list) else 3 if isinstance(v, dict) else 1

    def set(self, name, v):
        if self.r.has(name) and self.api.alt() % 2:
            r = self.r.at(name)
        else:
            r = self.r.add(name, self.type_of(v))
        self.assign(r, v)

    def assign(self, r, v):
        if isinstance(v, dict):
            for k, x in v.items():
                CStats(self.api, r).set(k, x)
        elif isinstance(v, list):
            n = r.size()
            if v and isinstance(v[0], float) and self.api.alt() % 2:
                r.ensure(len(v), 1)
                n = len(v)
            for i, x in enumerate(v):
                self.assign(r.idx(i) if i < n else r.push(self.type_of(x)), x)
        else:
            r.set_value(v)


class CControl:
    def __init__(self, api, r):
        self.api, self.r = api, r

    def add(self, name, params, text):
        self.r.add(name, params, text)

    def load(self, path):
        self.r.load(path)

    def assign_external(self, x, truth):
        (self.r.assign_lit if isinstance(x, int) else self.r.assign_sym)(x, truth)

    def release_external(self, x):
        (self.r.release_lit if isinstance(x, int) else self.r.release_sym)(x)

    cleanup = property(lambda self: self.r.cleanup)
    interrupt = property(lambda self: self.r.interrupt)
    get_const = property(lambda self: self.r.get_const)
    is_conflicting = property(lambda self: self.r.is_conflicting)
    configuration = property(lambda self: CConf(self.r.configuration))
    symbolic_atoms = property(lambda self: CAtoms(self.api, self.r.symbolic_atoms))
    theory = property(lambda self: self.r.theory)
    enable_cleanup = property(lambda s: s.r.enable_cleanup, lambda s, v: setattr(s.r, "enable_cleanup", v))
    enable_enumeration_assumption = property(lambda s: s.r.enable_enumeration_assumption,
                                             lambda s, v: setattr(s.r, "enable_enumeration_assumption", v))

    def solve(self, assumptions=(), on_model=None, on_unsat=None, on_statistics=None, on_finish=None, on_core=None, on_last=None,
              yield_=False, async_=False):
        api, ns = self.api, {}
        if on_model is not None:
            def model(_, m):
                r = on_model(CModel(api, m))
                return r is None or bool(r)
            ns["on_model"] = model
        if on_unsat is not None:
            ns["on_unsat"] = lambda _, lower: on_unsat(lower)
        if on_statistics is not None:
            ns["on_statistics"] = lambda _, s, a: on_statistics(CStats(api, s), CStats(api, a))
        if on_finish is not None:
            ns["on_finish"] = lambda _, r: on_finish(CResult(r))
        handler = type("Handler", (), ns)() if ns else None
        symbolic = any(not isinstance(x, int) for x in assumptions) if assumptions else bool(api.alt() % 2)
        h = CHandle(api, self.r.solve(list(assumptions), symbolic, handler, async_, yield_, api.alt()))
        if yield_ or async_:
            return h
        with h:
            ret = h.get()
            if on_core is not None and ret.unsatisfiable:
                on_core(h.core())
            if on_last is not None:
                m = h.last()
                if m is not None:
                    on_last(m)
            return ret


HEU_DEFAULT = None


class CppApi(sess.RefApi):
    name = "c++"

    def __init__(self, path, case):
        super().__init__()
        self.m = module(path)
        self.count = case.get("alt", 0)

    def alt(self):
        self.count += 1
        return self.count

    def logger(self, f):
        return f and (lambda code, name, msg: f(refclingo.MSG[code], msg))

    def control(self, args, logger, limit):
        return CControl(self, self.m.Control(args, self.logger(logger), limit, self.alt()))

    def free(self, ctl):
        ctl.r.free()
        e = self.m.take_error()
        check(not e, e)

    def mk(self, t):
        k = t[0]
        if k == "n":
            return self.m.Number(t[1])
        if k == "s":
            return self.m.String(t[1])
        if k == "f":
            return self.m.Function(t[1], [self.mk(x) for x in t[2]], t[3], self.alt())
        return self.m.Infimum() if k == "inf" else self.m.Supremum()

    def parse_term(self, text, logger=None, limit=20):
        return self.m.parse_term(text, self.logger(logger), limit)

    def ground_ctx(self, ctl, parts, functions):
        def call(loc, name, args):
            check(loc == self.loc_want or self.loc_want is None, f"location {loc}")
            if name not in functions:
                raise AttributeError(f"no function {name}")
            r = functions[name](*args)
            r = list(r) if isinstance(r, (list, tuple)) else [r]
            k = self.alt() % 3
            return [r] if k == 0 else [[x] for x in r] if k == 1 else [r[:1], [], r[1:]]
        self.loc_want = None
        ctl.r.ground(parts, call if functions is not None else None)

    def observer(self, ctl, rec, events, replace, style):
        ctl.r.register_observer(lambda n, a: rec(n, a), events, replace if replace or self.alt() % 2 else None)

    def propagator(self, ctl, p, methods, style):
        d = {"init": lambda _, i: p.init(CInit(self, i)), "propagate": lambda _, c, ch: p.propagate(CPropagateControl(self, c), ch),
             "undo": lambda _, t, a, ch: p.undo(t, CAssignment(a), ch), "check": lambda _, c: p.check(CPropagateControl(self, c)),
             "decide": lambda _, t, a, f: p.decide(t, CAssignment(a), f)}
        obj = type("Prop", (), {m: d[m] for m in methods})()
        ctl.r.register_propagator(obj, "decide" in methods or style == "duck", [None, False][self.alt() % 2])

    def with_backend(self, ctl, body):
        if self.alt() % 2:
            ctl.r.with_backend(lambda b: body(CBackend(b)))
            return
        b = ctl.r.backend(self.alt())
        try:
            body(CBackend(b))
        finally:
            b.close()

    def trail(self, a):
        t = a.trail
        return t.list(), t

    def conf_walk(self, ctl):
        return ctl.configuration.r.walk()

    def stats_dump(self, st):
        return st.r.dump()


class RefCpp(sess.RefApi):
    """the reference, limited to what C++ offers"""
    def control(self, args, logger, limit):
        return RefControl(args, logger, limit)

    def propagator(self, ctl, p, methods, style):
        class W:
            def init(self, i):
                p.init(i)

            def propagate(self, c, ch):
                p.propagate(c, ch)

            def check(self, c):
                p.check(c)

            def undo(self, t, a, ch):
                p.undo(t, a, ch)

            def decide(self, t, a, fb):
                return p.decide(t, a, fb)
        w = W()
        for m in ("init", "propagate", "check", "undo"):
            if m not in methods:
                setattr(w, m, lambda *a: None)
        ms = ["init", "propagate", "check", "undo"]
        if "decide" in methods:
            ms.append("decide")
        elif style == "duck":
            w.decide = lambda t, a, fb: 0
            ms.append("decide")
        ctl.register_propagator(w, ms)


class RefControl(refclingo.Control):
    null_event = True

    def assign_external(self, x, truth):
        if isinstance(x, int) or self.symbolic_atoms.get(x) is not None:
            super().assign_external(x, truth)

    def release_external(self, x):
        if isinstance(x, int) or self.symbolic_atoms.get(x) is not None:
            super().release_external(x)

    def solve(self, *a, **kw):
        r = super().solve(*a, **kw)
        if isinstance(r, refclingo.SolveHandle):
            r.__class__ = RefHandle
        return r


KINDS = ["runtime_error", "range_error", "logic_error", "out_of_range", "bad_alloc", "UserError", "PlainError", "int", "string"]


class CppUser(Exception):
    """stands for an exception of a C++ type"""


class CppSession(sess.Session):
    def hop(self, h, hop):
        k = hop[0]
        if k == "iter":
            n = [0]

            def fun(m):
                self.model_ops(m, hop[2])
                n[0] += 1
                return n[0] != hop[1]
            h.loop(fun)
            return n[0]
        if k == "next":
            m = h.next()
            if m is None:
                return None
            self.model_ops(m, hop[1])
            return True
        return super().hop(h, hop)

    def event(self, e):
        if e[0] == "obs":
            e = json.loads(json.dumps(e).replace('True_"', 'True"').replace('False_"', 'False"'))
        super().event(e)

    def exc(self, e):
        t = self.thrown
        r = super().exc(e)
        if r[1] == "CppError":
            r = ["exc", {"runtime_error": "RuntimeError", "bad_alloc": "MemoryError", "logic_error": "RuntimeError"}.get(e.kind, e.kind), str(e)]
        return r

    def run(self):
        return [e for e in super().run() if e[0] != "compat"]


# ---------------------------------------------------------------- restriction of histories

def homogeneous(l):
    """only literals or only symbols"""
    if not l:
        return l
    return [x for x in l if isinstance(x, int) == isinstance(l[0], int)]


def mops(ops, callback):
    r = []
    for op in ops:
        if op[0] == "extend" and not callback:
            continue
        if op[0] in ("clause", "nogood"):
            op = [op[0], homogeneous(op[1])]
        r.append(op)
    return r


def fix_solve(kw):
    kw = dict(kw)
    kw["assumptions"] = homogeneous(kw.get("assumptions", []))
    kw.pop("capture", None)
    for k in ("unsat", "stats", "finish"):
        if k in kw:
            # the library terminates if one of these fails
            kw[k] = [x for x in kw[k] if x[0] != "raise"] if k == "stats" else []
    if kw.get("model") is not None:
        kw["model"] = [mops(o, True) for o in kw["model"]]
    if kw.get("last") is not None:
        kw["last"] = mops(kw["last"], False)
    hops = []
    for i, h in enumerate(kw.get("hops", [])):
        if h[0] == "iter":
            h = ["iter", h[1], mops(h[2], False)]
        elif h[0] == "model":
            h = [["model", "next"][(i * 7 + len(kw["hops"])) % 3 == 0], mops(h[1], False)]
        hops.append(h)
    kw["hops"] = hops
    return kw


def cppize(case):
    c = copy.deepcopy(case)
    ops = []
    for op in c["ops"]:
        k = op[0]
        if k == "add1":
            op = ["add", "base", [], op[1]]
        elif k in ("project", "remove_minimize", "register_backend", "load_aspif", "fail", "stats"):
            continue
        elif k == "solve":
            op = ["solve", fix_solve(op[1])]
        ops.append(op)
    c["ops"] = ops
    return c


def run(api, case):
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix="sess-")
    try:
        return CppSession(api, case, tmp).run(), tmp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
