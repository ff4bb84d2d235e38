"""Reference binding: the parts of clingo's API that the session interpreter
(sess.py) needs, written directly on the C interface (cffi ABI mode on the
installed library) and independent of the bindings of /repo."""
import os
from pathlib import Path

import rawc

HDR = str(Path(__file__).resolve().parent.parent / "bind/clingo58.h")
EXTRA = """
char const *compat58_log(void);
void compat58_clear(void);
void compat58_reset_undo(void);
void compat58_fail(int nth);
void compat58_set_last(clingo_model_t const *m);
"""
_raw = None


def raw():
    global _raw
    if _raw is None:
        import vbuild
        _raw = rawc.RawLib(os.environ.get("VP_COMPAT") or vbuild.compat_lib(), HDR, EXTRA)
        globals()["R"], globals()["ffi"], globals()["lib"] = _raw, _raw.ffi, _raw.lib
    return _raw


MODEL_TYPE = {0: "StableModel", 1: "BraveConsequences", 2: "CautiousConsequences"}
SYMBOL_TYPE = {0: "Infimum", 1: "Number", 4: "String", 5: "Function", 7: "Supremum"}
TERM_TYPE = {0: "Tuple", 1: "List", 2: "Set", 3: "Function", 4: "Number", 5: "Symbol"}
CHECK_MODE = {0: "Off", 1: "Total", 2: "Fixpoint", 3: "Both"}
UNDO_MODE = {0: "Default", 1: "Always"}
HEU = {0: "Level", 1: "Sign", 2: "Factor", 3: "Init", 4: "True_", 5: "False_"}
EXT = {0: "Free", 1: "True_", 2: "False_", 3: "Release"}
MSG = {0: "OperationUndefined", 1: "RuntimeError", 2: "AtomUndefined", 3: "FileIncluded", 4: "VariableUnbounded",
       5: "GlobalVariable", 6: "Other"}
SEQ = {0: "Tuple", 1: "Set", 2: "List"}
INV = {id(d): {v: k for k, v in d.items()} for d in (CHECK_MODE, UNDO_MODE, HEU, EXT, SEQ, MSG)}


def inv(d, name):
    return INV[id(d)][name]


class _Err:
    exc = None


def _fail(err):
    code = lib.clingo_error_code()
    if code == lib.clingo_error_unknown and err is not None and err.exc is not None:
        raise err.exc
    m = lib.clingo_error_message()
    msg = "" if m == ffi.NULL else ffi.string(m).decode()
    e = (MemoryError if code == lib.clingo_error_bad_alloc else RuntimeError)(msg)
    e.code = code
    raise e


def F(name, *args, err=None):
    if not getattr(lib, "clingo_" + name)(*args):
        _fail(err)


def V(name, ctype, *args, err=None):
    p = ffi.new(ctype + "*")
    F(name, *args, p, err=err)
    return p[0]


def s(p):
    return ffi.string(p).decode()


def syms(reps):
    return [Symbol(r) for r in reps]


class Symbol:
    def __init__(self, rep):
        self.rep = rep

    def __str__(self):
        return R.str2("clingo_symbol_to_string", self.rep)

    def __eq__(self, o):
        return isinstance(o, Symbol) and bool(lib.clingo_symbol_is_equal_to(self.rep, o.rep))

    def __hash__(self):
        return lib.clingo_symbol_hash(self.rep)

    def tree(self):
        return R.sym_tree(self.rep)


def mk(tree):
    return Symbol(R.mk(tree))


def guard(err, fun, default=False):
    """Wraps a callback: an exception is remembered and reported as unknown error."""
    def call(*args):
        try:
            r = fun(*args)
            return True if r is None else r
        except BaseException as e:  # noqa: B902
            err.exc = e
            lib.clingo_set_error(lib.clingo_error_unknown, str(e).encode(errors="backslashreplace"))
            return default
    return call


class SymAtom:
    def __init__(self, dom, it):
        self.symbol = Symbol(V("symbolic_atoms_symbol", "clingo_symbol_t", dom, it))
        self.literal = V("symbolic_atoms_literal", "clingo_literal_t", dom, it)
        self.is_fact = bool(V("symbolic_atoms_is_fact", "bool", dom, it))
        self.is_external = bool(V("symbolic_atoms_is_external", "bool", dom, it))


class SymAtoms:
    def __init__(self, dom):
        self.dom = dom

    def _iter(self, sig):
        it = V("symbolic_atoms_begin", "clingo_symbolic_atom_iterator_t", self.dom, sig)
        while V("symbolic_atoms_is_valid", "bool", self.dom, it):
            yield SymAtom(self.dom, it)
            it = V("symbolic_atoms_next", "clingo_symbolic_atom_iterator_t", self.dom, it)

    def __iter__(self):
        return self._iter(ffi.NULL)

    def get(self, sym):
        it = V("symbolic_atoms_find", "clingo_symbolic_atom_iterator_t", self.dom, sym.rep)
        return SymAtom(self.dom, it) if V("symbolic_atoms_is_valid", "bool", self.dom, it) else None

    def __getitem__(self, sym):
        return self.get(sym)

    def __contains__(self, sym):
        return isinstance(sym, Symbol) and self.get(sym) is not None

    def __len__(self):
        return V("symbolic_atoms_size", "size_t", self.dom)

    def by_signature(self, name, arity, positive=True):
        p = ffi.new("clingo_signature_t*")
        F("signature_create", name.encode(), arity, positive, p)
        return self._iter(p)

    @property
    def signatures(self):
        n = V("symbolic_atoms_signatures_size", "size_t", self.dom)
        p = ffi.new("clingo_signature_t[]", n)
        F("symbolic_atoms_signatures", self.dom, p, n)
        return [(s(lib.clingo_signature_name(x)), lib.clingo_signature_arity(x), bool(lib.clingo_signature_is_positive(x)))
                for x in p]


def theory_dump(atoms):
    """the whole theory data as nested lists"""
    def arr(name, ct, i):
        p, n = ffi.new(ct + "**"), ffi.new("size_t*")
        F("theory_atoms_" + name, atoms, i, p, n)
        return [p[0][k] for k in range(n[0])]

    def term(i):
        t = TERM_TYPE[V("theory_atoms_term_type", "clingo_theory_term_type_t", atoms, i)]
        d = {"type": t, "str": R.str2("clingo_theory_atoms_term_to_string", atoms, i), "hash": i}
        if t == "Number":
            d["number"] = V("theory_atoms_term_number", "int", atoms, i)
        if t in ("Symbol", "Function"):
            d["name"] = s(V("theory_atoms_term_name", "char const*", atoms, i))
        if t not in ("Symbol", "Number"):
            d["args"] = [term(k) for k in arr("term_arguments", "clingo_id_t const", i)]
        return d

    def elem(i):
        return {"terms": [term(k) for k in arr("element_tuple", "clingo_id_t const", i)],
                "cond": arr("element_condition", "clingo_literal_t const", i), "hash": i,
                "cid": V("theory_atoms_element_condition_id", "clingo_literal_t", atoms, i),
                "str": R.str2("clingo_theory_atoms_element_to_string", atoms, i)}

    ret = []
    for i in range(V("theory_atoms_size", "size_t", atoms)):
        d = {"term": term(V("theory_atoms_atom_term", "clingo_id_t", atoms, i)),
             "elems": [elem(k) for k in arr("atom_elements", "clingo_id_t const", i)],
             "lit": V("theory_atoms_atom_literal", "clingo_literal_t", atoms, i), "hash": i,
             "str": R.str2("clingo_theory_atoms_atom_to_string", atoms, i), "guard": None}
        if V("theory_atoms_atom_has_guard", "bool", atoms, i):
            pc, pt = ffi.new("char const**"), ffi.new("clingo_id_t*")
            F("theory_atoms_atom_guard", atoms, i, pc, pt)
            d["guard"] = [s(pc[0]), term(pt[0])]
        ret.append(d)
    return ret


class SolveResult:
    def __init__(self, rep):
        self.satisfiable = True if rep & 1 else False if rep & 2 else None
        self.unsatisfiable = None if self.satisfiable is None else not self.satisfiable
        self.unknown = self.satisfiable is None
        self.exhausted, self.interrupted = bool(rep & 4), bool(rep & 8)

    def __str__(self):
        return {True: "SAT", False: "UNSAT", None: "UNKNOWN"}[self.satisfiable]


class SolveControl:
    def __init__(self, rep):
        self.rep = rep

    @property
    def symbolic_atoms(self):
        return SymAtoms(V("solve_control_symbolic_atoms", "clingo_symbolic_atoms_t const*", self.rep))

    def add_clause(self, lits):
        l = []
        for x in lits:
            if isinstance(x, int):
                l.append(x)
                continue
            a = self.symbolic_atoms.get(x[0])
            if a is not None:
                l.append(a.literal if x[1] else -a.literal)
            elif not x[1]:
                return
        F("solve_control_add_clause", self.rep, ffi.new("clingo_literal_t[]", l), len(l))

    def add_nogood(self, lits):
        self.add_clause([-x if isinstance(x, int) else (x[0], not x[1]) for x in lits])


class Model:
    def __init__(self, rep):
        self.rep = rep

    def symbols(self, atoms=False, terms=False, shown=False, theory=False, complement=False):
        show = 2 * shown + 4 * atoms + 8 * terms + 16 * theory + 32 * complement
        n = V("model_symbols_size", "size_t", self.rep, show)
        a = ffi.new("clingo_symbol_t[]", n)
        F("model_symbols", self.rep, show, a, n)
        return syms(a)

    def __str__(self):
        return " ".join(map(str, self.symbols(shown=True)))

    def contains(self, sym):
        return bool(V("model_contains", "bool", self.rep, sym.rep))

    def is_true(self, lit):
        return bool(V("model_is_true", "bool", self.rep, lit))

    def is_consequence(self, lit):
        return {0: False, 1: True, 2: None}[V("model_is_consequence", "clingo_consequence_t", self.rep, lit)]

    def extend(self, symbols):
        F("model_extend", self.rep, ffi.new("clingo_symbol_t[]", [x.rep for x in symbols]), len(symbols))

    @property
    def cost(self):
        n = V("model_cost_size", "size_t", self.rep)
        a = ffi.new("int64_t[]", n)
        F("model_cost", self.rep, a, n)
        return list(a)

    @property
    def priority(self):
        n = V("model_cost_size", "size_t", self.rep)
        a = ffi.new("clingo_weight_t[]", n)
        F("model_priority", self.rep, a, n)
        return list(a)

    @property
    def number(self):
        return V("model_number", "uint64_t", self.rep)

    @property
    def optimality_proven(self):
        return bool(V("model_optimality_proven", "bool", self.rep))

    @property
    def thread_id(self):
        return V("model_thread_id", "clingo_id_t", self.rep)

    @property
    def type(self):
        return MODEL_TYPE[V("model_type", "clingo_model_type_t", self.rep)]

    @property
    def context(self):
        return SolveControl(V("model_context", "clingo_solve_control_t*", self.rep))


class SolveHandle:
    def __init__(self, ctl, rep):
        self.ctl, self.rep, self.err = ctl, rep, ctl.err

    def __enter__(self):
        return self

    def __exit__(self, *a):
        F("solve_handle_close", self.rep, err=self.err)
        return False

    def get(self):
        return SolveResult(V("solve_handle_get", "clingo_solve_result_bitset_t", self.rep, err=self.err))

    def wait(self, timeout=None):
        p = ffi.new("bool*")
        lib.clingo_solve_handle_wait(self.rep, -1 if timeout is None else timeout, p)
        return bool(p[0])

    def _model(self, fun):
        p = ffi.new("clingo_model_t const**")
        F(fun, self.rep, p, err=self.err)
        return None if p[0] == ffi.NULL else Model(p[0])

    def model(self):
        return self._model("solve_handle_model")

    def last(self):
        return self._model("solve_handle_last")

    def core(self):
        p, n = ffi.new("clingo_literal_t const**"), ffi.new("size_t*")
        F("solve_handle_core", self.rep, p, n, err=self.err)
        return [p[0][i] for i in range(n[0])]

    def resume(self):
        F("solve_handle_resume", self.rep, err=self.err)

    def cancel(self):
        F("solve_handle_cancel", self.rep, err=self.err)

    def __iter__(self):
        while True:
            self.resume()
            m = self.model()
            if m is None:
                return
            yield m


class Trail:
    def __init__(self, rep):
        self.rep = rep

    def list(self):
        n = V("assignment_trail_size", "uint32_t", self.rep)
        return [V("assignment_trail_at", "clingo_literal_t", self.rep, i) for i in range(n)]

    def begin(self, level):
        return V("assignment_trail_begin", "uint32_t", self.rep, level)

    def end(self, level):
        return V("assignment_trail_end", "uint32_t", self.rep, level)


class Assignment:
    def __init__(self, rep):
        self.rep = rep

    def list(self):
        return [V("assignment_at", "clingo_literal_t", self.rep, i) for i in range(lib.clingo_assignment_size(self.rep))]

    def decision(self, level):
        return V("assignment_decision", "clingo_literal_t", self.rep, level)

    def has_literal(self, l):
        return bool(lib.clingo_assignment_has_literal(self.rep, l))

    def is_true(self, l):
        return bool(V("assignment_is_true", "bool", self.rep, l))

    def is_false(self, l):
        return bool(V("assignment_is_false", "bool", self.rep, l))

    def is_fixed(self, l):
        return bool(V("assignment_is_fixed", "bool", self.rep, l))

    def is_free(self, l):
        return V("assignment_truth_value", "clingo_truth_value_t", self.rep, l) == 0

    def value(self, l):
        return {0: None, 1: True, 2: False}[V("assignment_truth_value", "clingo_truth_value_t", self.rep, l)]

    def level(self, l):
        return V("assignment_level", "uint32_t", self.rep, l)

    decision_level = property(lambda self: lib.clingo_assignment_decision_level(self.rep))
    root_level = property(lambda self: lib.clingo_assignment_root_level(self.rep))
    has_conflict = property(lambda self: bool(lib.clingo_assignment_has_conflict(self.rep)))
    is_total = property(lambda self: bool(lib.clingo_assignment_is_total(self.rep)))
    trail = property(lambda self: Trail(self.rep))


def wlits(pairs):
    a = ffi.new("clingo_weighted_literal_t[]", len(pairs))
    for i, (l, w) in enumerate(pairs):
        a[i].literal, a[i].weight = l, w
    return a


class PropagateInit:
    def __init__(self, rep):
        self.rep = rep

    def add_clause(self, lits):
        return bool(V("propagate_init_add_clause", "bool", self.rep, ffi.new("clingo_literal_t[]", list(lits)), len(lits)))

    def add_literal(self, freeze=True):
        return V("propagate_init_add_literal", "clingo_literal_t", self.rep, freeze)

    def add_minimize(self, lit, w, prio=0):
        F("propagate_init_add_minimize", self.rep, lit, w, prio)

    def add_watch(self, lit, thread=None):
        if thread is None:
            F("propagate_init_add_watch", self.rep, lit)
        else:
            F("propagate_init_add_watch_to_thread", self.rep, lit, thread)

    def remove_watch(self, lit, thread=None):
        if thread is None:
            F("propagate_init_remove_watch", self.rep, lit)
        else:
            F("propagate_init_remove_watch_from_thread", self.rep, lit, thread)

    def freeze_literal(self, lit):
        F("propagate_init_freeze_literal", self.rep, lit)

    def add_weight_constraint(self, lit, lits, bound, type_=0, eq=False):
        return bool(V("propagate_init_add_weight_constraint", "bool", self.rep, lit, wlits(lits), len(lits), bound, type_, eq))

    def propagate(self):
        return bool(V("propagate_init_propagate", "bool", self.rep))

    def solver_literal(self, lit):
        return V("propagate_init_solver_literal", "clingo_literal_t", self.rep, lit)

    assignment = property(lambda self: Assignment(lib.clingo_propagate_init_assignment(self.rep)))
    number_of_threads = property(lambda self: lib.clingo_propagate_init_number_of_threads(self.rep))

    @property
    def check_mode(self):
        return CHECK_MODE[lib.clingo_propagate_init_get_check_mode(self.rep)]

    @check_mode.setter
    def check_mode(self, m):
        lib.clingo_propagate_init_set_check_mode(self.rep, inv(CHECK_MODE, m))

    @property
    def undo_mode(self):
        return UNDO_MODE[lib.clingo_propagate_init_get_undo_mode(self.rep)]

    @undo_mode.setter
    def undo_mode(self, m):
        lib.clingo_propagate_init_set_undo_mode(self.rep, inv(UNDO_MODE, m))

    @property
    def symbolic_atoms(self):
        return SymAtoms(V("propagate_init_symbolic_atoms", "clingo_symbolic_atoms_t const*", self.rep))

    def theory(self):
        return theory_dump(V("propagate_init_theory_atoms", "clingo_theory_atoms_t const*", self.rep))


class PropagateControl:
    def __init__(self, rep):
        self.rep = rep

    def add_clause(self, lits, tag=False, lock=False):
        return bool(V("propagate_control_add_clause", "bool", self.rep, ffi.new("clingo_literal_t[]", list(lits)),
                      len(lits), 2 * tag + lock))

    def add_nogood(self, lits, tag=False, lock=False):
        return self.add_clause([-l for l in lits], tag, lock)

    def add_literal(self):
        return V("propagate_control_add_literal", "clingo_literal_t", self.rep)

    def add_watch(self, l):
        F("propagate_control_add_watch", self.rep, l)

    def has_watch(self, l):
        return bool(lib.clingo_propagate_control_has_watch(self.rep, l))

    def remove_watch(self, l):
        lib.clingo_propagate_control_remove_watch(self.rep, l)

    def propagate(self):
        return bool(V("propagate_control_propagate", "bool", self.rep))

    assignment = property(lambda self: Assignment(lib.clingo_propagate_control_assignment(self.rep)))
    thread_id = property(lambda self: lib.clingo_propagate_control_thread_id(self.rep))


class Backend:
    def __init__(self, ctl):
        self.err = ctl.err
        self.rep = V("control_backend", "clingo_backend_t*", ctl.rep, err=self.err)

    def __enter__(self):
        self.err.exc = None
        F("backend_begin", self.rep, err=self.err)
        return self

    def __exit__(self, *a):
        self.err.exc = None
        F("backend_end", self.rep, err=self.err)
        return False

    def f(self, name, *args):
        self.err.exc = None
        F("backend_" + name, self.rep, *args, err=self.err)

    def v(self, name, ct, *args):
        self.err.exc = None
        return V("backend_" + name, ct, self.rep, *args, err=self.err)

    def lits(self, l, t="clingo_literal_t"):
        return ffi.new(t + "[]", list(l)), len(l)

    def add_acyc_edge(self, u, v, cond):
        self.f("acyc_edge", u, v, *self.lits(cond))

    def add_assume(self, lits):
        self.f("assume", *self.lits(lits))

    def add_atom(self, sym=None):
        return self.v("add_atom", "clingo_atom_t", ffi.NULL if sym is None else ffi.new("clingo_symbol_t*", sym.rep))

    def add_external(self, atom, value="False_"):
        self.f("external", atom, inv(EXT, value))

    def add_heuristic(self, atom, type_, bias, prio, cond):
        self.f("heuristic", atom, inv(HEU, type_), bias, prio, *self.lits(cond))

    def add_minimize(self, prio, lits):
        self.f("minimize", prio, wlits(lits), len(lits))

    def add_project(self, atoms):
        self.f("project", *self.lits(atoms, "clingo_atom_t"))

    def add_rule(self, head, body=(), choice=False):
        self.f("rule", choice, *self.lits(head, "clingo_atom_t"), *self.lits(body))

    def add_weight_rule(self, head, lower, body, choice=False):
        self.f("weight_rule", choice, *self.lits(head, "clingo_atom_t"), lower, wlits(body), len(body))

    def add_theory_term_number(self, n):
        return self.v("theory_term_number", "clingo_id_t", n)

    def add_theory_term_string(self, x):
        return self.v("theory_term_string", "clingo_id_t", x.encode())

    def add_theory_term_function(self, name, args):
        return self.v("theory_term_function", "clingo_id_t", name.encode(), *self.lits(args, "clingo_id_t"))

    def add_theory_term_sequence(self, t, args):
        return self.v("theory_term_sequence", "clingo_id_t", inv(SEQ, t), *self.lits(args, "clingo_id_t"))

    def add_theory_term_symbol(self, sym):
        return self.v("theory_term_symbol", "clingo_id_t", sym.rep)

    def add_theory_element(self, terms, cond):
        return self.v("theory_element", "clingo_id_t", *self.lits(terms, "clingo_id_t"), *self.lits(cond))

    def add_theory_atom(self, term, elems, atom=None):
        return self.v("theory_atom", "clingo_atom_t", 0xFFFFFFFF if atom is None else atom, term,
                      *self.lits(elems, "clingo_id_t"))

    def add_theory_atom_with_guard(self, term, elems, op, rhs, atom=None):
        return self.v("theory_atom_with_guard", "clingo_atom_t", 0xFFFFFFFF if atom is None else atom, term,
                      *self.lits(elems, "clingo_id_t"), op.encode(), rhs)


class Conf:
    def __init__(self, conf, key):
        self.conf, self.key = conf, key

    def type(self):
        return V("configuration_type", "clingo_configuration_type_bitset_t", self.conf, self.key)

    def sub(self, name):
        if self.type() & 4 and V("configuration_map_has_subkey", "bool", self.conf, self.key, name.encode()):
            return Conf(self.conf, V("configuration_map_at", "clingo_id_t", self.conf, self.key, name.encode()))
        return None

    @property
    def keys(self):
        if not self.type() & 4:
            return None
        n = V("configuration_map_size", "size_t", self.conf, self.key)
        return [s(V("configuration_map_subkey_name", "char const*", self.conf, self.key, i)) for i in range(n)]

    def __len__(self):
        return V("configuration_array_size", "size_t", self.conf, self.key) if self.type() & 2 else 0

    def at(self, i):
        return Conf(self.conf, V("configuration_array_at", "clingo_id_t", self.conf, self.key, i))

    def value(self):
        if not V("configuration_value_is_assigned", "bool", self.conf, self.key):
            return None
        return R.str2("clingo_configuration_value_get", self.conf, self.key)

    def set(self, v):
        F("configuration_value_set", self.conf, self.key, v.encode())

    def desc(self):
        return s(V("configuration_description", "char const*", self.conf, self.key))


def stats_dump(st, key):
    t = V("statistics_type", "clingo_statistics_type_t", st, key)
    if t == 1:
        return V("statistics_value_get", "double", st, key)
    if t == 2:
        n = V("statistics_array_size", "size_t", st, key)
        return [stats_dump(st, V("statistics_array_at", "uint64_t", st, key, i)) for i in range(n)]
    ret = {}
    for i in range(V("statistics_map_size", "size_t", st, key)):
        name = V("statistics_map_subkey_name", "char const*", st, key, i)
        ret[s(name)] = stats_dump(st, V("statistics_map_at", "uint64_t", st, key, name))
    return ret


class Stats:
    """mutable user statistics with explicit operations"""
    def __init__(self, st, key=None):
        self.st = st
        self.key = V("statistics_root", "uint64_t", st) if key is None else key

    def dump(self):
        return stats_dump(self.st, self.key)

    def has(self, name):
        return bool(V("statistics_map_has_subkey", "bool", self.st, self.key, name.encode()))

    def type_of(self, v):
        return 2 if isinstance(v, list) else 3 if isinstance(v, dict) else 1

    def assign(self, v):
        if isinstance(v, dict):
            for k, x in v.items():
                self.set(k, x)
        elif isinstance(v, list):
            n = V("statistics_array_size", "size_t", self.st, self.key)
            for i, x in enumerate(v):
                if i < n:
                    Stats(self.st, V("statistics_array_at", "uint64_t", self.st, self.key, i)).assign(x)
                else:
                    self.push(x)
        else:
            F("statistics_value_set", self.st, self.key, v)

    def set(self, name, v):
        if self.has(name):
            k = V("statistics_map_at", "uint64_t", self.st, self.key, name.encode())
        else:
            k = V("statistics_map_add_subkey", "uint64_t", self.st, self.key, name.encode(), self.type_of(v))
        Stats(self.st, k).assign(v)

    def push(self, v):
        Stats(self.st, V("statistics_array_push", "uint64_t", self.st, self.key, self.type_of(v))).assign(v)


OBS = {
    "init_program": ("bool(bool, void*)", lambda o, inc, d: o.init_program(bool(inc))),
    "begin_step": ("bool(void*)", lambda o, d: o.begin_step()),
    "end_step": ("bool(void*)", lambda o, d: o.end_step()),
    "rule": ("bool(bool, clingo_atom_t const*, size_t, clingo_literal_t const*, size_t, void*)",
             lambda o, c, h, n, b, m, d: o.rule(bool(c), L(h, n), L(b, m))),
    "weight_rule": ("bool(bool, clingo_atom_t const*, size_t, clingo_weight_t, clingo_weighted_literal_t const*, size_t, void*)",
                    lambda o, c, h, n, lb, b, m, d: o.weight_rule(bool(c), L(h, n), lb, W(b, m))),
    "minimize": ("bool(clingo_weight_t, clingo_weighted_literal_t const*, size_t, void*)",
                 lambda o, p, l, n, d: o.minimize(p, W(l, n))),
    "project": ("bool(clingo_atom_t const*, size_t, void*)", lambda o, a, n, d: o.project(L(a, n))),
    "output_atom": ("bool(clingo_symbol_t, clingo_atom_t, void*)", lambda o, x, a, d: o.output_atom(Symbol(x), a)),
    "output_term": ("bool(clingo_symbol_t, clingo_literal_t const*, size_t, void*)",
                    lambda o, x, c, n, d: o.output_term(Symbol(x), L(c, n))),
    "external": ("bool(clingo_atom_t, clingo_external_type_t, void*)", lambda o, a, t, d: o.external(a, EXT[t])),
    "assume": ("bool(clingo_literal_t const*, size_t, void*)", lambda o, l, n, d: o.assume(L(l, n))),
    "heuristic": ("bool(clingo_atom_t, clingo_heuristic_type_t, int, unsigned, clingo_literal_t const*, size_t, void*)",
                  lambda o, a, t, b, p, c, n, d: o.heuristic(a, HEU[t], b, p, L(c, n))),
    "acyc_edge": ("bool(int, int, clingo_literal_t const*, size_t, void*)",
                  lambda o, u, v, c, n, d: o.acyc_edge(u, v, L(c, n))),
    "theory_term_number": ("bool(clingo_id_t, int, void*)", lambda o, i, n, d: o.theory_term_number(i, n)),
    "theory_term_string": ("bool(clingo_id_t, char const*, void*)", lambda o, i, n, d: o.theory_term_string(i, s(n))),
    "theory_term_compound": ("bool(clingo_id_t, int, clingo_id_t const*, size_t, void*)",
                             lambda o, i, t, a, n, d: o.theory_term_compound(i, t, L(a, n))),
    "theory_element": ("bool(clingo_id_t, clingo_id_t const*, size_t, clingo_literal_t const*, size_t, void*)",
                       lambda o, i, t, n, c, m, d: o.theory_element(i, L(t, n), L(c, m))),
    "theory_atom": ("bool(clingo_id_t, clingo_id_t, clingo_id_t const*, size_t, void*)",
                    lambda o, a, t, e, n, d: o.theory_atom(a, t, L(e, n))),
    "theory_atom_with_guard": ("bool(clingo_id_t, clingo_id_t, clingo_id_t const*, size_t, clingo_id_t, clingo_id_t, void*)",
                               lambda o, a, t, e, n, op, r, d: o.theory_atom_with_guard(a, t, L(e, n), op, r)),
}


def L(p, n):
    return [p[i] for i in range(n)]


def W(p, n):
    return [(p[i].literal, p[i].weight) for i in range(n)]


def logger_cb(fun):
    return ffi.callback("void(clingo_warning_t, char const*, void*)", lambda c, m, d: fun(MSG[c], s(m)))


def parse_term(text, logger=None, limit=20):
    cb = ffi.NULL if logger is None else logger_cb(logger)
    return Symbol(V("parse_term", "clingo_symbol_t", text.encode(), cb, ffi.NULL, limit))


class Control:
    null_event = False  # whether no event handler is passed if there are no callbacks

    def __init__(self, args=(), logger=None, limit=20):
        raw()
        self.err = _Err()
        self.keep = []
        cb = ffi.NULL
        if logger is not None:
            cb = logger_cb(logger)
            self.keep.append(cb)
        a = [ffi.new("char[]", x.encode()) for x in args]
        self.rep = V("control_new", "clingo_control_t*", ffi.new("char const*[]", a), len(a), cb, ffi.NULL, limit)

    def free(self):
        if self.rep is not None:
            lib.clingo_control_free(self.rep)
            self.rep = None

    def add(self, name, params, text):
        p = [ffi.new("char[]", x.encode()) for x in params]
        F("control_add", self.rep, name.encode(), ffi.new("char const*[]", p), len(p), text.encode())

    def load(self, path):
        F("control_load", self.rep, path.encode())

    def load_aspif(self, files):
        p = [ffi.new("char[]", x.encode()) for x in files]
        F("control_load_aspif", self.rep, ffi.new("char const*[]", p), len(p))

    def ground(self, parts=(("base", ()),), context=None):
        self.err.exc = None
        keep = []
        cp = ffi.new("clingo_part_t[]", len(parts))
        for i, (name, args) in enumerate(parts):
            n, a = ffi.new("char[]", name.encode()), ffi.new("clingo_symbol_t[]", [x.rep for x in args])
            keep += [n, a]
            cp[i].name, cp[i].params, cp[i].size = n, a, len(args)
        cb = ffi.NULL
        if context is not None:
            def call(loc, name, args, n, data, symcb, symdata):
                ret = context(s(name), syms(L(args, n)))
                arr = ffi.new("clingo_symbol_t[]", [x.rep for x in ret])
                if not symcb(arr, len(ret), symdata):
                    _fail(None)
            cb = ffi.callback("bool(clingo_location_t const *, char const *, clingo_symbol_t const *, size_t, void *, "
                              "clingo_symbol_callback_t, void *)", guard(self.err, call))
        F("control_ground", self.rep, cp, len(parts), cb, ffi.NULL, err=self.err)

    def lit(self, x):
        if isinstance(x, int):
            return x
        a = self.symbolic_atoms.get(x)
        return 0 if a is None else a.literal

    def assign_external(self, x, truth):
        F("control_assign_external", self.rep, self.lit(x), {None: 0, True: 1, False: 2}[truth], err=self.err)

    def release_external(self, x):
        F("control_release_external", self.rep, self.lit(x), err=self.err)

    def cleanup(self):
        F("control_cleanup", self.rep)

    def interrupt(self):
        lib.clingo_control_interrupt(self.rep)

    def backend(self):
        return Backend(self)

    def get_const(self, name):
        if not V("control_has_const", "bool", self.rep, name.encode()):
            return None
        return Symbol(V("control_get_const", "clingo_symbol_t", self.rep, name.encode()))

    def remove_minimize(self):
        F("control_remove_minimize", self.rep)

    def _project(self, atoms, append):
        F("control_update_project", self.rep, ffi.new("clingo_atom_t[]", [self.lit(a) for a in atoms]), len(atoms), append)

    def add_project(self, atoms):
        self._project(atoms, True)

    def replace_project(self, atoms):
        self._project(atoms, False)

    def remove_project(self):
        self._project([], False)

    def register_backend(self, type_, file, replace=False, reify_sccs=False, reify_steps=False):
        t = {"Aspif": 4, "Smodels": 5, "Reify": 0}[type_] | reify_sccs * 1 | reify_steps * 2
        F("control_register_backend", self.rep, t, file.encode(), replace)

    def register_observer(self, obs, events, replace=False):
        o = ffi.new("clingo_ground_program_observer_t*")
        for e in events:
            sig, fun = OBS[e]
            cb = ffi.callback(sig, guard(self.err, lambda *a, fun=fun: (fun(obs, *a), True)[1]))
            self.keep.append(cb)
            setattr(o, e, cb)
        self.keep.append(o)
        F("control_register_observer", self.rep, o, replace, ffi.NULL, err=self.err)

    def register_propagator(self, p, methods):
        c = ffi.new("clingo_propagator_t*")
        err = self.err

        def undo(ctl, ch, n, d):
            cc = PropagateControl(ctl)
            p.undo(cc.thread_id, cc.assignment, L(ch, n))

        def decide(tid, ass, fallback, d, out):
            out[0] = p.decide(tid, Assignment(ass), fallback)
        defs = {
            "init": ("bool(clingo_propagate_init_t*, void*)", lambda i, d: p.init(PropagateInit(i))),
            "propagate": ("bool(clingo_propagate_control_t*, clingo_literal_t const*, size_t, void*)",
                          lambda ctl, ch, n, d: p.propagate(PropagateControl(ctl), L(ch, n))),
            "undo": ("void(clingo_propagate_control_t const*, clingo_literal_t const*, size_t, void*)", undo),
            "check": ("bool(clingo_propagate_control_t*, void*)", lambda ctl, d: p.check(PropagateControl(ctl))),
            "decide": ("bool(clingo_id_t, clingo_assignment_t const*, clingo_literal_t, void*, clingo_literal_t*)", decide),
        }
        for m in methods:
            sig, fun = defs[m]
            if m == "undo":
                cb = ffi.callback(sig, fun)
            else:
                cb = ffi.callback(sig, guard(err, lambda *a, fun=fun: (fun(*a), True)[1]))
            self.keep.append(cb)
            setattr(c, m, cb)
        self.keep.append(c)
        F("control_register_propagator", self.rep, c, ffi.NULL, False, err=err)

    def solve(self, assumptions=(), on_model=None, on_unsat=None, on_statistics=None, on_finish=None, on_core=None,
              on_last=None, yield_=False, async_=False):
        self.err.exc = None

        def event(type_, ev, data, goon):
            if type_ == 0:
                if on_model is not None:
                    r = on_model(Model(ffi.cast("clingo_model_t*", ev)))
                    goon[0] = r is None or bool(r)
                else:
                    goon[0] = True
            elif type_ == 1:
                if on_unsat is not None:
                    a = ffi.cast("void**", ev)
                    p = ffi.cast("int64_t*", a[0])
                    on_unsat([p[i] for i in range(int(ffi.cast("size_t", a[1])))])
            elif type_ == 2:
                if on_statistics is not None:
                    p = ffi.cast("clingo_statistics_t**", ev)
                    on_statistics(Stats(p[0]), Stats(p[1]))
            elif type_ == 3:
                if on_finish is not None:
                    on_finish(SolveResult(ffi.cast("clingo_solve_result_bitset_t*", ev)[0]))
        cb = ffi.callback("bool(clingo_solve_event_type_t, void *, void *, bool *)",
                          guard(self.err, lambda *a: (event(*a), True)[1]))
        self.keep_solve = cb
        lits = []
        for x in assumptions:
            if isinstance(x, int):
                lits.append(x)
            else:
                a = self.symbolic_atoms.get(x[0])
                if a is not None:
                    lits.append(a.literal if x[1] else -a.literal)
                elif x[1]:
                    lits += [1, -1]  # an unknown atom is false
        mode = 2 * bool(yield_) + bool(async_)
        h = SolveHandle(self, V("control_solve", "clingo_solve_handle_t*", self.rep, mode,
                                ffi.new("clingo_literal_t[]", lits), len(lits),
                                ffi.NULL if self.null_event and not any((on_model, on_unsat, on_statistics, on_finish)) else cb,
                                ffi.NULL, err=self.err))
        if yield_ or async_:
            return h
        with h:
            ret = h.get()
            if on_core is not None and ret.unsatisfiable:
                on_core(h.core())
            if on_last is not None:
                m = h.last()
                if m is not None:
                    on_last(m)
            return ret

    @property
    def configuration(self):
        c = V("control_configuration", "clingo_configuration_t*", self.rep)
        return Conf(c, V("configuration_root", "clingo_id_t", c))

    @property
    def statistics(self):
        st = V("control_statistics", "clingo_statistics_t const*", self.rep)
        return stats_dump(st, V("statistics_root", "uint64_t", st))

    @property
    def enable_cleanup(self):
        return bool(lib.clingo_control_get_enable_cleanup(self.rep))

    @enable_cleanup.setter
    def enable_cleanup(self, v):
        F("control_set_enable_cleanup", self.rep, v)

    @property
    def enable_enumeration_assumption(self):
        return bool(lib.clingo_control_get_enable_enumeration_assumption(self.rep))

    @enable_enumeration_assumption.setter
    def enable_enumeration_assumption(self, v):
        F("control_set_enable_enumeration_assumption", self.rep, v)

    @property
    def is_conflicting(self):
        return bool(lib.clingo_control_is_conflicting(self.rep))

    @property
    def symbolic_atoms(self):
        return SymAtoms(V("control_symbolic_atoms", "clingo_symbolic_atoms_t const*", self.rep))

    def theory(self):
        return theory_dump(V("control_theory_atoms", "clingo_theory_atoms_t const*", self.rep))
