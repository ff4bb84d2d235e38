"""C24: Foreign theories are driven through the Python theory wrapper faithfully."""
from bindcommon import *
from bindcommon import _apis
import gc
import importlib
import struct
import gensess as g
import sess
from hypothesis import strategies as st

PREFIXES = ("fake", "other")
IDX = g.N(0, 2)
PREF = g.N(0, 5).map(lambda i: PREFIXES[i == 5])
THREAD = g.pick([0, 0, 0, 1, 2, 63, 2**31, 2**32 - 1])
WORD = g.one_of(g.pick(["k", "v", "", "a-b", "x=y", "ä€😀", "long" * 100]), st.text(alphabet="ab =%\n\"é", max_size=4))
VALUE = g.one_of(g.one_of(g.N(-2**31, 2**31 - 1), g.pick([0, 1, -1, 2**31 - 1, -2**31])).map(lambda n: ["i", n]),
                 g.one_of(st.floats(), g.pick([0.0, -0.0, 1.5, 1e300, 5e-324, 3.0])).map(lambda d: ["d", struct.pack(">d", d).hex()]),
                 g.tree().map(lambda t: ["y", t]))
SYM = g.one_of(g.atom_ref(), g.tree())
PUT = st.tuples(st.just("put"), IDX, THREAD, SYM, g.N(0, 3).map(bool), VALUE).map(list)
PROG = g.text([g.theory_stm(), g.opt(), g.show(), g.heu(), g.edge(), g.parts()], 3).map(lambda t: g.THEORY + t)
REWRITE = st.tuples(st.just("rewrite"), IDX, PROG, g.N(0, 3), g.one_of(st.none(), st.tuples(g.N(0, 4), g.pick(sess.EXC_KINDS)).map(list)), g.BOOL).map(list)
OP = g.one_of(
    PUT, PUT, PUT, st.tuples(st.just("version"), IDX, g.lists(g.N(-2, 2**31 - 1), 3, 3)).map(list),
    st.tuples(st.just("configure"), IDX, WORD, WORD).map(list), st.tuples(g.pick(["register", "prepare"]), IDX, g.N(0, 1)).map(list),
    st.tuples(st.just("options"), IDX, g.N(1, 2**48)).map(list), st.tuples(st.just("validate"), IDX).map(list),
    st.tuples(st.just("assignment"), IDX, THREAD).map(list), st.tuples(st.just("assignment"), IDX, THREAD).map(list),
    st.tuples(st.just("two"), IDX, THREAD, IDX, THREAD, g.lists(g.BOOL, 0, 8)).map(list),
    st.tuples(st.just("lookup"), IDX, SYM, g.N(0, 63)).map(list), st.tuples(st.just("lookup"), IDX, SYM, g.N(0, 63)).map(list),
    st.tuples(g.pick(["get", "has", "value"]), IDX, g.N(0, 63), THREAD).map(list), st.tuples(g.pick(["has", "value"]), IDX, g.N(0, 63), g.N(-1, -1)).map(list),
    st.tuples(st.just("fail"), PREF, WORD).map(list), REWRITE, REWRITE,
    st.tuples(st.just("solve"), IDX, g.N(0, 1), g.pick(["sync", "yield"]), g.BOOL, g.BOOL, g.N(0, 5).map(lambda x: x == 0)).map(list),
    st.tuples(st.just("new"), PREF).map(list), st.tuples(st.just("del"), IDX).map(list))
CASE = st.tuples(PREF, g.lists(PUT, 0, 4), g.lists(OP, 1, 25)).map(lambda t: {"ops": [["new", t[0]]] + t[1] + t[2]})


class Model:
    def __init__(self, wrapper, ptr, prefix):
        self.wrapper, self.ptr, self.prefix, self.entries = wrapper, ptr, prefix, []


def value(v, api):
    return {"i": lambda: v[1], "d": lambda: struct.unpack(">d", bytes.fromhex(v[1]))[0], "y": lambda: api.mk(v[1])}[v[0]]()


def same(v, got, api):
    if v[0] == "i":
        return type(got) is int and got == v[1]
    if v[0] == "d":
        return type(got) is float and (struct.pack(">d", got).hex() == v[1] or got != got and value(v, api) != value(v, api))
    import clingo
    return type(got) is clingo.Symbol and got == api.mk(v[1])


class Session:
    def __init__(self, case, ev):
        import clingo
        self.clingo, self.case, self.ev, self.api = clingo, case, ev, _apis[1]
        self.mods = {p: importlib.import_module("vtheory_" + p) for p in PREFIXES}
        self.pending = {p: None for p in PREFIXES}
        self.thys, self.ctls, self.errors = [], [], 0
        for i in range(2):
            ctl = clingo.Control(["0"])
            ctl.add("base", [], "{a(1..2)}. b :- a(1).")
            ctl.ground([("base", [])])
            self.ctls.append(ctl)
        for m in self.mods.values():
            m.lib.vt_clear()
            m.lib.vt_fail(b"")

    def addr(self, cdata):
        from clingo._internal import _ffi
        return "0x%x" % int(_ffi.cast("uintptr_t", cdata))

    def log(self):
        out = []
        for p, m in self.mods.items():
            out += [x for x in m.ffi.string(m.lib.vt_log()).decode().split("\x01") if x]
            m.lib.vt_clear()
        return out

    def bad(self, msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(self.case)[:3000]}")

    def expect(self, op, want):
        got = [x for x in self.log() if not x.startswith("destroy")]
        if got != want:
            self.bad(f"{op}: called {got} instead of {want}")

    def call(self, op, prefix, want, fun, *args):
        """a function that may fail; the scripted failure must be reported"""
        self.log()
        err, ret = None, None
        try:
            ret = fun(*args)
        except BaseException as e:  # pylint: disable=broad-except
            err = e
        self.outcome(op, prefix, err)
        if want is not None:
            self.expect(op, want)
        return ret, err is None

    def outcome(self, op, prefix, err):
        msg, self.pending[prefix] = self.pending[prefix], None
        if msg is None and err is not None:
            self.bad(f"{op} raised {err!r} without reason")
        if msg is not None:
            self.errors += 1
            if type(err) is not RuntimeError or str(err) != msg:
                self.bad(f"{op} raised {err!r} instead of RuntimeError({msg!r})")

    def run(self):
        for op in self.case["ops"]:
            name, args = op[0], op[1:]
            if name in ("new", "fail"):
                getattr(self, "op_" + name)(op, *args)
            elif self.thys:
                t = self.thys[args[0] % len(self.thys)]
                getattr(self, "op_" + name)(op, t, *args[1:])
                self.ev.label(name)
        for t in self.thys:
            self.check_all(t)
        kept = {t.ptr for t in self.thys}
        self.log()
        self.thys.clear()
        gc.collect()
        for x in self.log():
            if not x.startswith("destroy "):
                self.bad(f"destroying theories called {x}")
        return self.errors, kept

    def check_all(self, t):
        for thread in {e[0] for e in t.entries} | {0}:
            self.op_assignment(["final assignment", thread], t, thread)
        for i in range(len(t.entries)):
            self.op_get(["final", i], t, i, 0)
            self.op_has(["final", i], t, i, -1)

    def op_new(self, op, prefix):
        from clingo.theory import Theory
        if len(self.thys) >= 3:
            return
        m = self.mods[prefix]
        self.log()
        err, w = None, None
        pend = self.pending[prefix] is not None
        if pend:
            m.lib.vt_fail(b"")
            self.pending[prefix] = None
        w = Theory(prefix, m.lib, m.ffi)
        calls = [x for x in self.log() if not x.startswith("destroy")]
        if len(calls) != 1 or not calls[0].startswith("create "):
            self.bad(f"constructor called {calls}")
        self.thys.append(Model(w, calls[0].split()[1], prefix))

    def op_del(self, op, t):
        if len(self.thys) > 1:
            self.thys.remove(t)
            self.log()
            ptr = t.ptr
            del t
            gc.collect()
            got = [x for x in self.log() if x != f"destroy {ptr}"]
            live = {x.ptr for x in self.thys}
            if any(not x.startswith("destroy") or x.split()[1] in live for x in got):
                self.bad(f"deleting a theory called {got}")

    def op_fail(self, op, prefix, msg):
        if msg:
            self.mods[prefix].lib.vt_fail(msg[:200].encode(errors="ignore")[:200])
            self.pending[prefix] = msg[:200].encode()[:200].decode(errors="ignore")
            if self.pending[prefix].encode() != msg[:200].encode():
                self.mods[prefix].lib.vt_fail(self.pending[prefix].encode())

    def op_put(self, op, t, thread, sym, has, val):
        if len(t.entries) >= 60:
            return
        m = self.mods[t.prefix]
        v = m.ffi.new(f"{t.prefix}_value_t*")
        v.type = "idy".index(val[0])
        x = value(val, self.api)
        if val[0] == "i":
            v.int_number = x
        elif val[0] == "d":
            v.double_number = x
        else:
            v.symbol = x._rep
        s = self.api.mk(sym)
        m.lib.vt_put(m.ffi.cast(f"{t.prefix}_theory_t*", int(t.ptr, 16)), thread, s._rep, has, v)
        t.entries.append((thread, s, has, val))

    def op_version(self, op, t, v):
        self.mods[t.prefix].lib.vt_version(*v)
        self.log()
        r = t.wrapper.version()
        if r != tuple(v):
            self.bad(f"{op} returned {r}")
        self.expect(op, ["version"])

    def op_configure(self, op, t, key, val):
        self.call(op, t.prefix, [f"configure {t.ptr} {key}={val}"], t.wrapper.configure, key, val)

    def op_register(self, op, t, c):
        self.call(op, t.prefix, [f"register {t.ptr} {self.addr(self.ctls[c]._rep)}"], t.wrapper.register, self.ctls[c])

    def op_prepare(self, op, t, c):
        self.call(op, t.prefix, [f"prepare {t.ptr} {self.addr(self.ctls[c]._rep)}"], t.wrapper.prepare, self.ctls[c])

    def op_options(self, op, t, a):
        from clingo._internal import _ffi
        from clingo.application import ApplicationOptions
        o = ApplicationOptions(_ffi.cast("clingo_options_t*", a), [])
        self.call(op, t.prefix, [f"register_options {t.ptr} 0x{a:x}"], t.wrapper.register_options, o)

    def op_validate(self, op, t):
        self.call(op, t.prefix, [f"validate_options {t.ptr}"], t.wrapper.validate_options)

    def op_assignment(self, op, t, thread):
        want = [(e[1], e[3]) for e in t.entries if e[0] == thread and e[2]]
        self.matches(op, list(t.wrapper.assignment(thread)), want)

    def matches(self, op, got, want):
        if len(got) != len(want) or any(a[0] != b[0] or type(a[0]) is not type(b[0]) or not same(b[1], a[1], self.api) for a, b in zip(got, want)):
            self.bad(f"{op}: assignment {got} instead of {want}")
        if len(want) > 1:
            self.ev.label("assignment>1")

    def op_two(self, op, t, th1, i, th2, order):
        """two interleaved iterations"""
        u = self.thys[i % len(self.thys)]
        its = [t.wrapper.assignment(th1), u.wrapper.assignment(th2)]
        got = [[], []]
        for k in order:
            x = next(its[k], None)
            if x is not None:
                got[k].append(x)
        for k in (0, 1):
            got[k] += list(its[k])
        for k, (w, th) in enumerate(((t, th1), (u, th2))):
            self.matches(op, got[k], [(e[1], e[3]) for e in w.entries if e[0] == th and e[2]])

    def op_lookup(self, op, t, sym, i):
        if i < len(t.entries):
            sym = None
        s = t.entries[i][1] if sym is None else self.api.mk(sym)
        self.log()
        r = t.wrapper.lookup_symbol(s)
        self.expect(op, [f"lookup {t.ptr} {int(s._rep)}"])
        w = next((k for k, e in enumerate(t.entries) if e[1] == s), None)
        if r != w or type(r) is not type(w):
            self.bad(f"{op} returned {r!r} instead of {w!r}")
        self.ev.label("found" if w is not None else "not found")

    def index(self, t, i):
        return i % len(t.entries) if t.entries else None

    def op_get(self, op, t, i, thread):
        i = self.index(t, i)
        if i is not None:
            self.log()
            s = t.wrapper.get_symbol(i)
            self.expect(op, [f"get_symbol {t.ptr} {i}"])
            if type(s) is not self.clingo.Symbol or s != t.entries[i][1] or str(s) != str(t.entries[i][1]):
                self.bad(f"{op} returned {s}")

    def op_has(self, op, t, i, thread):
        i = self.index(t, i)
        if i is not None:
            thread = t.entries[i][0] if thread < 0 else thread
            self.log()
            r = t.wrapper.has_value(thread, i)
            self.expect(op, [f"has {t.ptr} {thread} {i}"])
            if r is not (t.entries[i][0] == thread and t.entries[i][2]):
                self.bad(f"{op} returned {r!r}")

    def op_value(self, op, t, i, thread):
        i = self.index(t, i)
        if i is not None:
            thread = t.entries[i][0] if thread < 0 else thread
            self.log()
            r = t.wrapper.get_value(thread, i)
            self.expect(op, [f"value {t.ptr} {thread} {i}"])
            if not same(t.entries[i][3], r, self.api):
                self.bad(f"{op} returned {r!r}")

    def op_rewrite(self, op, t, text, copies, exc, add):
        from clingo.ast import AST, ProgramBuilder, parse_string
        stms = []
        parse_string(text, stms.append)
        m = self.mods[t.prefix]
        m.lib.vt_script(copies)
        n, out, raised = [0], [], []

        def cb(stm):
            n[0] += 1
            if exc is not None and n[0] == exc[0] + 1:
                raised.append(sess.make_exc(exc[1]))
                raise raised[0]
            out.append(stm)
        for i, s in enumerate(stms):
            self.log()
            want, before, err = str(s), len(out), None
            ptr = self.addr(s._rep)
            stop = exc is not None and before + copies > exc[0] >= before and not raised
            try:
                t.wrapper.rewrite_ast(s, cb)
            except BaseException as e:  # pylint: disable=broad-except
                err = e
            if stop:
                if err is None or len(raised) != 1 or err is not raised[0]:
                    self.bad(f"{op}: rewriting raised {err!r} instead of {raised}")
                self.errors += 1
                self.ev.label("callback raised")
            else:
                if err is not None and self.pending[t.prefix] is not None:
                    self.ev.label("rewriting failed")
                self.outcome(op, t.prefix, err)
            self.expect(op, [f"rewrite {t.ptr} {ptr}"])
            k = exc[0] - before if stop else copies
            if len(out) - before != k or any(type(x) is not AST or x != s or str(x) != want for x in out[before:]):
                self.bad(f"{op}: rewriting {s} added {[str(x) for x in out[before:]]}")
            if stop:
                break
        del stms
        gc.collect() if len(out) > 3 else None
        [repr(x) for x in out]
        if add and exc is None:
            # statements outlive the theory call and can be added to a program
            want = self.clingo.Control()
            with ProgramBuilder(want) as b:
                parse_string(text, lambda s: [b.add(s) for _ in range(copies)])
            got = self.clingo.Control()
            with ProgramBuilder(got) as b:
                for s in out:
                    b.add(s)
            def ground(c):
                try:
                    c.ground([("base", [])])
                except RuntimeError as e:
                    return str(e)
            a, b = (ground(c) for c in (want, got))
            if a != b:
                self.bad(f"{op}: grounding raises {b} instead of {a}")
            a, b = ([(str(x.symbol), x.literal, x.is_fact) for x in c.symbolic_atoms] for c in (want, got))
            if a != b:
                self.bad(f"{op}: rewritten program has atoms {b} instead of {a}")
            self.ev.label("rewritten program")

    def op_solve(self, op, t, c, mode, model, stats, fail):
        """the theory extends models and statistics"""
        thy, ctl = t.wrapper, self.ctls[c]
        ext = [e[1] for e in t.entries]
        ids, got = [], []
        if fail and model:
            m = self.mods[t.prefix]
            m.lib.vt_fail(b"model failure")
            self.pending[t.prefix] = "model failure"
        elif self.pending[t.prefix] is not None:
            self.mods[t.prefix].lib.vt_fail(b"")
            self.pending[t.prefix] = None
        failing = self.pending[t.prefix] is not None

        def on_model(m):
            ids.append(m.number)
            thy.on_model(m)
            got.append(m.symbols(theory=True))
        kw = {"on_statistics": thy.on_statistics} if stats and not failing else {}
        self.log()
        err = None
        try:
            if mode == "sync":
                ctl.solve(**({"on_model": on_model} if model else {}), **kw)
            else:
                with ctl.solve(yield_=True, **kw) as h:
                    for m in h:
                        if model:
                            on_model(m)
        except BaseException as e:  # pylint: disable=broad-except
            err = e
        self.outcome(op, t.prefix, err)
        self.expect(op, [f"on_model {t.ptr} {i}" for i in ids] + ([f"on_statistics {t.ptr}"] if kw else []))
        if failing:
            return
        if model and (len(ids) != 4 or any(set(x) != set(ext) or len(x) not in (len(ext), len(set(ext))) for x in got)):
            self.bad(f"{op}: models {ids} show {[[str(s) for s in x] for x in got]} instead of {[str(s) for s in ext]}")
        if stats:
            s = ctl.statistics
            for k, v in (("step", 0.0), ("accu", 1.0)):
                x = s.get("user_" + k, {}).get(k)
                if x != v + len(t.entries):
                    self.bad(f"{op}: statistics user_{k} has {x}")


def run(case, ev):
    if os.environ.get("VP_REF_ONLY"):
        return
    errors, ptrs = Session(case, ev).run()
    if errors:
        ev.label("errors")
    ev.nontrivial(len(ev.labels) > 3)


def build():
    import vbuild
    env = build_py()
    for p in PREFIXES:
        env["VP_THEORY"] = str(vbuild.theory_module(p))
    return env


def init():
    init_py()
    sys.path.insert(0, os.environ["VP_THEORY"])
    for p in PREFIXES:
        importlib.import_module("vtheory_" + p)


TECHNIQUE = ("property-based testing (model-based): generated sequences of wrapper calls against a stand-in theory library that logs its calls, "
             "serves scripted assignments, rewrites syntax trees and fails on demand; calls, results, values, statements and errors are "
             "compared with a model")
LEVEL_NOTE = "Random search over call sequences; values cover all 32-bit integers, all doubles and generated symbols."
CHECK = pbt.Check(
    "C24",
    [pbt.Part("theories", CASE, run, quick=3000, thorough=60000)],
    rule="sequences of up to 30 calls on up to three theories of two libraries; non-trivial: at least three kinds of observations",
    build=build, init=init,
    assumptions=["the theory library follows the documented interface", "the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
