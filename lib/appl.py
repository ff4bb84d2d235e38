"""Applications (clingo_main) described by JSON specs, run in forked children: once through the Python package and once through
the raw C interface.  A run yields (exit status, stdout, stderr, trace)."""
import json
import os
import re
import signal
import sys
import tempfile
import time
import traceback

ANCHOR = "VPAPP"


def child(fun, timeout=30, stdin="", cwd=None):
    """runs fun(trace) in a forked process"""
    d = tempfile.mkdtemp(prefix="vpapp")
    names = {n: os.path.join(d, n) for n in ("out", "err", "trace", "in")}
    with open(names["in"], "w") as f:
        f.write(stdin)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.setpgid(0, 0)
            for n, fd in (("in", 0), ("out", 1), ("err", 2)):
                f = os.open(names[n], os.O_RDONLY if n == "in" else os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
                os.dup2(f, fd)
            if cwd:
                os.chdir(cwd)
            sys.stdout = open(1, "w", closefd=False)
            sys.stderr = open(2, "w", closefd=False, buffering=1)
            tfd = os.open(names["trace"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)

            def trace(*e):
                os.write(tfd, (json.dumps(e) + "\n").encode())
            try:
                code = fun(trace)
            except BaseException as e:  # noqa: B902
                trace("uncaught", type(e).__name__, str(e))
                traceback.print_exc()
                code = 98
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            import ctypes
            ctypes.CDLL(None).fflush(None)
            os._exit(code & 255)
    end = time.time() + timeout
    st = None
    while True:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            st = s
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            st = "timeout"
            break
        time.sleep(0.001)

    def read(n):
        try:
            with open(names[n], errors="surrogateescape") as f:
                return f.read()
        except FileNotFoundError:
            return ""
    ret = (st if isinstance(st, str) else os.WEXITSTATUS(st) if os.WIFEXITED(st) else f"signal {os.WTERMSIG(st)}",
           read("out"), read("err"), [json.loads(x) for x in read("trace").splitlines()])
    for n in names.values():
        if os.path.exists(n):
            os.unlink(n)
    os.rmdir(d)
    return ret


def clean(text):
    """removes what differs between runs: times, memory"""
    text = re.sub(r"(?m)^(Time|CPU Time|CPU|Threads).*$", r"\1", text)
    text = re.sub(r'"(Total|Solve|Model|Unsat|CPU)": [-0-9.e+]+', r'"\1": T', text)
    text = re.sub(r"\d+\.\d+s", "T", text)
    return text


# ---------------------------------------------------------------- behaviour shared by all bindings
class Behaviour:
    """the callbacks of the application; api offers mk(tree)"""

    def __init__(self, spec, trace, mk, exc=ValueError):
        self.spec, self.trace, self.mk, self.exc = spec, trace, mk, exc
        self.flags = {}

    def parse(self, i, value):
        o = self.spec["options"][i]
        if o["accept"] == "raise":
            self.trace("parse raises", i, value)
            raise self.exc("parsing failed")
        ok = {"all": lambda v: True, "none": lambda v: False, "short": lambda v: len(v) < 3,
              "digit": lambda v: v.isdigit()}[o["accept"]](value)
        self.trace("parse", i, value, ok)
        return ok

    def validate(self):
        v = self.spec["validate"]
        if v == "raise":
            raise self.exc("validation failed")
        if v == "flags":
            v = not any(f() for f in self.flags.values())
        self.trace("validate", v, [[i, bool(f())] for i, f in sorted(self.flags.items())])
        return v

    def log(self, code, msg):
        self.trace("log", code, msg)

    def model(self, m, printer):
        self.trace("model", [str(x) for x in m.symbols(atoms=True)], [str(x) for x in m.symbols(shown=True)], list(m.cost), m.number)
        for op in self.spec["print"]:
            if op[0] == "text":
                print(op[1], end="")
            elif op[0] == "print":
                sys.stdout.flush()
                printer()
            elif op[0] == "extend":
                m.extend([self.mk(t) for t in op[1]])
            elif op[0] == "raise":
                raise self.exc("printing failed")

    def main(self, ctl, files):
        self.trace("main", list(files))
        for op in self.spec["main"]:
            self.trace("op", op[0])
            if op[0] == "load":
                for f in files:
                    ctl.load(f)
                if not files:
                    ctl.load("-")
            elif op[0] == "add":
                ctl.add("base", [], op[1])
            elif op[0] == "ground":
                ctl.ground([(n, [self.mk(t) for t in a]) for n, a in op[1]])
            elif op[0] == "const":
                r = ctl.get_const(op[1])
                self.trace("const", op[1], None if r is None else str(r))
            elif op[0] == "solve":
                ms = []
                r = ctl.solve(on_model=lambda m: (ms.append([str(x) for x in m.symbols(atoms=True)]), True)[1])
                self.trace("solved", str(r), ms)
            elif op[0] == "text":
                print(op[1])
            elif op[0] == "raise":
                raise self.exc("main failed")


def py_app(spec, trace):
    import sess
    from clingo.application import Application, Flag, clingo_main
    b = Behaviour(spec, trace, sess.PyApi().mk)
    ns = {}
    for n in ("program_name", "version", "message_limit"):
        if spec[n] is not None:
            ns[n] = spec[n]
    if spec["options"] is not None:
        def register(self, options):
            for i, o in enumerate(spec["options"]):
                if o["kind"] == "flag":
                    f = Flag(o["init"]) if o["init"] is not None else Flag()
                    b.flags[i] = (lambda f, h: lambda: f.flag if h else f)(f, i % 2)
                    options.add_flag(o["group"], o["spec"], o["desc"], f)
                else:
                    p = (lambda i: lambda v: b.parse(i, v))(i)
                    if o["arg"] is None:
                        options.add(o["group"], o["spec"], o["desc"], p, o["multi"])
                    else:
                        options.add(o["group"], o["spec"], o["desc"], p, o["multi"], o["arg"])
            trace("registered")
        ns["register_options"] = register
    if spec["validate"] is not None:
        ns["validate_options"] = lambda self: b.validate()
    if spec["logger"]:
        ns["logger"] = lambda self, code, msg: b.log(code.name, msg)
    if spec["print"] is not None:
        ns["print_model"] = lambda self, m, printer: b.model(m, printer)
    if spec["main"] is not None:
        ns["main"] = lambda self, ctl, files: b.main(ctl, files)
    inst = {}
    if spec["style"] == "instance":  # attributes set on the object
        for n in ("program_name", "version", "message_limit"):
            if n in ns:
                inst[n] = ns.pop(n)
    cls = type("App", (Application,) if spec["style"] != "duck" else (), ns)
    app = cls()
    for k, v in inst.items():
        setattr(app, k, v)
    if spec["argv"] == "sys":
        sys.argv = ["prog"] + spec["args"]
        return clingo_main(app)
    return clingo_main(app, spec["args"])


def warm():
    """cffi parses each type only once: do it before forking"""
    import refclingo as rc
    rc.raw()
    for x in ("char const*(void*)", "unsigned(void*)", "void(clingo_warning_t, char const*, void*)", "bool(void*)", "bool(char const*, void*)",
              "bool(clingo_options_t*, void*)", "bool(clingo_model_t const*, clingo_default_model_printer_t, void*, void*)",
              "bool(clingo_control_t*, char const*const*, size_t, void*)", "clingo_application_t*", "char[]", "char const*[]", "bool*",
              "bool(clingo_solve_event_type_t, void *, void *, bool *)", "clingo_symbol_t[]", "clingo_literal_t[]", "size_t*", "int64_t[]",
              "uint64_t*", "clingo_part_t[]", "clingo_solve_result_bitset_t*", "clingo_solve_handle_t**", "clingo_model_t**",
              "clingo_model_t const**", "clingo_solve_handle_t**", "clingo_solve_handle_t**", "clingo_solve_handle_t*", "clingo_symbol_t*"):
        (lambda t: rc.ffi.callback(t, lambda *a: None) if "(" in t else rc.ffi.typeof(t))(x)


def ref_app(spec, trace):
    import refclingo as rc
    import sess
    rc.raw()
    ffi, lib = rc.ffi, rc.lib
    b = Behaviour(spec, trace, sess.RefApi().mk)
    keep = []

    def guard(f, default, panic):
        def call(*a):
            try:
                return f(*a)
            except BaseException:  # noqa: B902
                traceback.print_exc()
                if panic:
                    os._exit(1)
                return default
        return call

    def cb(ct, f, default=False, panic=True):
        c = ffi.callback(ct, guard(f, default, panic))
        keep.append(c)
        return c

    def text(t):
        c = ffi.new("char[]", t.encode())
        keep.append(c)
        return c
    app = ffi.new("clingo_application_t*")
    if spec["program_name"] is not None:
        app.program_name = cb("char const*(void*)", lambda d: text(spec["program_name"]), ffi.NULL)
    if spec["version"] is not None:
        app.version = cb("char const*(void*)", lambda d: text(spec["version"]), ffi.NULL)
    if spec["message_limit"] is not None:
        app.message_limit = cb("unsigned(void*)", lambda d: spec["message_limit"], 0)
    if spec["logger"]:
        app.logger = cb("void(clingo_warning_t, char const*, void*)", lambda c, m, d: b.log(rc.MSG[c], rc.s(m)), None)
    if spec["validate"] is not None:
        app.validate_options = cb("bool(void*)", lambda d: bool(b.validate()))
    if spec["options"] is not None:
        def register(opts, d):
            for i, o in enumerate(spec["options"]):
                if o["kind"] == "flag":
                    p = ffi.new("bool*", bool(o["init"]))
                    keep.append(p)
                    b.flags[i] = (lambda p: lambda: p[0])(p)
                    rc.F("options_add_flag", opts, text(o["group"]), text(o["spec"]), text(o["desc"]), p)
                else:
                    c = cb("bool(char const*, void*)", (lambda i: lambda v, d: b.parse(i, rc.s(v)))(i))
                    rc.F("options_add", opts, text(o["group"]), text(o["spec"]), text(o["desc"]), c, ffi.NULL, o["multi"],
                         ffi.NULL if o["arg"] is None else text(o["arg"]))
            trace("registered")
            return True
        app.register_options = cb("bool(clingo_options_t*, void*)", register)
    if spec["print"] is not None:
        def show(m, printer, pd, d):
            def pr():
                if not printer(pd):
                    rc._fail(None)
            b.model(rc.Model(m), pr)
            sys.stdout.flush()
            return True
        app.printer = cb("bool(clingo_model_t const*, clingo_default_model_printer_t, void*, void*)", show, False, False)
    if spec["main"] is not None:
        def main(c, files, n, d):
            ctl = rc.Control.__new__(rc.Control)
            ctl.err, ctl.keep, ctl.rep = rc._Err(), keep, c
            b.main(ctl, [rc.s(files[i]) for i in range(n)])
            return True
        app.main = cb("bool(clingo_control_t*, char const*const*, size_t, void*)", main, False, False)
    args = [text(a) for a in spec["args"]]
    return lib.clingo_main(app, ffi.new("char const*[]", args), len(args), ffi.NULL)


# ---------------------------------------------------------------- C++
KINDS = {"runtime_error": 1, "range_error": 1, "UserError": 1, "logic_error": 2, "out_of_range": 2, "bad_alloc": 3, "PlainError": 4, "int": 4, "string": 4}


class CxxError(Exception):
    """an exception of a C++ type; what clingo.hh turns it into"""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.code = KINDS[kind]
        self.msg = {3: "std::bad_alloc", 4: "unknown error"}.get(self.code, msg)


def cxx_ref_app(spec, trace):
    """what an application with C++ callbacks has to do, with the raw C interface"""
    import refclingo as rc
    import sess
    rc.raw()
    ffi, lib = rc.ffi, rc.lib
    b = Behaviour(spec, trace, sess.RefApi().mk, lambda m: CxxError(spec["kind"], m))
    keep = []

    def cb(ct, f, default=False, report=True):
        def call(*a):
            try:
                return f(*a)
            except CxxError as e:
                if report:
                    lib.clingo_set_error(e.code, e.msg.encode())
            except BaseException as e:  # noqa: B902
                if hasattr(e, "code") and report:
                    code = {4: 1, 0: 1}.get(e.code, e.code)
                    lib.clingo_set_error(code, str(e).encode() if code != 3 else b"std::bad_alloc")
                    return default
                traceback.print_exc()
                os._exit(97)
            return default
        c = ffi.callback(ct, call)
        keep.append(c)
        return c

    def text(t):
        c = ffi.new("char[]", t.encode())
        keep.append(c)
        return c
    app = ffi.new("clingo_application_t*")
    if spec["program_name"] is not None:
        app.program_name = cb("char const*(void*)", lambda d: text(spec["program_name"]), ffi.NULL)
    vers = spec["version"] if spec["version"] is not None else header_version()
    app.version = cb("char const*(void*)", lambda d: text(vers), ffi.NULL)
    if spec["message_limit"] is not None:
        app.message_limit = cb("unsigned(void*)", lambda d: spec["message_limit"], 0)
    if spec["logger"]:
        app.logger = cb("void(clingo_warning_t, char const*, void*)", lambda c, m, d: b.log(rc.MSG[c], rc.s(m)), None)
    if spec["validate"] is not None:
        def validate(d):
            if not b.validate():
                raise b.exc("invalid options")
            return True
        app.validate_options = cb("bool(void*)", validate)
    if spec["options"] is not None:
        def register(opts, d):
            for i, o in enumerate(spec["options"]):
                if o["kind"] == "flag":
                    p = ffi.new("bool*", bool(o["init"]))
                    keep.append(p)
                    b.flags[i] = (lambda p: lambda: p[0])(p)
                    rc.F("options_add_flag", opts, text(o["group"]), text(o["spec"]), text(o["desc"]), p)
                else:
                    c = cb("bool(char const*, void*)", (lambda i: lambda v, d: b.parse(i, rc.s(v)))(i), False, False)
                    rc.F("options_add", opts, text(o["group"]), text(o["spec"]), text(o["desc"]), c, ffi.NULL, o["multi"],
                         ffi.NULL if o["arg"] is None else text(o["arg"]))
            trace("registered")
            if spec.get("register") == "raise":
                raise b.exc("registering failed")
            return True
        app.register_options = cb("bool(clingo_options_t*, void*)", register)
    if spec["print"] is not None:
        def show(m, printer, pd, d):
            def pr():
                if not printer(pd):
                    rc._fail(None)
            b.model(rc.Model(m), pr)
            sys.stdout.flush()
            return True
        app.printer = cb("bool(clingo_model_t const*, clingo_default_model_printer_t, void*, void*)", show)

    def main(c, files, n, d):
        ctl = rc.Control.__new__(rc.Control)
        ctl.err, ctl.keep, ctl.rep = rc._Err(), keep, c
        b.main(ctl, [rc.s(files[i]) for i in range(n)])
        return True
    app.main = cb("bool(clingo_control_t*, char const*const*, size_t, void*)", main)
    args = [text(a) for a in spec["args"]]
    return lib.clingo_main(app, ffi.new("char const*[]", args), len(args), ffi.NULL)


def header_version():
    import vbuild
    m = re.search(r'#define CLINGO_VERSION "(.*)"', (vbuild.REPO / "libclingo/clingo.h").read_text())
    return m.group(1)


def cxx_app(spec, trace, path):
    import cppapi
    api = cppapi.CppApi(path, spec)
    m = api.m

    def exc(msg):
        e = m.CppError(msg)
        e.kind, e.msg, e.payload = spec["kind"], msg, 0
        return e
    b = Behaviour(spec, trace, api.mk, exc)
    ns = {}
    for n in ("program_name", "version", "message_limit"):
        if spec[n] is not None:
            ns[n] = spec[n]
    if spec["logger"]:
        ns["logger"] = lambda self, code, msg: b.log(cxx_code(code), msg)
    if spec["validate"] is not None:
        def validate(self):
            if not b.validate():
                raise exc("invalid options")
        ns["validate_options"] = validate
    if spec["options"] is not None:
        def register(self, opts):
            for i, o in enumerate(spec["options"]):
                if o["kind"] == "flag":
                    b.flags[i] = opts.add_flag(o["group"], o["spec"], o["desc"], bool(o["init"]))
                else:
                    opts.add(o["group"], o["spec"], o["desc"], (lambda i: lambda v: b.parse(i, v))(i), o["multi"], o["arg"])
            trace("registered")
            if spec.get("register") == "raise":
                raise exc("registering failed")
        ns["register_options"] = register
    if spec["print"] is not None:
        def show(self, mod, printer):
            b.model(cppapi.CModel(api, mod), printer)
            sys.stdout.flush()
        ns["print_model"] = show

    class Ctl(cppapi.CControl):
        def ground(self, parts):
            self.r.ground(parts, None)
    ns["main"] = lambda self, c, files: b.main(Ctl(api, c), files)
    r = m.clingo_main(type("App", (), ns)(), spec["args"])
    e = m.take_error()
    if e:
        trace("callback failed", e)
    return r


def cxx_code(s):
    """the name of a warning in Python"""
    import refclingo as rc
    return next(v for v in rc.MSG.values() if v.lower() == s.replace(" ", "").replace("_", "").lower())
