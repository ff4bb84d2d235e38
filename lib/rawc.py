"""The C interface of clingo without any wrapper (cffi in ABI mode): used as the
reference for the bindings (installed library) and as the door to the engine
library built from /repo (libvengine.so)."""
import os
import re
import subprocess
import sys
import tempfile

import cffi

_SPECIAL_HEADERS = ("stddef.h", "stdint.h", "stdbool.h", "stdlib.h", "string.h")


def header_cdef(header):
    """The declarations of a clingo.h in a form cffi accepts."""
    with tempfile.TemporaryDirectory() as tmp:
        for h in _SPECIAL_HEADERS:
            open(os.path.join(tmp, h), "w").close()
        src = open(header).read()
        p = subprocess.run(["gcc", "-E", "-P", "-nostdinc", f"-I{tmp}", "-"], input=src, capture_output=True, text=True,
                           cwd=os.path.dirname(header))
        if p.returncode != 0:
            raise RuntimeError(p.stderr)
    text = re.sub(r"__attribute__\s*\(\([^()]*(\([^()]*\))?[^()]*\)\)", "", p.stdout)
    return text


class ClingoError(Exception):
    def __init__(self, code, msg):
        super().__init__(msg)
        self.code, self.msg = code, msg


class RawLib:
    """Loads a shared library offering the interface declared in `header`.

    f(name, *args): call a bool-returning function, raise ClingoError if false.
    v(name, ctype, *args): same with one trailing out parameter, returns it."""

    def __init__(self, path, header, extra=""):
        self.ffi = cffi.FFI()
        self.ffi.cdef(header_cdef(header) + extra)
        flags = self.ffi.RTLD_NOW | getattr(self.ffi, "RTLD_LOCAL", 0)
        self.lib = self.ffi.dlopen(str(path), flags)

    def err(self):
        code = self.lib.clingo_error_code()
        m = self.lib.clingo_error_message()
        return ClingoError(code, "" if m == self.ffi.NULL else self.ffi.string(m).decode(errors="replace"))

    def f(self, name, *args):
        if not getattr(self.lib, name)(*args):
            raise self.err()

    def v(self, name, ctype, *args):
        p = self.ffi.new(ctype + "*")
        self.f(name, *args, p)
        return p[0]

    def str2(self, name, *args):
        """size/to_string function pairs."""
        n = self.v(name + "_size", "size_t", *args)
        buf = self.ffi.new("char[]", n)
        self.f(name, *args, buf, n)
        return self.ffi.string(buf).decode(errors="surrogateescape")

    def s(self, x):
        return x.encode() if isinstance(x, str) else x

    # -- symbols
    def num(self, n):
        p = self.ffi.new("clingo_symbol_t*")
        self.lib.clingo_symbol_create_number(n, p)
        return p[0]

    def inf(self):
        p = self.ffi.new("clingo_symbol_t*")
        self.lib.clingo_symbol_create_infimum(p)
        return p[0]

    def sup(self):
        p = self.ffi.new("clingo_symbol_t*")
        self.lib.clingo_symbol_create_supremum(p)
        return p[0]

    def string(self, s):
        return self.v("clingo_symbol_create_string", "clingo_symbol_t", self.s(s))

    def fun(self, name, args=(), positive=True):
        a = self.ffi.new("clingo_symbol_t[]", list(args))
        return self.v("clingo_symbol_create_function", "clingo_symbol_t", self.s(name), a, len(args), positive)

    def sym_str(self, sym):
        return self.str2("clingo_symbol_to_string", sym)

    def sym_tree(self, sym):
        """nested tuple value of a symbol: ('n',3) ('s',str) ('f',name,args,positive) ('inf',) ('sup',)"""
        t = self.lib.clingo_symbol_type(sym)
        L = self.lib
        if t == L.clingo_symbol_type_number:
            return ("n", self.v2("clingo_symbol_number", "int", sym))
        if t == L.clingo_symbol_type_string:
            return ("s", self.ffi.string(self.v2("clingo_symbol_string", "char const*", sym)).decode())
        if t == L.clingo_symbol_type_function:
            name = self.ffi.string(self.v2("clingo_symbol_name", "char const*", sym)).decode()
            pa, pn = self.ffi.new("clingo_symbol_t const**"), self.ffi.new("size_t*")
            self.f("clingo_symbol_arguments", sym, pa, pn)
            return ("f", name, tuple(self.sym_tree(pa[0][i]) for i in range(pn[0])),
                    bool(self.v2("clingo_symbol_is_positive", "bool", sym)))
        return ("inf",) if t == L.clingo_symbol_type_infimum else ("sup",)

    v2 = v

    def mk(self, tree):
        k = tree[0]
        if k == "n":
            return self.num(tree[1])
        if k == "s":
            return self.string(tree[1])
        if k == "f":
            return self.fun(tree[1], [self.mk(t) for t in tree[2]], tree[3])
        return self.inf() if k == "inf" else self.sup()

    def parse_term(self, s, limit=20):
        """(symbol, messages); symbol None when rejected"""
        msgs = []
        cb = self._logger(msgs)
        p = self.ffi.new("clingo_symbol_t*")
        ok = self.lib.clingo_parse_term(self.s(s), cb, self.ffi.NULL, limit, p)
        return (p[0] if ok else None), msgs

    def _logger(self, msgs):
        @self.ffi.callback("void(clingo_warning_t, char const*, void*)")
        def log(code, msg, data):
            msgs.append((code, self.ffi.string(msg).decode(errors="replace")))
        self._keep = log
        return log

    def control(self, args=(), limit=100):
        return RawControl(self, args, limit)


class RawControl:
    def __init__(self, raw, args=(), limit=100):
        self.raw = raw
        ffi = raw.ffi
        self.msgs = []
        self._keep = []
        log = ffi.callback("void(clingo_warning_t, char const*, void*)",
                           lambda code, msg, data: self.msgs.append((code, ffi.string(msg).decode(errors="replace"))))
        self._keep.append(log)
        cargs = [ffi.new("char[]", raw.s(a)) for a in args]
        arr = ffi.new("char const*[]", cargs)
        self.ctl = raw.v("clingo_control_new", "clingo_control_t*", arr, len(cargs), log, ffi.NULL, limit)

    def free(self):
        if self.ctl is not None:
            self.raw.lib.clingo_control_free(self.ctl)
            self.ctl = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.free()

    def add(self, name, params, text):
        ffi = self.raw.ffi
        cp = [ffi.new("char[]", self.raw.s(p)) for p in params]
        self.raw.f("clingo_control_add", self.ctl, self.raw.s(name), ffi.new("char const*[]", cp), len(cp),
                   self.raw.s(text))

    def ground(self, parts=(("base", ()),), callback=None):
        """parts: (name, [symbol reps]); callback(name, args)->list of symbol reps"""
        ffi, raw = self.raw.ffi, self.raw
        keep = []
        cparts = ffi.new("clingo_part_t[]", len(parts))
        for i, (name, args) in enumerate(parts):
            n = ffi.new("char[]", raw.s(name))
            a = ffi.new("clingo_symbol_t[]", list(args))
            keep += [n, a]
            cparts[i].name, cparts[i].params, cparts[i].size = n, a, len(args)
        cb = ffi.NULL
        exc = []
        if callback:
            def py(loc, name, args, nargs, data, symcb, symdata):
                try:
                    ret = list(callback(ffi.string(name).decode(), [args[i] for i in range(nargs)]))
                    arr = ffi.new("clingo_symbol_t[]", ret)
                    return bool(symcb(arr, len(ret), symdata))
                except Exception as e:
                    exc.append(e)
                    raw.lib.clingo_set_error(raw.lib.clingo_error_unknown, b"callback")
                    return False
            cb = ffi.callback("bool(clingo_location_t const *, char const *, clingo_symbol_t const *, size_t, void *, "
                              "clingo_symbol_callback_t, void *)", py)
        try:
            raw.f("clingo_control_ground", self.ctl, cparts, len(parts), cb, ffi.NULL)
        except ClingoError:
            if exc:
                raise exc[0]
            raise

    # -- engine library only
    def output(self):
        p, n = self.raw.ffi.new("char const**"), self.raw.ffi.new("size_t*")
        self.raw.lib.vengine_output(self.ctl, p, n)
        return self.raw.ffi.buffer(p[0], n[0])[:].decode(errors="surrogateescape")

    def end_step(self, assumptions=()):
        """solve(): for the engine library this only finishes the step's output."""
        ffi, raw = self.raw.ffi, self.raw
        a = ffi.new("clingo_literal_t[]", list(assumptions))
        h = raw.v("clingo_control_solve", "clingo_solve_handle_t*", self.ctl, 0, a, len(assumptions), ffi.NULL, ffi.NULL)
        raw.v("clingo_solve_handle_get", "clingo_solve_result_bitset_t", h)
        raw.f("clingo_solve_handle_close", h)

    def atoms(self):
        raw = self.raw
        dom = raw.v("clingo_control_symbolic_atoms", "clingo_symbolic_atoms_t const*", self.ctl)
        it = raw.v("clingo_symbolic_atoms_begin", "clingo_symbolic_atom_iterator_t", dom, raw.ffi.NULL)
        ret = []
        while raw.v("clingo_symbolic_atoms_is_valid", "bool", dom, it):
            ret.append((raw.v("clingo_symbolic_atoms_symbol", "clingo_symbol_t", dom, it),
                        raw.v("clingo_symbolic_atoms_literal", "clingo_literal_t", dom, it),
                        bool(raw.v("clingo_symbolic_atoms_is_fact", "bool", dom, it)),
                        bool(raw.v("clingo_symbolic_atoms_is_external", "bool", dom, it))))
            it = raw.v("clingo_symbolic_atoms_next", "clingo_symbolic_atom_iterator_t", dom, it)
        return ret

    def lookup(self, sym):
        raw = self.raw
        dom = raw.v("clingo_control_symbolic_atoms", "clingo_symbolic_atoms_t const*", self.ctl)
        it = raw.v("clingo_symbolic_atoms_find", "clingo_symbolic_atom_iterator_t", dom, sym)
        if not raw.v("clingo_symbolic_atoms_is_valid", "bool", dom, it):
            return None
        return raw.v("clingo_symbolic_atoms_literal", "clingo_literal_t", dom, it)

    def assign_external(self, lit, value):
        self.raw.f("clingo_control_assign_external", self.ctl, lit, value)

    def release_external(self, lit):
        self.raw.f("clingo_control_release_external", self.ctl, lit)


_cache = {}


def installed():
    if "i" not in _cache:
        _cache["i"] = RawLib("libclingo.so.4", "/usr/include/clingo.h")
    return _cache["i"]


def engine(path=None, header=None):
    import vbuild
    if "e" not in _cache:
        path = path or os.environ.get("VP_ENGINE") or vbuild.engine_lib()
        header = header or str(vbuild.REPO / "libclingo/clingo.h")
        _cache["e"] = RawLib(path, header, """
bool vengine_output(clingo_control_t *ctl, char const **data, size_t *size);
bool vengine_incmode(clingo_control_t *ctl);
bool vengine_run_incmode(clingo_control_t *ctl);
""")
    return _cache["e"]
