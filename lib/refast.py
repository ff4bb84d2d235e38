"""Syntax trees read with the raw C interface."""
import refclingo
import rawc

STRING, NUMBER, SYMBOL, LOCATION, AST, OPT, STRS, ASTS = "string", "number", "symbol", "location", "ast", "optional_ast", "string_array", "ast_array"


class RefAst:
    def __init__(self, raw=None):
        R = raw or refclingo.raw()
        self.R, self.lib, self.ffi = R, R.lib, R.ffi
        L = self.lib
        self.kinds = {getattr(L, "clingo_ast_attribute_type_" + k): k for k in (STRING, NUMBER, SYMBOL, LOCATION, AST, OPT, STRS, ASTS)}
        c, n = L.g_clingo_ast_constructors, L.g_clingo_ast_attribute_names
        self.attrs = [self.ffi.string(n.names[i]).decode() for i in range(n.size)]
        self.cons = [(self.ffi.string(c.constructors[i].name).decode(),
                      [(c.constructors[i].arguments[j].attribute, self.kinds[c.constructors[i].arguments[j].type]) for j in range(c.constructors[i].size)])
                     for i in range(c.size)]

    def s(self, p):
        return self.ffi.string(p).decode(errors="surrogateescape")

    def parse(self, text, limit=20, files=None):
        """([pointers], messages, error)"""
        asts, msgs = [], []

        @self.ffi.callback("bool(clingo_ast_t*,void*)")
        def cb(a, _):
            self.lib.clingo_ast_acquire(a)
            asts.append(a)
            return True

        @self.ffi.callback("void(clingo_warning_t,char const*,void*)")
        def log(c, m, _):
            msgs.append([refclingo.MSG[c], self.s(m)])
        err = None
        try:
            if files is None:
                self.R.f("clingo_ast_parse_string", text.encode(errors="surrogateescape") if isinstance(text, str) else text, cb, self.ffi.NULL, self.ffi.NULL, log, self.ffi.NULL, limit)
            else:
                fs = [self.ffi.new("char[]", f.encode()) for f in files]
                self.R.f("clingo_ast_parse_files", self.ffi.new("char const*[]", fs), len(fs), cb, self.ffi.NULL, self.ffi.NULL, log, self.ffi.NULL, limit)
        except rawc.ClingoError as e:
            err = e.msg
        return asts, msgs, err

    def free(self, asts):
        for a in asts:
            self.lib.clingo_ast_release(a)

    def str(self, a):
        return self.R.str2("clingo_ast_to_string", a)

    def loc(self, l):
        return [[self.s(l.begin_file), l.begin_line, l.begin_column], [self.s(l.end_file), l.end_line, l.end_column]]

    def dump(self, a, loc=True):
        """{"type": name, attribute: value...}; symbols are texts"""
        v = self.R.v
        name, args = self.cons[v("clingo_ast_get_type", "clingo_ast_type_t", a)]
        ret = {"type": name}
        for at, kind in args:
            f = "clingo_ast_attribute_get_" + kind
            k = self.attrs[at]
            if kind == STRING:
                ret[k] = self.s(v(f, "char const*", a, at))
            elif kind == NUMBER:
                ret[k] = v(f, "int", a, at)
            elif kind == SYMBOL:
                ret[k] = ["symbol", self.R.sym_str(v(f, "clingo_symbol_t", a, at))]
            elif kind == LOCATION:
                if loc:
                    ret[k] = self.loc(v(f, "clingo_location_t", a, at))
            elif kind in (AST, OPT):
                c = v(f, "clingo_ast_t*", a, at)
                ret[k] = None
                if c != self.ffi.NULL:
                    ret[k] = self.dump(c, loc)
                    self.lib.clingo_ast_release(c)
            elif kind == STRS:
                n = v("clingo_ast_attribute_size_string_array", "size_t", a, at)
                ret[k] = [self.s(v("clingo_ast_attribute_get_string_at", "char const*", a, at, i)) for i in range(n)]
            else:
                n = v("clingo_ast_attribute_size_ast_array", "size_t", a, at)
                ret[k] = []
                for i in range(n):
                    c = v("clingo_ast_attribute_get_ast_at", "clingo_ast_t*", a, at, i)
                    ret[k].append(self.dump(c, loc))
                    self.lib.clingo_ast_release(c)
        return ret

    def unpool(self, a, type_):
        out = []

        @self.ffi.callback("bool(clingo_ast_t*,void*)")
        def cb(x, _):
            out.append(self.str(x))
            return True
        self.R.f("clingo_ast_unpool", a, type_, cb, self.ffi.NULL)
        return out
