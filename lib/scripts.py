"""Embedded scripts and external functions: one description (JSON), compiled to Python, Lua and a language of our own,
and evaluated by a model.

A case has "langs" (registration order) and "items": script blocks and statements.
block:  {"lang": l, "defs": [["fun", name, behaviour] | ["set", var, tree] | ["main", ops]]}
"""
import json


# ---------------------------------------------------------------- source code
def py_sym(t):
    k = t[0]
    if k == "n":
        return f"clingo.Number({t[1]})"
    if k == "s":
        return f"clingo.String({t[1]!r})"
    if k == "f":
        return f"clingo.Function({t[1]!r}, [{', '.join(map(py_sym, t[2]))}], {t[3]})"
    return "clingo.Infimum" if k == "inf" else "clingo.Supremum"


def lua_str(x):
    return '"' + "".join(chr(c) if chr(c).isalnum() and c < 128 or chr(c) in "_ " else f"\\{c:03d}" for c in x.encode()) + '"'


def lua_sym(t):
    k = t[0]
    if k == "n":
        return f"clingo.Number({t[1]})"
    if k == "s":
        return f"clingo.String({lua_str(t[1])})"
    if k == "f":
        return f"clingo.Function({lua_str(t[1])}, {{{', '.join(map(lua_sym, t[2]))}}}, {str(t[3]).lower()})"
    return "clingo.Infimum" if k == "inf" else "clingo.Supremum"


FORMS = ["[{}]", "({},)", "iter([{}])", "(x for x in [{}])", "dict.fromkeys([{}])", "[*[{}]]"]


def py_fun(name, b, form):
    k = b[0]
    seq = (lambda items: FORMS[form % len(FORMS)].format(items) if items else "[]")
    body = {"const": lambda: "return " + py_sym(b[1]), "many": lambda: "return " + seq(", ".join(map(py_sym, b[1]))),
            "args": lambda: "return " + seq("*a"), "rev": lambda: "return a[::-1]",
            "wrap": lambda: f"return clingo.Function({b[1]!r}, list(a))", "nargs": lambda: "return clingo.Number(len(a))",
            "sum": lambda: "return clingo.Number(sum(x.number for x in a if x.type == clingo.SymbolType.Number))",
            "arg": lambda: f"return a[{b[1]} % len(a)] if a else []",
            "type": lambda: "return [clingo.String(x.type.name) for x in a]",
            "var": lambda: f"return globals().get({'v_' + b[1]!r}, [])",
            "raise": lambda: f"raise ValueError({b[1]!r})"}[k]()
    return f"def {name}(*a):\n    {body}\n"


def lua_fun(name, b, form):
    k = b[0]
    body = {"const": lambda: "return " + lua_sym(b[1]), "many": lambda: "return {" + ", ".join(map(lua_sym, b[1])) + "}",
            "args": lambda: "return a", "rev": lambda: "local r = {} for i = #a, 1, -1 do r[#r+1] = a[i] end return r",
            "wrap": lambda: f"return clingo.Function({lua_str(b[1])}, a)", "nargs": lambda: "return clingo.Number(#a)" if form % 2 else "return #a",
            "sum": lambda: "local s = 0 for _, x in ipairs(a) do if x.type == clingo.SymbolType.Number then s = s + x.number end end return clingo.Number(s)",
            "arg": lambda: f"if #a == 0 then return {{}} end return a[{b[1]} % #a + 1]",
            "type": lambda: "local r = {} for i, x in ipairs(a) do r[i] = tostring(x.type) end return r",
            "var": lambda: f"if v_{b[1]} == nil then return {{}} end return v_{b[1]}",
            "raise": lambda: f"error({lua_str(b[1])})"}[k]()
    return f"function {name}(...)\n    local a = {{...}}\n    {body}\nend\n"


def py_main(ops):
    out = ["def main(prg):", "    def show(m):", "        for x in m.symbols(atoms=True):", "            print('M ' + str(x), flush=True)",
           "    print('MAIN python', flush=True)"]
    for op in ops:
        k = op[0]
        if k == "ground":
            out.append(f"    prg.ground([{', '.join('(%r, [%s])' % (n, ', '.join(map(py_sym, a))) for n, a in op[1])}])")
        elif k == "add":
            out.append(f"    prg.add('base', [], {op[1]!r})")
        elif k == "solve":
            out.append("    print('SOLVE', flush=True)\n    r = prg.solve(on_model=show)\n    print('R ' + str(r), flush=True)")
        elif k == "const":
            out.append(f"    print('C ' + str(prg.get_const({op[1]!r})), flush=True)")
        elif k == "global":
            out.append(f"    print('G ' + str(globals().get({'v_' + op[1]!r})), flush=True)")
    return "\n".join(out) + "\n"


def lua_main(ops):
    out = ["function main(prg)", "    local function out(x) io.write(x .. '\\n') io.flush() end",
           "    local function show(m) for _, x in ipairs(m:symbols{atoms=true}) do out('M ' .. tostring(x)) end end", "    out('MAIN lua')"]
    for op in ops:
        k = op[0]
        if k == "ground":
            out.append(f"    prg:ground({{{', '.join('{%s, {%s}}' % (lua_str(n), ', '.join(map(lua_sym, a))) for n, a in op[1])}}})")
        elif k == "add":
            out.append(f"    prg:add('base', {{}}, {lua_str(op[1])})")
        elif k == "solve":
            out.append("    out('SOLVE') local r = prg:solve{on_model=show} out('R ' .. (r.satisfiable and 'SAT' or 'UNSAT'))")
        elif k == "const":
            out.append(f"    local c = prg:get_const({lua_str(op[1])}) out('C ' .. (c == nil and 'None' or tostring(c)))")
        elif k == "global":
            out.append(f"    out('G ' .. (v_{op[1]} == nil and 'None' or tostring(v_{op[1]})))")
    return "\n".join(out) + "\nend\n"


def code(block, first):
    lang = block["lang"]
    if lang == "python":
        out = "import clingo\n" if first else "pass\n"
        for i, d in enumerate(block["defs"]):
            out += py_fun(d[1], d[2], d[3]) if d[0] == "fun" else f"v_{d[1]} = {py_sym(d[2])}\n" if d[0] == "set" else py_main(d[1])
        return out
    if lang == "lua":
        out = "local x = 1\n"
        for d in block["defs"]:
            out += lua_fun(d[1], d[2], d[3]) if d[0] == "fun" else f"v_{d[1]} = {lua_sym(d[2])}\n" if d[0] == "set" else lua_main(d[1])
        return out
    return json.dumps(block["defs"], ensure_ascii=False).replace("#end.", "")


def statement(i, s, sym):
    def call(f, args):
        return f"@{f}({','.join(a if isinstance(a, str) else sym(a) for a in args)})"
    k = s[0]
    if k == "fact":
        return f"r({i},{call(s[1], s[2])})."
    if k == "vars":
        return f"r({i},(X,{call(s[1], ['X'] + s[3])})) :- X=1..{s[2]}."
    if k == "nest":
        return f"r({i},{call(s[1], [call(s[2], s[3]), ['n', 1]])})."
    if k == "two":
        return f"r({i},({call(s[1], s[3])},{call(s[2], s[3])}))."
    if k == "body":
        return f"r({i},ok) :- {call(s[1], s[2])} = {sym(s[3])}."
    if k == "step":
        return f"#program step(t). s({i},t,{call(s[1], ['t'] + s[2])}). #program base."
    raise AssertionError(k)


def fun(name, *args):
    return ["f", name, list(args), True]


# ---------------------------------------------------------------- model
class Lang:
    def __init__(self, name):
        self.name, self.used, self.funs, self.vars, self.main = name, False, {}, {}, None

    def run(self, defs):
        self.used = True
        for d in defs:
            if d[0] == "fun":
                self.funs[d[1]] = d[2]
            elif d[0] == "set":
                self.vars[d[1]] = d[2]
            else:
                self.main = d[1]


class Raised(Exception):
    pass


def apply(lang, b, args):
    """what a function with the given behaviour returns"""
    k = b[0]
    if k == "const":
        return [b[1]]
    if k == "many":
        return b[1]
    if k == "args":
        return args
    if k == "rev":
        return args[::-1]
    if k == "wrap":
        return [fun(b[1], *args)]
    if k == "nargs":
        return [["n", len(args)]]
    if k == "sum":
        return [["n", sum(a[1] for a in args if a[0] == "n")]]
    if k == "arg":
        return [args[b[1] % len(args)]] if args else []
    if k == "type":
        return [["s", {"n": "Number", "s": "String", "f": "Function", "inf": "Infimum", "sup": "Supremum"}[a[0]]] for a in args]
    if k == "var":
        return [lang.vars[b[1]]] if b[1] in lang.vars else []
    raise Raised(b[1])


class Model:
    def __init__(self, case):
        self.langs = [Lang(x) for x in case["langs"]]
        self.undefined, self.calls = set(), []
        # what may but need not happen: one of two functions called by one rule is not called if the other has no value
        self.may_undefined, self.may_calls = set(), []
        self.items = case["items"]
        order = [[]]
        for it in self.items:
            order.append([]) if it == "file" else order[-1].append(it)
        for it in sum(order[::-1] if case.get("lifo") else order, []):
            if isinstance(it, dict):
                for x in self.langs:
                    if x.name == it["lang"]:
                        x.run(it["defs"])

    def call(self, name, args):
        for x in self.langs:
            if x.used and name in x.funs:
                self.calls.append((x.name, name, args))
                return apply(x, x.funs[name], args)
        self.undefined.add(name)
        return []

    def main(self):
        for x in self.langs:
            if x.used and x.main is not None:
                return x
        return None

    def atoms(self, parts):
        """the atoms that grounding the parts derives"""
        out = []

        def add(i, *rest):
            out.append(fun("r", ["n", i], *rest))
        for part, args in parts:
            for i, s in enumerate(self.items):
                if isinstance(s, dict) or s == "file" or (s[0] == "step") != (part == "step"):
                    continue
                k = s[0]
                if k == "fact":
                    for v in self.call(s[1], s[2]):
                        add(i, v)
                elif k == "vars":
                    for x in range(1, s[2] + 1):
                        for v in self.call(s[1], [["n", x]] + s[3]):
                            add(i, fun("", ["n", x], v))
                elif k == "nest":
                    for u in self.call(s[2], s[3]):
                        for v in self.call(s[1], [u, ["n", 1]]):
                            add(i, v)
                elif k == "two":
                    before = set(self.undefined), list(self.calls)
                    us, vs = self.call(s[1], s[3]), self.call(s[2], s[3])
                    if not us or not vs:
                        self.may_undefined |= self.undefined
                        self.may_calls += self.calls
                        self.undefined, self.calls = before
                    for u in us:
                        for v in vs:
                            add(i, fun("", u, v))
                elif k == "body":
                    if s[3] in self.call(s[1], s[2]):
                        add(i, fun("ok"))
                elif k == "step":
                    for v in self.call(s[1], [args[0]] + s[2]):
                        out.append(fun("s", ["n", i], args[0], v))
        return out


# ---------------------------------------------------------------- a script language of our own, driven by the Python binding
def custom(name, trace, base, mk, tree):
    lang = Lang(name)

    class Custom(base):
        def execute(self, location, code):
            trace("execute", name, location.begin.filename, location.begin.line, location.begin.column, code)
            lang.run(json.loads(code))

        def call(self, location, fun, arguments):
            args = [tree(a) for a in arguments]
            trace("call", name, fun, args, location.begin.filename, location.begin.line)
            ret = apply(lang, lang.funs[fun], args)
            b = lang.funs[fun][0]
            if b in ("const", "wrap", "nargs", "sum"):
                return mk(ret[0])
            if b == "many":
                return tuple(mk(t) for t in ret)
            if b == "rev":
                return iter([mk(t) for t in ret])
            return [mk(t) for t in ret]

        def callable(self, fun):
            return lang.main is not None if fun == "main" else fun in lang.funs

        def main(self, control):
            trace("main", name)
            for op in lang.main:
                k = op[0]
                if k == "ground":
                    control.ground([(n, [mk(t) for t in a]) for n, a in op[1]])
                elif k == "add":
                    control.add("base", [], op[1])
                elif k == "solve":
                    ms = []
                    r = control.solve(on_model=lambda m: ms.append([str(x) for x in m.symbols(atoms=True)]))
                    trace("solve", str(r), ms)
                elif k == "const":
                    trace("const", str(control.get_const(op[1])))
                elif k == "global":
                    trace("global", str(mk(lang.vars[op[1]])) if op[1] in lang.vars else "None")
    return Custom()


def tree(s):
    """a symbol of the Python package as a tree"""
    n = s.type.name
    if n == "Number":
        return ["n", s.number]
    if n == "String":
        return ["s", s.string]
    if n == "Function":
        return ["f", s.name, [tree(a) for a in s.arguments], s.positive]
    return ["inf"] if n == "Infimum" else ["sup"]
