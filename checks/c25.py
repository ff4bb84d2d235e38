"""C25: Lua symbols, containers and inspection agree with the solver library."""
from luacommon import *
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.theory_stm(), g.theory_stm(), g.project()]
TEXT = g.text(EXTRA, 4)
SOLVE = g.solve(modes=("sync", "yield"))


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT)], ["ground", [["base", []]]]]
    for _ in range(draw(g.N(1, 5))):
        ops.append(draw(g.one_of(g.atoms_op(), g.atoms_op(), g.conf_op(), g.conf_op(), g.attr_op(), st.just(["theory"]), st.just(["theory"]), st.just(["stats"]), st.just(["conf_walk"]), g.ext_op(),
                                 SOLVE, g.backend(theory=False))))
    return lua_session(draw, ops, g)


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(sum(1 for e in t if e[0] == "op" and e[2] in ("atoms", "theory", "stats", "conf", "conf_walk")) > 1)


BAD = g.pick([["bool", True], ["bool", False], ["float", 1.5], ["float", -0.25], ["float", 2147483648.0], ["float", 1e300], ["int", 2147483648],
              ["int", -2147483649], ["int", 2**40 + 7], ["int", -2**63], ["fun"], ["table"], ["nan"], ["thread"], ["clingo"], ["inf"]])
NUM = g.one_of(g.N(-3, 3), g.pick([2147483647, -2147483648, 0, 10**9]))
TREE = g.tree(3)


@st.composite
def sym_case(draw):
    return {"a": draw(TREE), "b": draw(TREE), "bad": draw(BAD), "where": draw(g.pick(["arg", "arg", "tuple", "number", "string", "lookup", "contains", "assign", "part", "ret"])),
            "raw": draw(st.lists(g.one_of(NUM, st.text(alphabet="abc %\n\"\\é", max_size=4)), max_size=4)), "order": draw(g.pick(["up", "down", "mixed", "literal"])),
            "stress": draw(g.pick([0, 0, 1, 2]))}


TABLES = """
local F = clingo.Function
return {
  up = function(name, v) local t = {} for i = 1, #v do t[i] = v[i] end return F(name, t) end,
  down = function(name, v) local t = {} for i = #v, 1, -1 do t[i] = v[i] end return F(name, t) end,
  mixed = function(name, v) local t = {} for i = #v, 1, -2 do t[i] = v[i] end for i = #v - 1, 1, -2 do t[i] = v[i] end return F(name, t) end,
  literal = function(name, v) return F(name, v) end,
  bad = function(kind, v)
    if kind == "fun" then return print elseif kind == "table" then return {} elseif kind == "nan" then return 0/0
    elseif kind == "inf" then return 1/0 elseif kind == "thread" then return coroutine.create(print)
    elseif kind == "clingo" then return clingo.SymbolType.Function end
    return v end,
  tostring = function(x) return tostring(x) end,
  try = function(w, bad)
    if w == "arg" then return F("f", {1, bad})
    elseif w == "tuple" then return clingo.Tuple({bad})
    elseif w == "number" then return clingo.Number(bad)
    elseif w == "string" then if type(bad) == "number" then error("n") end return clingo.String(bad)
    else
      local c = clingo.Control({"0"})
      c:add("base", {}, "{a; f(1)}. #external e. b(@g()).")
      if w == "part" then c:ground({{"base", {bad}}})
      elseif w == "ret" then c:ground({{"base", {}}}, {g = function(self) return {1, bad} end})
      else
        c:ground({{"base", {}}}, {g = function(self) return {} end})
        if w == "lookup" then return c.symbolic_atoms:lookup(bad)
        elseif w == "assign" then c:assign_external(bad, true)
        elseif w == "contains" then
          local e
          c:solve{on_model = function(m) local ok, x = pcall(m.contains, m, bad) if not ok then e = x end end}
          if e then error(e, 0) end
        end
      end
    end
    return "accepted"
  end,
}
"""


def sym(case, ev):
    import refclingo as R
    from luabridge import LuaError, Ref
    lua = state()
    lua.stress = case["stress"]
    T = lua.run(TABLES)
    cl = lua.run("return setmetatable({}, {__index = clingo})")

    def fail(msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(case)}")

    def build(t):
        k = t[0]
        if k == "n":
            return cl.Number(t[1])
        if k == "s":
            return cl.String(t[1])
        if k == "f":
            args = [build(x) for x in t[2]]
            if t[1] == "" and t[3]:
                return cl.Tuple(args)
            if t[3] and case["order"] != "literal":
                return T[case["order"]](t[1], args)
            return cl.Function(t[1], args, t[3])
        return cl.Infimum if k == "inf" else cl.Supremum

    def inspect(x):
        """a tree by taking the symbol apart"""
        ty = str(x.type)
        d = {"name": x.name, "string": x.string, "number": x.number, "positive": x.positive, "negative": x.negative, "arguments": x.arguments}
        want = {"Function": {"name", "positive", "negative", "arguments"}, "String": {"string"}, "Number": {"number"}}.get(ty, set())
        if {k for k, v in d.items() if v is not None} != want:
            fail(f"fields of {x}: {d}")
        if ty == "Function":
            if d["positive"] == d["negative"]:
                fail("sign")
            return ["f", d["name"], [inspect(a) for a in d["arguments"]], d["positive"]]
        return {"Number": ["n", d["number"]], "String": ["s", d["string"]], "Infimum": ["inf"], "Supremum": ["sup"]}[ty]
    def norm(t):
        return ["f", t[1], [norm(x) for x in t[2]], bool(t[3])] if t[0] == "f" else list(t)
    a, b = build(case["a"]), build(case["b"])
    ra, rb = R.mk(case["a"]), R.mk(case["b"])
    for x, r, t in ((a, ra, case["a"]), (b, rb, case["b"])):
        if str(x) != str(r):
            fail(f"{x} instead of {r}")
        if inspect(x) != norm(t):
            fail(f"taking {r} apart gives {inspect(x)}")
        try:
            want = str(R.parse_term(str(r), lambda c, m: None))
        except RuntimeError:
            want = None
        try:
            y = cl.parse_term(str(r), lambda c, m: None)
        except LuaError:
            y = None
        if (None if y is None else str(y)) != want or want == str(r) and lua.f("cmp", x, y) != [True, False, True]:
            fail(f"{x} parsed is {y} instead of {want}")
    lt = bool(R.raw().lib.clingo_symbol_is_less_than(ra.rep, rb.rep))
    gt = bool(R.raw().lib.clingo_symbol_is_less_than(rb.rep, ra.rep))
    if lua.f("cmp", a, b) != [ra == rb, lt, not gt] or lua.f("cmp", b, a) != [ra == rb, gt, not lt]:
        fail(f"comparing {a} and {b}: {lua.f('cmp', a, b)}, {lua.f('cmp', b, a)}")
    # strings and numbers become symbols
    x = T[case["order"]]("r", case["raw"])
    r = R.mk(["f", "r", [["n", v] if isinstance(v, int) else ["s", v] for v in case["raw"]], True])
    if str(x) != str(r):
        fail(f"function over {case['raw']} is {x}")
    # other values raise errors
    k, v = case["bad"][0], (case["bad"][1:] or [None])[0]
    bad = T["bad"](k, v) if k not in ("bool",) else v
    try:
        got = T["try"](case["where"], bad)
    except LuaError:
        pass
    else:
        fail(f"no error for {case['bad']} as {case['where']}: {got if not isinstance(got, Ref) else str(got)}")
    if str(a) != str(ra) or str(b) != str(rb):
        fail("symbols changed")
    ev.label("bad " + k, case["where"])
    ev.nontrivial(case["a"][0] == "f" and len(case["a"][2]) > 0)


TECHNIQUE = ("property-based testing: generated symbol trees, programs and inspection histories driven through the Lua module inside the test process, "
             "compared with the raw C interface; generated ill-typed values with the oracle that an error is raised")
LEVEL_NOTE = "Random search; the Lua module is rebuilt from /repo, the solver library is the installed libclingo."
CHECK = pbt.Check(
    "C25",
    [pbt.Part("inspect", session(), run, quick=8000, thorough=80000),
     pbt.Part("symbols", sym_case(), sym, quick=14000, thorough=120000)],
    rule="symbol trees of depth up to three built from tables filled in different orders, and histories of reading atoms, theory atoms, configuration and statistics; "
         "non-trivial: more than one reading operation / a function with arguments",
    build=build_lua, init=init_lua,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
