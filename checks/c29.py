"""C29: errors raised in Lua surface at the call that triggered them and leave Lua intact."""
from luacommon import *
import ctypes
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.theory_stm(), g.calls(), g.warn()]
TEXT = g.text(EXTRA, 4)
SOLVE = g.solve(modes=("sync", "yield"), exc=True)
BAD = g.pick([["add", "base", [], "p(X) :- q."], ["add", "base", [], "p :-"], ["loadmissing"], ["add", "base", [], "r(1"], ["parse_term", "f(X"],
              ["parse_term", "p q"], ["parse_term", "f(1/0)"], ["parse_term", "f(1)"], ["conf", ["nope"]], ["conf_set", ["solve", "opt_mode"], "bogus"],
              ["assign", 0, True], ["assign", 1000, True], ["load", "p. q :- ."], ["load", "l(1..2)."], ["ground", [["nopart", []]]],
              ["ground", [["base", [["n", 1]]]]], ["ground", [["base", []]], {}]])
PROP, OBS, PLAIN = g.propagator(exc=True), g.observe(exc=True), g.one_of(g.ext_op(), g.atoms_op(), g.conf_op(), g.attr_op(), st.just(["theory"]), st.just(["cleanup"]))
BACK, GROUND = g.backend(theory=False, exc=True), g.ground(exc=True, ctx=True)


@st.composite
def session(draw):
    ops = []
    k = draw(g.N(0, 3))
    if k == 0:
        ops.append(draw(OBS))
    if k == 1:
        p = draw(PROP)
        p[1]["init"] = [[i for i in x if i[0] != "minimize"] for x in p[1]["init"]]
        ops.append(p)
    if draw(g.N(0, 3)) == 0:
        ops.append(draw(BAD))
    ops.append(["add", "base", [], g.THEORY + draw(TEXT) + (draw(g.parts()) if draw(g.BOOL) else "")])
    ops.append(["ground", [["base", []]], draw(g.ground_ctx(exc=True))])
    for _ in range(draw(g.N(1, 5))):
        ops.append(draw(g.one_of(SOLVE, SOLVE, BAD, BACK, GROUND, PLAIN)))
    ops.append(["solve", {"mode": "sync", "model": [], "assumptions": []}])
    return lua_session(draw, ops, g, logger=True, stop=True)


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "throw") > 0 or count(t, "exc") > 0)


# ---------------------------------------------------------- messages of the library

NAME = st.text(alphabet="ab%sdnf X(\n'\"\t5*$", min_size=1, max_size=12)


@st.composite
def msg_case(draw):
    return {"kind": draw(g.pick(["parse", "parse", "load", "conf", "conf_value", "part", "assign", "text", "level", "undefined"])), "name": draw(NAME), "co": draw(g.BOOL), "stress": draw(g.pick([0, 1]))}


MSG = """
local T = {
  parse = function(c, n) return tostring(clingo.parse_term(n, c.log)) end,
  load = function(c, n) c.c:load("/nonexistent/" .. n) end,
  conf = function(c, n) return c.c.configuration.solve[n] end,
  conf_value = function(c, n) c.c.configuration.solve.opt_mode = n end,
  part = function(c, n) c.c:add("a", {n}, "p(" .. n .. ").") end,
  text = function(c, n) c.c:add("base", {}, n) end,
  level = function(c, n) c.c:get_const(n) end,
  assign = function(c, n) c.c:assign_external(clingo.Function(n, {}), true) end,
  undefined = function(c, n) c.c:ground({{"base", {}}}, {f = function() error(n, 0) end}) end,
}
return function(kind, n, co)
  local log = {}
  local function lg(code, m) log[#log+1] = {tostring(code), m} end
  local c = {log = lg, c = clingo.Control({}, lg)}
  if kind == "undefined" then c.c:add("base", {}, "p(@f()).") end
  local ok, e
  if co then
    local t = coroutine.create(function() return T[kind](c, n) end)
    ok, e = coroutine.resume(t)
  else
    ok, e = pcall(T[kind], c, n)
  end
  local d = clingo.Control({}, lg)
  d:add("more", {}, "q.")
  d:ground{{"more", {}}}
  local r = tostring(d:solve())
  return {ok, tostring(e), log, r, math.type(e) or type(e)}
end
"""


def messages(case, ev):
    """messages of errors and warnings arrive as the library writes them"""
    import refclingo as R
    import luaapi
    lua = state()
    lua.stress = case["stress"]
    k, n = case["kind"], case["name"]
    log = []

    def lg(c, m):
        log.append([luaapi.CODE.get(c, c) if hasattr(luaapi, "CODE") else c, m])
    c = R.Control([], lg, 20)
    want = None
    try:
        if k == "parse":
            str(R.parse_term(n, lg))
        elif k == "load":
            c.load("/nonexistent/" + n)
        elif k == "part":
            c.add("a", [n], f"p({n}).")
        elif k == "text":
            c.add("base", [], n)
        elif k == "level":
            c.get_const(n)
        elif k == "conf_value":
            c.configuration.child("solve").child("opt_mode").set(n) if hasattr(c.configuration, "child") else None
        elif k == "assign":
            pass
    except RuntimeError as e:
        want = str(e)
    ok, e, llog, res, ty = (lua.run(MSG)(k, n, case["co"]))
    e = luaapi.strip(e)
    if k == "undefined":
        # errors in external functions abort grounding
        if ok or "".join(n.split()) not in "".join(e.split()):
            raise pbt.Violation(f"message {n!r} not in {llog}, {ok} {e}\n{json.dumps(case)}")
        ev.nontrivial(True)
        return
    if k == "conf_value":
        if not ok and "could not set" not in e:
            raise pbt.Violation(f"message {e!r}\n{json.dumps(case)}")
    elif k not in ("conf", "assign"):
        if ok != (want is None):
            raise pbt.Violation(f"{k}: success {ok}: {e}, expected {want}\n{json.dumps(case)}")
        if want is not None and want.rstrip() not in e:
            raise pbt.Violation(f"{k}: error {e!r}, expected {want!r}\n{json.dumps(case)}")
        if [m for _, m in llog or []] != [m for _, m in log]:
            raise pbt.Violation(f"{k}: logged {llog}, expected {log}\n{json.dumps(case)}")
    elif k == "conf" and not ok:
        raise pbt.Violation(f"unknown key: {e}\n{json.dumps(case)}")
    if not ok and ty != "string":
        raise pbt.Violation(f"error value of type {ty}\n{json.dumps(case)}")
    ev.label(k, "error" if not ok else "ok")
    ev.nontrivial(not ok)


# ------------------------------------------------------------------------- repetition

REP = r"""
local F, N, S = clingo.Function, clingo.Number, clingo.String
local function fresh(text, log, args)
  local c = clingo.Control(args or {}, log or function() end, 1000000000)
  c:add("base", {}, text)
  return c
end
local ops = {}
-- each operation returns a function executed n times; tick must be called by callbacks
ops.model = function(n, tick) -- 2^13
  local c = fresh("{a(1..13)}.", nil, {"0"}) c:ground{{"base", {}}}
  return function() c:solve{on_model = function(m) tick() if m.number % 3 == 0 then return true end end} end
end
ops.iterate = function(n, tick)
  local c = fresh("{a(1..13)}.", nil, {"0"}) c:ground{{"base", {}}}
  return function() local h = c:solve{yield = true} for m in h:iter() do tick() end h:close() end
end
ops.external = function(n, tick)
  return function()
    local c = fresh(("p(@f(X)) :- X=1..%d."):format(n))
    c:ground({{"base", {}}}, {f = function(self, x) tick() if x.number % 3 == 0 then return {1, 2} end return x.number % 10 end})
  end
end
ops.external_error = function(n, tick)
  local c = fresh("#program p(x). p(@f(x)).", function() end)
  return function()
    for i = 1, n // 8 do
      tick()
      local ok, e = pcall(c.ground, c, {{"p", {i % 5}}}, {f = function(self, x) error("E" .. x.number) end})
      if ok or not e:find("E" .. i % 5, 1, true) then error("message lost: " .. tostring(e)) end
    end
  end
end
ops.external_bad = function(n, tick)
  local c = fresh("#program p(x). p(@f(x)).", function() end)
  return function()
    for i = 1, n // 8 do
      tick()
      pcall(c.ground, c, {{"p", {i % 5}}}, {f = function(self, x) return {1, 2, {print}} end})
    end
  end
end
ops.logger = function(n, tick)
  return function()
    local c = fresh(("p(X) :- X=1..%d, q(1/(X-X))."):format(n), tick)
    c:ground{{"base", {}}}
  end
end
ops.parse = function(n, tick)
  return function() for i = 1, n do tick() pcall(clingo.parse_term, "f(1/0,g(a)", function() end) end end
end
ops.observer = function(n, tick)
  return function()
    local c = fresh(("{a(1..%d)}. :- a(X), a(X+1)."):format(n // 2))
    c:register_observer{rule = function() tick() end, output_atom = function() tick() end, weight_rule = function() tick() end}
    c:ground{{"base", {}}}
    c:solve()
  end
end
ops.propagator = function(n, tick)
  local c = fresh("{a(1..11)}.", nil, {"0"})
  local P = {}
  function P:init(i) for a in i.symbolic_atoms:iter() do i:add_watch(i:solver_literal(a.literal)) i:add_watch(-i:solver_literal(a.literal)) end i:set_state(1, {}) end
  function P:propagate(c, l, s) tick() c:propagate() end
  function P:undo(t, a, l, s) tick() end
  function P:check(c, s) tick() end
  function P:decide(t, a, f, s) tick() return f end
  c:register_propagator(P)
  c:ground{{"base", {}}}
  return function() c:solve() end
end
ops.trail = function(n, tick)
  local c = fresh("{a(1..6)}.", nil, {"0"})
  local P = {}
  function P:check(c, s)
    local a = c.assignment
    for i, l in pairs(a.trail) do tick() pcall(function() return a.trail[0] end) end
    for i, l in ipairs(a) do tick() pcall(function() return a:level(100000) end) end
    pcall(c.add_clause, c, {{1, 2, true}})
    pcall(c.add_nogood, c, {{1, print}})
  end
  c:register_propagator(P)
  c:ground{{"base", {}}}
  return function() c:solve() end
end
ops.backend = function(n, tick)
  return function()
    local c = fresh("")
    local b = c:backend()
    local x = b:add_atom()
    for i = 1, n do tick() b:add_rule{{x}, {-x}} b:add_weight_rule{{x}, 1, {{x, 1}, {-x, 2}}} b:add_minimize{1, {{x, 1}}} end
    b:close()
  end
end
local big = {}
for i = 1, 60 do big[i] = i end
local bad = {}
for i = 1, 60 do bad[i] = i end
bad[61] = true
local badw = {}
for i = 1, 60 do badw[i] = {i, i} end
badw[61] = {1, "x"}
ops.bad_backend = function(n, tick)
  local c = fresh("")
  local b = c:backend()
  return function()
    for i = 1, n do
      tick()
      pcall(b.add_rule, b, {{1}, bad})
      pcall(b.add_rule, b, {bad, {}})
      pcall(b.add_rule, b, {head = big, body = bad, choice = true})
      pcall(b.add_weight_rule, b, {{1}, 1, badw})
      pcall(b.add_weight_rule, b, {big, 1, badw})
      pcall(b.add_minimize, b, {1, badw})
    end
  end
end
ops.bad_function = function(n, tick)
  local args = {}
  for i = 1, 60 do args[i] = N(i % 3) end
  args[61] = print
  return function()
    for i = 1, n do
      tick()
      pcall(F, "f", args)
      pcall(clingo.Tuple, args)
      pcall(F, "f", {1, {}, "x"})
      F("g", {1, 2, S("x")})
    end
  end
end
ops.bad_control = function(n, tick)
  local c = fresh("#external e. {a;b;f(1)}.", nil, {"0"})
  c:ground{{"base", {}}}
  local a, b, f = F("a"), F("b"), F("f", {1})
  local ass = {}
  for i = 1, 40 do ass[i] = {a, true} end
  ass[41] = {a, print}
  ass[42] = 17.5
  local sup = {}
  for i = 1, 40 do sup[i] = a end
  sup[41] = print
  return function()
    for i = 1, n // 4 do
      tick()
      pcall(c.ground, c, {{"base", sup}})
      pcall(c.ground, c, {{"base", {}}, {"p", {print}}})
      pcall(c.add, c, "p", {"x", "y", {}}, "")
      pcall(c.add, c, "p", sup, "")
      pcall(c.solve, c, {assumptions = ass})
      pcall(c.solve, c, {assumptions = ass, yield = true})
      pcall(c.assign_external, c, {}, true)
      pcall(c.assign_external, c, a, 3)
      pcall(c.symbolic_atoms.lookup, c.symbolic_atoms, {})
      pcall(function() return c.configuration.nope.nope end)
      pcall(function() c.configuration.solve.models = {} end)
      pcall(clingo.Control, sup)
      tostring(c.symbolic_atoms:lookup(f).symbol)
      for x in c.symbolic_atoms:iter() do local y = x.symbol.arguments end
    end
  end
end
ops.bad_args = function(n, tick)
  return function() for i = 1, n // 8 do tick() pcall(clingo.Control, {"--nope"}, print) pcall(clingo.Control, {"0"}, print, "x") pcall(clingo.Control, {"0"}, nil, {}) end end
end
ops.bad_model = function(n, tick)
  local c = fresh("{a(1..8)}.", nil, {"0"})
  c:ground{{"base", {}}}
  local cl = {}
  for i = 1, 40 do cl[i] = {F("a", {1}), true} end
  cl[41] = {F("a", {1}), 3, {}}
  cl[42] = print
  local syms = {}
  for i = 1, 40 do syms[i] = F("t", {i}) end
  syms[41] = print
  return function()
    c:solve{on_model = function(m)
      for i = 1, 10 do
        tick()
        pcall(m.extend, m, syms)
        pcall(m.contains, m, print)
        pcall(m.is_true, m, "x")
        pcall(m.context.add_clause, m.context, cl)
        m:symbols{atoms = true}
        pcall(m.symbols, m, 1)
      end
    end}
  end
end
ops.raise_model = function(n, tick)
  local c = fresh("{a(1..3)}.", nil, {"0"})
  c:ground{{"base", {}}}
  return function() for i = 1, n // 8 do tick() pcall(c.solve, c, {on_model = function(m) error(("x"):rep(10)) end}) end end
end
ops.raise_iter = function(n, tick)
  local c = fresh("{a(1..3)}.", nil, {"0"})
  c:ground{{"base", {}}}
  return function()
    for i = 1, n // 8 do
      tick()
      pcall(function() local h = c:solve{yield = true} for m in h:iter() do h:close() error("x") end end)
      pcall(function() local h = c:solve{yield = true} for m in h:iter() do h:cancel() break end h:close() h:get() end)
    end
  end
end
ops.theory = function(n, tick)
  local c = fresh("#theory t { t { - : 1, binary, left }; &p/1 : t, {<=}, t, any }. {a}. &p(1) { 1-2, f(x), [1,2] : a } <= 3.", nil, {"0"})
  c:ground{{"base", {}}}
  return function()
    for i = 1, n // 4 do
      tick()
      for a in c.theory_atoms do
        tostring(a) local g = a.guard
        for _, e in ipairs(a.elements) do tostring(e) local x = e.condition for _, t in ipairs(e.terms) do pcall(function() local y = t.arguments end) tostring(t) end end
      end
    end
  end
end
ops.conf = function(n, tick)
  local c = fresh("{a;b}.", nil, {"0"}) c:ground{{"base", {}}} c:solve()
  return function()
    for i = 1, n // 16 do
      tick()
      local k = c.configuration.keys
      local x = c.configuration.solver[1].heuristic
      c.configuration.solve.models = i % 3
      local y = c.statistics
      pcall(function() return c.configuration.solver[100].nope end)
    end
  end
end
return function(name, n, heap)
  local ticks, marks, held = 0, {}, {F("x", {1}), {1}, "str", function() return 7 end}
  local want = tostring(held[1])
  local limit = {math.huge}
  local function mark() collectgarbage() collectgarbage() return {collectgarbage("count") * 1024, heap(), ticks} end
  local every = 1
  local depth = 0
  local function tick()
    ticks = ticks + 1
    if ticks == limit[1] or ticks == limit[2] or ticks == limit[3] then marks[#marks+1] = mark() end
  end
  -- number of callbacks of one run
  local f = ops[name](n, tick)
  f()
  local k = ticks
  limit = {k + k // 4, k + k // 2, k + k * 9 // 10}
  f()
  local inner = marks
  limit = {}
  local a = mark()
  for i = 1, 2 do f() end
  local b = mark()
  for i = 1, 2 do f() end
  local c = mark()
  return {k, inner, {a, b, c}, tostring(held[1]) == want and held[3] == "str" and held[4]() == 7 and held[2][1] == 1}
end
"""
OPS = ["model", "iterate", "external", "external_error", "external_bad", "logger", "parse", "observer", "propagator", "trail", "backend", "bad_backend", "bad_function",
       "bad_control", "bad_args", "bad_model", "raise_model", "raise_iter", "theory", "conf"]
# the library leaks if options are invalid
GROWS = {"bad_args"}


class Mall(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def heap():
    f = ctypes.CDLL(None).mallinfo2
    f.restype = Mall
    m = f()
    return m.uordblks + m.hblkhd


@st.composite
def rep_case(draw):
    return {"op": draw(g.pick(OPS)), "n": draw(g.pick([4000, 6000, 8000]))}


def rep(case, ev):
    """memory of Lua and of the process do not grow with the number of calls"""
    lua = state()
    f = lua.run(REP)
    k, inner, outer, intact = f(case["op"], case["n"], heap)
    inner = inner or []
    if not intact:
        raise pbt.Violation(f"values of the script changed\n{json.dumps(case)}")

    def bad(msg):
        raise pbt.Violation(f"{case['op']}: {msg}, {k} calls\n{inner}\n{outer}\n{json.dumps(case)}")
    if len(inner) == 3:
        # a slot has 16 bytes
        n = inner[2][2] - inner[0][2]
        if n > 1500 and inner[2][0] - inner[0][0] > 8 * n and inner[1][0] - inner[0][0] > 2 * n:
            bad("Lua memory grows during a call")
    a, b, c = outer
    if k > 500 and c[0] - b[0] > 8 * k and b[0] - a[0] > 8 * k:
        bad("Lua memory grows with each call")
    if case["op"] not in GROWS and k > 500 and c[1] - b[1] > 16 * 2 * k and b[1] - a[1] > 16 * 2 * k:
        bad("heap grows with each call")
    ev.label(case["op"])
    ev.nontrivial(k > 500)
    if os.environ.get("VP_DEBUG"):
        print(case["op"], k, inner, outer)


TECHNIQUE = ("property-based testing with injected faults: errors of many kinds raised in every Lua callback of generated histories, compared with the raw C interface; hostile messages; "
             "repetition of callbacks and failing calls with measurements of the memory held by Lua and by the process")
LEVEL_NOTE = "Random search over faults and histories; the Lua module is rebuilt from /repo, the solver library is the installed libclingo."
CHECK = pbt.Check(
    "C29",
    [pbt.Part("sessions", session(), run, quick=10000, thorough=140000),
     pbt.Part("messages", msg_case(), messages, quick=3000, thorough=50000),
     pbt.Part("repeat", rep_case(), rep, quick=150, thorough=1000)],
    rule="histories in which callbacks raise errors or ill-typed arguments are passed; non-trivial: an error was raised / reported; repetition: more than 500 calls",
    build=build_lua, init=init_lua,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
