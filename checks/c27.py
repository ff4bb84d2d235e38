"""C27: backend statements and observer events pass through Lua unchanged."""
from luacommon import *
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.project(), g.heu(), g.edge(), g.theory_stm(), g.theory_stm()]
TEXT = g.text(EXTRA, 3)
SIMPLE = st.just(["solve", {"mode": "sync", "model": [], "assumptions": []}])
MID = g.one_of(g.ext_op(), g.ground(), g.ground(), SIMPLE, SIMPLE, g.backend(theory=False), g.backend(theory=False), g.backend(theory=False), st.just(["theory"]),
               st.just(["cleanup"]), g.atoms_op(), st.just(["attr", "is_conflicting"]), g.solve(modes=("sync", "yield"), clause=False, last=False))
MIDS = g.lists(MID, 1, 6)


@st.composite
def session(draw):
    ops = [draw(g.observe())] + ([draw(g.observe())] if draw(g.N(0, 3)) == 0 else [])
    if draw(g.N(0, 5)):
        ops.append(["add", "base", [], g.THEORY + draw(TEXT) + (draw(g.parts()) if draw(g.BOOL) else "")])
        ops.append(["ground", [["base", []]]])
    ops += draw(MIDS)
    ops.append(["solve", {"mode": "sync", "model": [], "assumptions": []}])
    return lua_session(draw, ops, g, logger=True)


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "bret") > 4 or count(t, "obs") > 8)


@st.composite
def trip_case(draw):
    return {"text": draw(TRIPT), "stress": draw(g.pick([0, 0, 1, 7])), "inherit": draw(g.BOOL), "kw": draw(g.N(0, 3)), "order": draw(g.pick(["up", "down"]))}


TRIPT = g.text([g.opt(), g.opt(), g.show().filter(lambda s: s == "#show." or "/" in s)], 4)
HELP = """
local function fresh() return clingo.Control({}, function() end) end
local function models(c)
  c.configuration.solve.models = 0
  c.configuration.solve.opt_mode = "enum,100000"
  local res = {}
  local r = c:solve{on_model = function(m)
    local s = {}
    for i, x in ipairs(m:symbols{atoms = true}) do s[i] = tostring(x) end
    res[#res+1] = {s, m.cost}
  end}
  return {tostring(r), res}
end
return {
  record = function(text, inherit)
    local c, evs, o = fresh(), {}, {}
    for _, n in ipairs{"init_program", "begin_step", "end_step", "rule", "weight_rule", "minimize", "project", "output_atom", "output_term",
                       "output_csp", "external", "assume", "heuristic", "acyc_edge"} do
      o[n] = function(self, ...) evs[#evs+1] = {n, table.pack(...)} end
    end
    c:register_observer(inherit and setmetatable({}, {__index = o}) or o)
    c:add("base", {}, text)
    c:ground({{"base", {}}})
    local k = #evs
    local m = models(c)
    return {evs, k, m}
  end,
  replay = function(evs, n, kw, order)
    local c, amap = fresh(), {}
    local b = c:backend()
    local k = 0
    local function call(m, names, vals)
      local t, pos = {}, 0
      k = k + 1
      local m0 = (k + kw) % (#names + 1)
      for i = 1, #names do
        local key = i <= m0 and i or names[i]
        t[key] = vals[i]
      end
      m(b, t)
    end
    local function seq(t)
      if order == "up" then return t end
      local r = {}
      for i = #t, 1, -1 do r[i] = t[i] end
      return r
    end
    for i = 1, n do
      local e, x = evs[i][1], evs[i][2]
      if e == "output_atom" then
        if x[2] == 0 or amap[x[2]] then
          local a = b:add_atom(x[1])
          call(b.add_rule, {"head", "body"}, {{a}, x[2] == 0 and {} or {amap[x[2]]}})
        else
          amap[x[2]] = b:add_atom(x[1])
        end
      end
    end
    local function at(a) if not amap[a] then amap[a] = b:add_atom() end return amap[a] end
    local function lit(l) if l > 0 then return at(l) else return -at(-l) end end
    local function atoms(t) local r = {} for i, a in ipairs(t) do r[i] = at(a) end return seq(r) end
    local function lits(t) local r = {} for i, l in ipairs(t) do r[i] = lit(l) end return seq(r) end
    local function wlits(t) local r = {} for i, l in ipairs(t) do r[i] = {lit(l[1]), l[2]} end return seq(r) end
    for i = 1, n do
      local e, x = evs[i][1], evs[i][2]
      if e == "rule" then call(b.add_rule, {"head", "body", "choice"}, {atoms(x[2]), lits(x[3]), x[1]})
      elseif e == "weight_rule" then call(b.add_weight_rule, {"head", "lower", "body", "choice"}, {atoms(x[2]), x[3], wlits(x[4]), x[1]})
      elseif e == "minimize" then call(b.add_minimize, {"priority", "body"}, {x[1], wlits(x[2])})
      elseif e == "external" then b:add_external(at(x[1]), x[2]) end
    end
    b:close()
    return models(c)
  end,
}
"""


def trip(case, ev):
    """events recorded from one control and added through the backend of another one make the same program"""
    from luabridge import LuaError
    lua = state()
    lua.stress = case["stress"]
    H = lua.run(HELP)
    try:
        evs, n, m = lua.f("call", H["record"], g.THEORY + case["text"], case["inherit"])
    except LuaError as e:
        raise pbt.Violation(f"{e}\n{json.dumps(case)}")
    ref = (m[0], m[1])
    names = {str(x[1][1] if isinstance(x[1], dict) else x[1][0]) for x in evs if x[0] == "output_atom"}
    for x in evs:
        if isinstance(x[1], dict):
            d = dict(x[1])
            k = d.pop("n")
            x[1] = [d.get(i + 1) for i in range(k)]
    r2 = H["replay"](evs, n, case["kw"], case["order"])

    def norm(r):
        d = {}
        for s, c in r[1] or []:
            d.setdefault(tuple(sorted(x for x in (s or []) if x in names)), []).append(tuple(c or []))
        return r[0], {k: sorted(v) for k, v in d.items()}
    a, b = norm(ref), norm(r2)
    if a != b:
        raise pbt.Violation(f"models differ: {a}\nafter the round trip: {b}\nevents {evs}\n{json.dumps(case)}")
    for x in evs:
        ev.label("ev:" + x[0])
    ev.nontrivial(len(evs) > 8 and len(ref[1] or []) > 1)


TECHNIQUE = ("property-based testing: generated backend/observer histories driven through the Lua module and compared with the raw C interface; "
             "round trip of observer events through the Lua backend with equal answer sets")
LEVEL_NOTE = "Random search; the Lua module is rebuilt from /repo, the solver library is the installed libclingo."
CHECK = pbt.Check(
    "C27",
    [pbt.Part("sessions", session(), run, quick=12000, thorough=120000),
     pbt.Part("roundtrip", trip_case(), trip, quick=6000, thorough=60000)],
    rule="sessions with observers and backends: non-trivial if more than 4 backend results or 8 observer events were compared; round trips: "
         "more than 8 events and more than one model",
    build=build_lua, init=init_lua,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
