"""C26: grounding and solving through Lua reports exactly the models and results of the solver."""
from luacommon import *
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.project(), g.heu(), g.edge(), g.theory_stm(), g.calls()]
TEXT = g.text(EXTRA, 4)
SOLVE = g.solve(modes=("sync", "sync", "yield", "yield"))
CTX = g.ground_ctx()
BETWEEN = st.lists(st.one_of(g.ext_op(), g.ground(), g.conf_op(), g.attr_op(), st.just(["cleanup"]), g.ext_op(), g.ground(ctx=True),
                             g.pick(["n", "m"]).map(lambda n: ["const", n]), st.just(["interrupt"]), g.atoms_op()), max_size=3)


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT)]]
    if draw(g.BOOL):
        ops.append(["add1", draw(g.parts())])
    if draw(g.N(0, 4)) == 0:
        ops[-1] = ["load", ops[-1][-1]]
    ops.append(["ground", [["base", []]], draw(CTX)])
    for _ in range(draw(g.N(1, 4))):
        ops += draw(BETWEEN)
        ops.append(draw(SOLVE))
    return lua_session(draw, ops, g)


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "model") > 1)


HELP = """
local function rec(m)
  local s = {}
  for i, x in ipairs(m:symbols{atoms = true}) do s[i] = tostring(x) end
  return {tostring(m), s, m.cost, m.number, m.optimality_proven, tostring(m.type)}
end
local function res(r)
  return {tostring(r), r.satisfiable, r.unsatisfiable, r.unknown, r.exhausted, r.interrupted}
end
local function fresh(args, text, log)
  local c = clingo.Control(args, log or function() end)
  c:add("base", {}, text)
  c:ground({{"base", {}}})
  return c
end
return {
  callback = function(args, text, ass, k)
    local c, ms, fin = fresh(args, text), {}, {}
    local d = {assumptions = ass, on_model = function(m) ms[#ms+1] = rec(m) if #ms == k then return false end if k < -1 then return true end end}
    if k ~= -2 then d.on_finish = function(r) fin[#fin+1] = res(r) end end
    local r = c:solve(d)
    return {ms, res(r), fin}
  end,
  iterate = function(args, text, ass, k)
    local c, ms = fresh(args, text), {}
    local h = c:solve{assumptions = ass, yield = true}
    for m in h:iter() do ms[#ms+1] = rec(m) if #ms == k then h:cancel() break end end
    local r = h:get()
    local core = h:core()
    r = res(r)
    h:close()
    return {ms, r, {}, core}
  end,
  twice = function(args, text, ass)
    local c, ms = fresh(args, text), {}
    c:solve{assumptions = ass}
    c:solve{on_model = function(m) ms[#ms+1] = rec(m) end}
    return ms
  end,
  async = function(args, text, mode)
    local c = fresh(args, text)
    local d = {async = true}
    if mode == "model" then d.on_model = function() end d.yield = true d.async = nil end
    if mode == "finish" then d.on_finish = function() end d.yield = true d.async = nil end
    if mode == "both" then d.yield = true end
    local ok, e = pcall(c.solve, c, d)
    local n = 0
    if ok and (mode == "model" or mode == "finish" or mode == "both") then e:close() end
    c:solve{on_model = function() n = n + 1 end}
    return {ok, tostring(e), n}
  end,
  handle = function(n, models, unsat)
    local t = ("{a(1..%d)}. "):format(n)
    if n == 0 then t = "" end
    if unsat then t = t .. ":- not a(X), a(X). z. :- z." end
    local c = fresh({tostring(models)}, t)
    local h = c:solve{yield = true}
    local it = {h:iter()}
    local closed, iters = false, {}
    local function model(m) if m == nil then return nil end local r = rec(m) return r[2] end
    local ops = {
      iter1 = function() return model(it[1](it[2], it[3])) end,
      iter2 = function() local f, s, v = h:iter() return model(f(s, v)) end,
      resume = function() h:resume() h:get() end,
      all = function() local r = {} for m in h:iter() do r[#r+1] = model(m) end return r end,
      get = function() return res(h:get()) end,
      cancel = function() h:cancel() end,
      core = function() return h:core() or {} end,
      close = function() h:close() end,
      gc = function() collectgarbage() end,
      solve = function()
        local k = 0
        c.configuration.solve.models = 0
        c:solve{on_model = function() k = k + 1 end}
        return k
      end,
      again = function()
        -- a solve call while another one is running
        local k = 0
        c:solve{on_model = function() k = k + 1 end}
        return k
      end,
    }
    return ops
  end
}
"""


def helpers(stress):
    lua = state()
    lua.stress = stress
    return lua, lua.run(HELP)


@st.composite
def agree_case(draw):
    return {"args": draw(g.pick([["0"], ["2"], ["0", "--opt-mode=optN"], ["0", "--enum-mode=cautious"], ["0", "--enum-mode=brave"], ["0", "--opt-mode=enum"], ["1"], []])),
            "text": g.THEORY + draw(TEXT), "ass": draw(g.lists(g.assumption(), 0, 2)), "stress": draw(g.pick([0, 0, 1, 5])), "stop": draw(g.pick([-1, -1, -2, 1, 2]))}


def agree(case, ev):
    """callback and iteration report what the C interface reports"""
    import refclingo as R
    import luaapi
    lua, H = helpers(case["stress"])
    api = luaapi.LuaApi(os.environ["VP_LUADIR"], case)
    lua.reset(case["stress"])
    H = lua.run(HELP)
    ass = [x if isinstance(x, int) else [api.mk(x[0]), x[1]] for x in case["ass"]]
    ref = R.Control(case["args"], lambda c, m: None, 20)
    try:
        ref.add("base", [], case["text"])
        ref.ground([("base", [])])
    except RuntimeError:
        raise pbt.Discard
    want = []
    fin = []
    stop = case["stop"]

    def rec(m):
        return [str(m), [str(s) for s in m.symbols(atoms=True)], m.cost, m.number, m.optimality_proven, str(m.type)]

    def on_model(m):
        want.append(rec(m))
        return len(want) != stop
    r = ref.solve([x if isinstance(x, int) else (R.mk(x[0]), x[1]) for x in case["ass"]], on_model=on_model, on_finish=lambda r: fin.append(1))
    want_r = [str(r), r.satisfiable, r.unsatisfiable, r.unknown, r.exhausted, r.interrupted]
    args = (case["args"], case["text"], ass)
    for name in ("callback", "iterate"):
        got = H[name](*args, stop)
        # absent fields of a list read as holes of the table
        g_r = got[1] if isinstance(got[1], list) else [got[1].get(i) for i in range(1, 7)]
        ms = [m if isinstance(m, list) else [m.get(i) for i in range(1, 7)] for m in (got[0] or [])]
        for m in ms:
            m[1], m[2] = m[1] or [], m[2] or []
        if ms != [[*m[:5], m[5]] for m in want]:
            raise pbt.Violation(f"{name}: models {ms}\n  instead of {want}\n{json.dumps(case)}")
        if (stop < 0 or name == "callback") and g_r != want_r:
            raise pbt.Violation(f"{name}: result {g_r} instead of {want_r}\n{json.dumps(case)}")
        if name == "callback" and stop != -2:
            f = [x if isinstance(x, list) else [x.get(i) for i in range(1, 7)] for x in (got[2] or [])]
            if f != [want_r]:
                raise pbt.Violation(f"on_finish got {f} instead of {[want_r]}\n{json.dumps(case)}")
    ev.nontrivial(len(want) > 1)
    ev.label("stop" if stop > 0 else "all", want_r[0])
    api.close()


ORD = st.lists(g.pick(["iter1", "iter1", "iter2", "resume", "all", "get", "cancel", "core", "close", "gc"]), max_size=12)


@st.composite
def proto_case(draw):
    return {"n": draw(g.N(0, 3)), "models": draw(g.N(0, 4)), "unsat": draw(g.N(0, 3)) == 0, "order": draw(ORD), "stress": draw(g.pick([0, 1, 3])),
            "async": draw(g.pick(["async", "model", "finish", "both", "no"]))}


def proto(case, ev):
    """handles against a state model"""
    import refclingo as R
    from luabridge import LuaError
    lua, H = helpers(case["stress"])
    text = ("{a(1..%d)}." % case["n"] if case["n"] else "") + (":- not a(X), a(X). z. :- z." if case["unsat"] else "")

    def enum(models):
        c = R.Control([str(models)], lambda c, m: None, 20)
        c.add("base", [], text)
        c.ground([("base", [])])
        ref = []
        r = c.solve((), on_model=lambda m: ref.append([str(s) for s in m.symbols(atoms=True)]))
        return ref, r
    ref, ref_res = enum(case["models"])
    ops = H["handle"](case["n"], case["models"], case["unsat"])

    def bad(msg):
        raise pbt.Violation(f"{msg}\n{json.dumps(case)}\nmodels {ref}, position {pos}")
    pos, closed, cancelled, resumed, unread = 0, False, False, False, False
    used = 0
    for o in case["order"]:
        if o == "gc":
            ops[o]()
            continue
        used += 1
        if closed and o != "close":
            try:
                ops[o]()
            except LuaError as e:
                if "closed" not in str(e):
                    bad(f"{o} on a closed handle: {e}")
            else:
                bad(f"{o} works on a closed handle")
            continue
        if o == "close":
            ops[o]()
            closed = True
        elif o == "cancel":
            ops[o]()
            cancelled = True
        elif cancelled:
            # only usage
            if o == "get":
                ops[o]()
        elif o in ("iter1", "iter2"):
            got = ops[o]()
            pos = min(pos + 1, len(ref) + 1)
            want = ref[pos - 1] if pos <= len(ref) else None
            if (got if got != {} else []) != want:
                bad(f"iteration gave {got} instead of {want}")
        elif o == "resume":
            ops[o]()
            pos = min(pos + 1, len(ref) + 1)
        elif o == "all":
            got = [x or [] for x in ops[o]()]
            if got != ref[pos:]:
                bad(f"iteration gave {got} instead of {ref[pos:]}")
            pos = len(ref) + 1
        elif o == "core" and not case["unsat"] and pos > len(ref):
            if ops[o]() != []:
                bad("core of a satisfiable problem")
        elif o == "get" and pos > len(ref):
            got = ops[o]()
            got = got if isinstance(got, list) else [got.get(i) for i in range(1, 7)]
            if got[0] != ("SAT" if ref else "UNSAT") or got[4] != ref_res.exhausted or got[5]:
                bad(f"get() is {got}")
    ops["close"]()
    if ops["solve"]() != len(enum(0)[0]):
        bad("control unusable afterwards")
    if case["async"] != "no":
        got = H["async"](["0"], text, case["async"])
        # without threads there is no asynchronous solving and callbacks cannot be combined with iteration
        if got[0] or got[2] != len(enum(0)[0]):
            bad(f"solving in mode {case['async']}: {got}")
    ev.label("closed" if closed else "open", "cancelled" if cancelled else "-", case["async"])
    ev.nontrivial(used > 2 and len(ref) > 1)


TECHNIQUE = ("property-based testing: generated solving histories driven through the Lua module and compared event by event with the raw C interface; "
             "generated call orders on solve handles compared with a state model; metamorphic agreement of callback and iteration")
LEVEL_NOTE = "Random search; the Lua module is rebuilt from /repo, the solver library is the installed libclingo."
CHECK = pbt.Check(
    "C26",
    [pbt.Part("sessions", session(), run, quick=10000, thorough=120000),
     pbt.Part("agreement", agree_case(), agree, quick=5000, thorough=60000),
     pbt.Part("handles", proto_case(), proto, quick=6000, thorough=80000)],
    rule="histories of add/load/ground/externals/configuration/solve over random programs with optimisation, shows, projection and theory atoms; orders of handle operations; "
         "non-trivial: at least two models observed / more than two handle operations on a program with two models",
    build=build_lua, init=init_lua,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
