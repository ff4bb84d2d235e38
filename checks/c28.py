"""C28: Lua propagators see and steer the search faithfully."""
from luacommon import *
import itertools
import gensess as g
from hypothesis import strategies as st

EXTRA = [g.opt(), g.show(), g.theory_stm(), g.theory_stm(), g.heu()]
TEXT = g.text(EXTRA, 3)
SYNC = g.solve(modes=("sync", "yield"), clause=True, last=False)
STATE = g.one_of(st.tuples(st.just("state"), g.N(0, 3), g.one_of(st.none(), g.N(0, 5))).map(list), st.tuples(st.just("badstate"), g.N(1, 3)).map(list))


def states(draw, op):
    for x in op[1]["init"]:
        for _ in range(draw(g.N(0, 2))):
            x.insert(draw(g.N(0, len(x))), ["state", 0, draw(g.one_of(st.none(), g.N(0, 5)))] if draw(g.N(0, 3)) else ["badstate", draw(g.pick([-1, 1, 2, 64]))])
    return op


@st.composite
def session(draw):
    ops = [["add", "base", [], g.THEORY + draw(TEXT) + (draw(g.parts()) if draw(g.BOOL) else "")]]
    ops += [states(draw, draw(g.propagator()))] + ([states(draw, draw(g.propagator(name=1)))] if draw(g.N(0, 3)) == 0 else [])
    ops.append(["ground", [["base", []]]])
    ops.append(draw(SYNC))
    # minimize constraints added by propagators crash the library in later steps
    if not any(i[0] == "minimize" for o in ops if o[0] == "propagator" for x in o[1]["init"] for i in x) and draw(g.BOOL):
        ops += draw(g.lists(g.one_of(g.ground(), g.ext_op(), g.backend(False)), 0, 2))
        ops.append(draw(SYNC))
    return lua_session(draw, ops, g, logger=True)


def run(case, ev):
    t = compare(case, ev)
    ev.nontrivial(count(t, "prop") > 3)


# --------------------------------------------------------- lazy constraints

@st.composite
def lazy_case(draw):
    n = draw(g.N(2, 5))
    lit = st.integers(1, n).flatmap(lambda v: g.pick([v, -v]))
    clause = st.lists(lit, min_size=1, max_size=4)
    lin = st.tuples(lit, st.lists(st.tuples(lit, g.N(-3, 4)).map(list), max_size=5), g.N(-3, 6), g.pick([0, 1, -1]), g.BOOL).map(list)
    lins = draw(st.lists(lin, max_size=2))
    clauses = draw(st.lists(st.tuples(clause, g.pick(["init", "propagate", "check", "fixpoint", "nogood", "model", "first"])).map(list), max_size=6))
    for i, (l, ws, b, t, eq) in enumerate(lins):
        # the library does not treat constraints over their own literal exactly
        lins[i][1] = ws = [x for x in ws if abs(x[0]) != abs(l)]
        # constraints that are decided when added fix the literal whatever their type
        vs = [abs(l)] + [abs(x) for x, _ in ws]
        lo, hi = sum(min(w, 0) for _, w in ws), sum(max(w, 0) for _, w in ws)
        if i or len(set(vs)) < len(vs) or not lo < b <= hi or any(h == "init" for _, h in clauses):
            lins[i][3] = 0
            lins[i][4] = False
        elif b == hi or any(w != 1 for _, w in ws):
            lins[i][4] = False
    args = draw(g.pick([[], ["--restarts=F,2"], ["--heuristic=Berkmin"], ["--rand-freq=1"], ["-t2"], ["-t3"]]))
    if args and args[0][:2] == "-t":
        # Lua is not made for models reported while other threads propagate
        clauses = [[c, "check" if h == "model" else h] for c, h in clauses]
    steps = draw(g.N(1, 2))
    if any(x[3] for x in lins):
        # a fixed literal turns implications into equivalences
        steps = 1
    return {"n": n, "clauses": clauses, "lins": lins, "min": draw(st.lists(st.tuples(lit, g.N(-3, 3), g.N(0, 2)).map(list), max_size=3)),
            "free": draw(g.N(0, 3)), "tag": draw(g.BOOL), "args": args, "shared": draw(g.N(0, 3)) == 0,
            "decide": draw(st.one_of(st.none(), st.lists(lit, max_size=5))), "steps": steps, "gc": draw(g.pick([0, 0, 5])), "stress": draw(g.pick([0, 0, 2]))}


HELP = r"""
return function(case)
  local errs, stat, step = {}, {0, 0, 0}, 0
  local function fail(...) errs[#errs+1] = table.concat({...}, " ") end
  local threads = tonumber((case.args[1] or ""):match("^%-t(%d)")) or 1
  local P = {}
  local ticks = 0
  local function tick() if case.gc > 0 then ticks = ticks + 1 if ticks % case.gc == 0 then collectgarbage() end end end
  local function set(l) local r = {} for _, x in ipairs(l) do r[x] = true end return r end
  function P:lit(x) if x > 0 then return self.l[x] end return -self.l[-x] end
  function P:lits(c, neg) local r = {} for i, x in ipairs(c) do r[i] = neg and -self:lit(x) or self:lit(x) end return r end
  function P:init(init)
    self.l = {}
    for a in init.symbolic_atoms:by_signature("a", 1) do self.l[a.symbol.arguments[1].number] = init:solver_literal(a.literal) end
    if init.number_of_threads ~= threads then fail("threads", init.number_of_threads) end
    self.watched, self.known = {}, {}
    for v = 1, case.n do
      for _, s in ipairs{1, -1} do
        local l = self:lit(s * v)
        init:add_watch(l)
        self.watched[l] = true
        self.known[l] = true
      end
    end
    self.states = {}
    local shared = {stack = {}, id = 0}
    for t = 1, threads do
      self.states[t] = case.shared and threads == 1 and shared or {stack = {}, id = t}
      init:set_state(t, self.states[t])
    end
    for _, t in ipairs{0, threads + 1, -1} do
      if pcall(init.set_state, init, t, {}) then fail("state of thread", t) end
    end
    for i = 1, case.free do
      local l = init:add_literal(i % 2 == 0)
      if self.known[l] or self.known[-l] then fail("literal not new") end
      self.known[l] = true
      if not init:add_clause({l, -self:lit(1)}) or not init:add_clause({-l, self:lit(1)}) then return end
    end
    init.check_mode = clingo.PropagatorCheckMode.Both
    if init.check_mode ~= clingo.PropagatorCheckMode.Both then fail("check mode") end
    for _, c in ipairs(case.clauses) do
      if c[2] == "init" and not init:add_clause(self:lits(c[1])) then return end
    end
    for _, x in ipairs(case.lins) do
      local ws = {}
      for i, y in ipairs(x[2]) do ws[i] = {self:lit(y[1]), y[2]} end
      if not init:add_weight_constraint(self:lit(x[1]), ws, x[3], x[4], x[5] and x[4] == 0) then return end
    end
    if step == 0 then
      for _, x in ipairs(case.min) do init:add_minimize(self:lit(x[1]), x[2], x[3]) end
    end
    step = step + 1
    init:propagate()
  end
  function P:enforce(control, hows)
    local a = control.assignment
    for _, c in ipairs(case.clauses) do
      if hows[c[2]] then
        local cl, sat, open = self:lits(c[1]), false, 0
        for _, l in ipairs(cl) do
          if a:is_true(l) then sat = true end
          if not a:is_false(l) then open = open + 1 end
        end
        if not sat and open <= 1 then
          stat[1] = stat[1] + 1
          local ok
          tick()
          if c[2] == "nogood" then
            local t = self:lits(c[1], true)
            ok = control:add_nogood{t, tag = case.tag}
          else
            ok = control:add_clause{cl, tag = case.tag}
          end
          if not ok then return end
          if not control:propagate() then return end
        end
      end
    end
  end
  function P:look(a, where)
    local tr, pos = {}, {}
    for i, l in ipairs(a.trail) do
      tr[i] = l
      if pos[l] then fail(where, "literal twice on the trail") end
      pos[l] = i
    end
    if #a.trail ~= #tr then fail(where, "trail size") end
    for l in pairs(self.known) do
      local v = a:value(l)
      if (v == true) ~= a:is_true(l) or (v == false) ~= a:is_false(l) or a:is_true(-l) ~= a:is_false(l) then fail(where, "value", l) end
      if v ~= nil and a:level(l) > a.decision_level then fail(where, "level") end
      if v and not pos[l] and a:level(l) > 0 and not a.has_conflict then fail(where, "not on trail", l) end
      if a:is_fixed(l) ~= (v ~= nil and a:level(l) == 0) then fail(where, "is_fixed") end
    end
    for d = 1, a.decision_level do
      local b, e = a.trail:first(d), a.trail:last(d)
      if b > e or tr[b] ~= a:decision(d) then fail(where, "trail of level", d, b, e) end
      for i = b, e do if a:level(tr[i]) ~= d then fail(where, "level on trail", d) end end
    end
    if a.decision_level > 0 and a.trail:last(a.decision_level) ~= #tr then fail(where, "end of trail") end
  end
  function P:state(t, s, where)
    if s ~= self.states[t] then fail(where, "state of thread", t) end
  end
  function P:propagate(control, changes, s)
    local a = control.assignment
    stat[2] = stat[2] + 1
    tick()
    self:look(a, "propagate")
    self:state(control.thread_id, s, "propagate")
    if #changes == 0 then fail("no changes") end
    for _, l in ipairs(changes) do if not self.watched[l] or not a:is_true(l) then fail("change", l) end end
    local top = s.stack[#s.stack]
    if top and top[1] == a.decision_level then
      for _, l in ipairs(changes) do table.insert(top[2], l) end
    else
      if top and top[1] > a.decision_level then fail("levels were not undone") end
      s.stack[#s.stack + 1] = {a.decision_level, {table.unpack(changes)}}
    end
    self:enforce(control, set{"propagate", "nogood", "first"})
  end
  function P:undo(t, a, changes, s)
    stat[3] = stat[3] + 1
    tick()
    self:state(t, s, "undo")
    local top = s.stack[#s.stack]
    if #changes > 0 then
      if not top or top[1] ~= a.decision_level or table.concat(top[2], " ") ~= table.concat(changes, " ") then
        fail("undo at", a.decision_level, "with", table.concat(changes, " "), "propagated", top and top[1] or "", top and table.concat(top[2], " ") or "")
      else
        s.stack[#s.stack] = nil
      end
    end
  end
  function P:check(control, s)
    local a = control.assignment
    self:look(a, "check")
    self:state(control.thread_id, s, "check")
    if a.is_total then self:enforce(control, set{"fixpoint", "check", "nogood", "propagate", "first"})
    else self:enforce(control, set{"fixpoint", "nogood"}) end
  end
  if case.decide then
    function P:decide(t, a, fallback, s)
      self:state(t, s, "decide")
      if fallback ~= 0 and a:value(fallback) ~= nil then fail("fallback is assigned") end
      for _, x in ipairs(case.decide) do
        if a:value(self:lit(x)) == nil then return self:lit(x) end
      end
      return 0
    end
  end
  local args = {"0"}
  for _, x in ipairs(case.args) do args[#args+1] = x end
  local c = clingo.Control(args)
  c.configuration.solve.opt_mode = "enum,1000"
  c.enable_cleanup = false
  c:register_propagator(P)
  c:add("base", {}, ("{a(1..%d)}."):format(case.n))
  c:ground({{"base", {}}})
  local n = 0
  return function()
    local res, models = {}, nil
    if P.states then for _, s in ipairs(P.states) do for k in pairs(s.stack) do s.stack[k] = nil end end end
    if threads == 1 then
      c:solve{on_model = function(m)
        local k = {}
        for _, s in ipairs(m:symbols{atoms = true}) do if s.name == "a" then k[#k+1] = s.arguments[1].number end end
        res[#res+1] = {k, m.cost}
        for _, x in ipairs(case.clauses) do
          if x[2] == "model" then
            local t = {}
            for i, y in ipairs(x[1]) do t[i] = {clingo.Function("a", {math.abs(y)}), y > 0} end
            m.context:add_clause(t)
          end
        end
      end}
    else
      c:solve()
      models = c.statistics.summary.models.enumerated
    end
    n = n + 1
    c:add("s" .. n, {}, "b" .. n .. ".")
    c:ground({{"s" .. n, {}}})
    return {res, errs, stat, models or -1}
  end
end
"""


def lazy(case, ev):
    """constraints enforced by a propagator at several places: exactly the solutions of the constraints are found"""
    lua = state()
    lua.stress = case["stress"]
    n = case["n"]
    step = lua.run(HELP)(case)
    want = {}
    for bits in itertools.product([False, True], repeat=n):
        def holds(x):
            return bits[abs(x) - 1] == (x > 0)
        if not all(any(holds(x) for x in c) for c, _ in case["clauses"]):
            continue
        ok = True
        for l, ws, b, t, eq in case["lins"]:
            s = sum(w for x, w in ws if holds(x))
            v = s == b if (eq and t == 0) else s >= b
            h = holds(l)
            # type > 0: literal implies constraint; < 0: constraint implies literal
            ok = ok and (t < 0 or not h or v) and (t > 0 or not v or h)
        if not ok:
            continue
        cost = {}
        for x, w, pr in case["min"]:
            cost[pr] = cost.get(pr, 0) + (w if holds(x) else 0)
        want[tuple(i + 1 for i in range(n) if bits[i])] = [cost[k] for k in sorted(cost, reverse=True)]
    stat = [0, 0, 0]
    for i in range(case["steps"]):
        res, errs, stat, models = step()
        if errs:
            raise pbt.Violation(f"{errs[:3]}\n{json.dumps(case)}")
        if models != -1:
            if models != len(want):
                raise pbt.Violation(f"step {i}: {models} solutions instead of {len(want)}\n{json.dumps(case)}")
            continue
        got = {}
        for k, c in res or []:
            k = tuple(sorted(k or []))
            if k in got:
                raise pbt.Violation(f"model {k} twice\n{json.dumps(case)}")
            got[k] = list(c or [])
        if not case["min"]:
            want = {k: [] for k in want}
        for k in {k for k in got if k not in want}:
            # constraints added with a model only exclude later ones
            if any(how == "model" and not any((abs(x) in k) == (x > 0) for x in c) for c, how in case["clauses"]):
                del got[k]
        if got != want:
            raise pbt.Violation(f"step {i}: solutions {got}\nexpected {want}\n{json.dumps(case)}")
    ev.label("lazy" if stat[0] else "-", "undo" if stat[2] else "-", *(h for _, h in case["clauses"]), *case["args"])
    ev.nontrivial(stat[0] > 0 and stat[1] > 2)


TECHNIQUE = ("property-based testing: generated propagator histories driven through the Lua module and compared with the raw C interface; constraints enforced lazily by a "
             "Lua propagator compared with brute-force solutions, with invariants on trail, levels, undo and per-thread state")
LEVEL_NOTE = "Random search over scripted propagators; every value read is compared, every solution set is checked exactly."
CHECK = pbt.Check(
    "C28",
    [pbt.Part("sessions", session(), run, quick=8000, thorough=100000),
     pbt.Part("lazy", lazy_case(), lazy, quick=6000, thorough=80000)],
    rule="sessions with scripted propagators: non-trivial if more than three propagator events were compared; lazy constraints: at least "
         "one clause was added during search and more than two propagate calls were made",
    build=build_lua, init=init_lua,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
