"""What the checks of the Lua binding share."""
import json
import os
import sys

from common import *  # noqa: F401,F403
import pbt


def build_lua():
    import vbuild
    return {"VP_COMPAT": str(vbuild.compat_lib()), "VP_LUADIR": str(vbuild.lua_binding()), "VP_REPO": str(vbuild.REPO)}


def init_lua():
    import luaapi  # noqa: F401
    state()


def state():
    """the Lua state of this process"""
    import luaapi
    import luabridge
    import refclingo
    refclingo.raw()
    if not luaapi._state:
        luaapi._state.append(luabridge.Lua(os.environ["VP_LUADIR"]))
    luaapi._state[0].reset(0)
    return luaapi._state[0]


def compare(case, ev, labels=True):
    """runs a session through both bindings"""
    import luaapi
    import sess
    a, ta = luaapi.run(luaapi.RefLua(), case)
    api = luaapi.LuaApi(os.environ["VP_LUADIR"], case)
    try:
        b, tb = luaapi.run(api, case)
    finally:
        api.close()
    a, b = sess.scrub(a, ta), sess.scrub(b, tb)
    d = sess.diff(a, b)
    if d:
        raise pbt.Violation(d + "\n" + json.dumps(case["ops"])[:3000])
    if labels:
        for e in a:
            if e[0] == "op":
                ev.label("op:" + e[2])
            elif e[0] in ("hop", "model", "prop", "obs", "bret"):
                ev.label(f"{e[0]}:{e[1] if e[0] != 'prop' else e[2]}")
            elif e[0] == "exc":
                ev.label(f"exc:{e[1]}")
            else:
                ev.label(str(e[0]))
    return a


def count(trace, kind, sub=None):
    return sum(1 for e in trace if e[0] == kind and (sub is None or e[1] == sub or (kind == "prop" and e[2] == sub)))


def lua_session(draw, ops, g, **kw):
    import luaapi
    return luaapi.luaize({"args": draw(g.args()), "ops": ops, "stress": draw(g.pick([0, 0, 1, 3, 50])), **kw})
