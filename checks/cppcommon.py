"""What the checks of the C++ interface share."""
import json
import os
import sys

from common import *  # noqa: F401,F403
import pbt


def build_cpp():
    import vbuild
    return {"VP_COMPAT": str(vbuild.compat_lib()), "VP_CPP": str(vbuild.cpp_binding() / "cppclingo.so"), "VP_REPO": str(vbuild.REPO)}


def init_cpp():
    import cppapi
    import refclingo
    refclingo.raw()
    cppapi.module(os.environ["VP_CPP"])


def mod():
    import cppapi
    return cppapi.module(os.environ["VP_CPP"])


def compare(case, ev, labels=True):
    """runs a session through both bindings"""
    import cppapi
    import sess
    a, ta = cppapi.run(cppapi.RefCpp(), case)
    b, tb = cppapi.run(cppapi.CppApi(os.environ["VP_CPP"], case), case)
    a, b = sess.scrub(a, ta), sess.scrub(b, tb)
    d = sess.diff(a, b)
    if d:
        raise pbt.Violation(d + "\n" + json.dumps(case["ops"])[:3000])
    if labels:
        for e in a:
            if e[0] == "op":
                ev.label("op:" + e[2])
            elif e[0] in ("hop", "model", "prop", "obs", "bret"):
                ev.label(f"{e[0]}:{e[1] if e[0] != 'prop' else e[2]}")
            elif e[0] == "exc":
                ev.label(f"exc:{e[1]}")
            else:
                ev.label(str(e[0]))
    return a


def count(trace, kind, sub=None):
    return sum(1 for e in trace if e[0] == kind and (sub is None or e[1] == sub or (kind == "prop" and e[2] == sub)))


def cpp_session(draw, ops, g, **kw):
    import cppapi
    return cppapi.cppize({"args": draw(g.args()), "ops": ops, "alt": draw(g.N(0, 11)), "limit": draw(g.pick([20, 20, 1, 0])), **kw})
