"""What the checks of the Python binding share."""
import json
import os
import sys

from common import *  # noqa: F401,F403
import pbt


def build_py():
    import vbuild
    return {"VP_COMPAT": str(vbuild.compat_lib()), "VP_PYDIR": str(vbuild.py_binding()), "VP_REPO": str(vbuild.REPO)}


_apis = []


def init_py():
    import vbuild
    sys.path[:0] = [os.environ["VP_PYDIR"], str(vbuild.REPO / "libpyclingo")]
    import clingo
    assert clingo.__file__.startswith(str(vbuild.REPO)), clingo.__file__
    import sess
    _apis[:] = [sess.RefApi(), sess.PyApi()]


def compare(case, ev, labels=True):
    """runs a session through both bindings"""
    import sess
    a, ta = sess.run(_apis[0], case)
    if os.environ.get("VP_REF_ONLY"):
        return a
    b, tb = sess.run(_apis[1], case)
    a, b = sess.scrub(a, ta), sess.scrub(b, tb)
    d = sess.diff(a, b)
    if d:
        raise pbt.Violation(d + "\n" + json.dumps(case["ops"])[:3000])
    if labels:
        for e in a:
            if e[0] == "op":
                ev.label("op:" + e[2])
            elif e[0] in ("hop", "model", "prop", "obs", "bret"):
                ev.label(f"{e[0]}:{e[1] if e[0] != 'prop' else e[2]}")
            elif e[0] == "exc":
                ev.label(f"exc:{e[1]}")
            else:
                ev.label(str(e[0]))
    return a


def count(trace, kind, sub=None):
    return sum(1 for e in trace if e[0] == kind and (sub is None or e[1] == sub or (kind == "prop" and e[2] == sub)))
