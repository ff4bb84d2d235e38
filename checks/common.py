import os
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import pbt  # noqa: E402  (extends sys.path for hypothesis)


def build_engine():
    import vbuild
    return {"VP_ENGINE": str(vbuild.engine_lib())}


def ground(text, args=(), raw=None):
    """aspif (or text) output of the engine built from /repo; raises rawc.ClingoError if rejected"""
    import rawc
    with (raw or rawc.engine()).control(list(args)) as c:
        try:
            for part in ([text] if isinstance(text, str) else text):
                c.add("base", [], part)
            c.ground()
            c.end_step()
        except rawc.ClingoError as e:
            e.msgs = c.msgs
            raise
        return c.output(), c.msgs
