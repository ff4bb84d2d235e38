#!/usr/bin/env python3
"""Builds what the checks share (each check rebuilds what is out of date on its own)."""
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vbuild
vbuild.engine_lib()
vbuild.compat_lib()
vbuild.py_binding()
vbuild.lua_binding()
vbuild.cpp_binding()
vbuild.clingo_app()
for p in ("fake", "other"):
    vbuild.theory_module(p)
print("ok")
