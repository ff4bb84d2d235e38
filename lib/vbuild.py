"""Content-addressed build driver: compiles what a check needs from /repo's
current working tree into /verif/build (git-ignored).  An object is reused only
if its command line and the *contents* of all files it was compiled from are
unchanged; modification times are never consulted."""
import fcntl
import hashlib
import json
import os
import shlex
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from contextlib import contextmanager
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))
BUILD = Path(os.environ.get("VP_BUILD", str(VERIF / "build")))
JOBS = int(os.environ.get("VP_JOBS", "8"))
PYTHON = "/usr/bin/python3"


class BuildError(Exception):
    pass


_hash_cache = {}


def fhash(path):
    path = str(path)
    if path not in _hash_cache:
        try:
            with open(path, "rb") as f:
                _hash_cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash_cache[path] = None
    return _hash_cache[path]


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(f"{what} failed:\n{' '.join(map(shlex.quote, map(str, cmd)))}\n{p.stdout[-6000:]}")
    return p.stdout


def _stamp_ok(stamp, cmd, out):
    if not os.path.exists(out):
        return False
    try:
        with open(stamp) as f:
            st = json.load(f)
    except (OSError, ValueError):
        return False
    if st.get("cmd") != cmd:
        return False
    return all(fhash(d) == h for d, h in st["deps"].items())


def _write_stamp(stamp, cmd, deps):
    tmp = f"{stamp}.tmp{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump({"cmd": cmd, "deps": {d: fhash(d) for d in deps}}, f)
    os.replace(tmp, stamp)


def _read_deps(depfile):
    text = Path(depfile).read_text().replace("\\\n", " ")
    return [os.path.normpath(d) for d in shlex.split(text.split(":", 1)[1])]


def compile_obj(group, src, flags, cxx="g++"):
    """Compile one translation unit, returns the object's path."""
    src = str(src)
    outdir = BUILD / group / "obj"
    outdir.mkdir(parents=True, exist_ok=True)
    stem = hashlib.sha256(src.encode()).hexdigest()[:10] + "_" + os.path.basename(src)
    obj, dep, stamp = (str(outdir / (stem + ext)) for ext in (".o", ".d", ".json"))
    cmd = [cxx, *flags, "-c", src, "-o", obj]
    if not _stamp_ok(stamp, cmd, obj):
        _run(cmd + ["-MMD", "-MF", dep], f"compiling {src}")
        _write_stamp(stamp, cmd, [src, *_read_deps(dep)])
    return obj


def generate(group, cmd, inputs, outputs, name):
    """Run a generator (bison, re2c, ...) if its inputs changed."""
    outdir = BUILD / group
    outdir.mkdir(parents=True, exist_ok=True)
    stamp = str(outdir / f"{name}.json")
    cmd = [str(c) for c in cmd]
    if not (_stamp_ok(stamp, cmd, str(outputs[0])) and all(os.path.exists(o) for o in outputs)):
        _run(cmd, f"generating {name}")
        _write_stamp(stamp, cmd, [str(i) for i in inputs])
        for o in outputs:
            _hash_cache.pop(str(o), None)


def compile_all(group, srcs, flags, cxx="g++"):
    with ThreadPoolExecutor(JOBS) as pool:
        return list(pool.map(lambda s: compile_obj(group, s, flags, cxx), srcs))


def link(group, name, objs, flags=(), cxx="g++", shared=False):
    out = BUILD / group / name
    out.parent.mkdir(parents=True, exist_ok=True)
    stamp = str(out) + ".json"
    cmd = [cxx, *(["-shared"] if shared else []), "-o", str(out), *objs, *flags]
    for o in objs:
        _hash_cache.pop(str(o), None)
    if not _stamp_ok(stamp, cmd, str(out)):
        _run(cmd, f"linking {name}")
        _write_stamp(stamp, cmd, list(objs))
        _hash_cache.pop(str(out), None)
    return out


@contextmanager
def locked(name):
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(BUILD / f".{name}.lock", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


# ---------------------------------------------------------------- libgringo

GRINGO_INC = [
    f"-I{VERIF}/shim", f"-I{REPO}/libgringo", f"-I{REPO}/libreify", f"-I{REPO}/libclingo",
]


def engine_flags(san):
    base = ["-std=c++17", "-O1", "-DNDEBUG", "-w", "-fPIC", "-DCLINGO_MAP_TYPE=0", "-DCLINGO_NO_VISIBILITY", "-DCLINGO_STATIC_LIBRARY"]
    if san:
        base += ["-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
                 "-fno-omit-frame-pointer"]
    return base


def engine_link_flags(san):
    return ["-fsanitize=address,undefined"] if san else []


def gen_dir():
    return BUILD / "gen"


def gen_parsers():
    gd = gen_dir() / "src" / "input"
    inp = REPO / "libgringo/src/input"
    for g in ("groundtermgrammar", "nongroundgrammar"):
        (gd / g).mkdir(parents=True, exist_ok=True)
        generate("gen", ["bison", f"--defines={gd}/{g}/grammar.hh", f"--output={gd}/{g}/grammar.cc", "-Wno-other",
                         "-Wno-deprecated", inp / f"{g}.yy"],
                 [inp / f"{g}.yy"], [gd / g / "grammar.cc", gd / g / "grammar.hh"], g)
    generate("gen", ["re2c", "-o", gd / "groundtermlexer.hh", inp / "groundtermlexer.xh"],
             [inp / "groundtermlexer.xh"], [gd / "groundtermlexer.hh"], "groundtermlexer")
    generate("gen", ["re2c", "-c", "-o", gd / "nongroundlexer.hh", inp / "nongroundlexer.xch"],
             [inp / "nongroundlexer.xch"], [gd / "nongroundlexer.hh"], "nongroundlexer")
    cp = gd / "clingopath.hh"
    text = (inp / "clingopath.hh.in").read_text().replace("@CLINGO_CLINGOPATH@", "")
    if not cp.exists() or cp.read_text() != text:
        cp.write_text(text)
    return gen_dir() / "src"


def engine_objs(san=False, with_ast=False):
    """libgringo + libreify (+ libclingo's AST code), compiled against /verif/shim."""
    gsrc = gen_parsers()
    flags = engine_flags(san) + GRINGO_INC + [f"-I{gsrc}", f"-I{REPO}/libgringo/src"]
    srcs = sorted((REPO / "libgringo/src").rglob("*.cc")) + sorted((REPO / "libreify/src").rglob("*.cc"))
    srcs += sorted(gsrc.rglob("*.cc"))
    if with_ast:
        srcs += sorted((REPO / "libclingo/src").glob("astv2*.cc"))
    # big ones first
    srcs.sort(key=lambda p: -p.stat().st_size)
    return compile_all("engine-san" if san else "engine", srcs, flags), flags


def engine_lib(san=False):
    """libvengine.so: grounder + C interface (clingo.h of /repo) without a solver."""
    with locked("engine-san" if san else "engine"):
        objs, flags = engine_objs(san, True)
        src = REPO / "libclingo/src"
        inc = [f"-I{VERIF}/engine/fake", f"-I{src}"]
        group = "engine-san" if san else "engine"
        objs = objs + compile_all(group, [VERIF / "engine/vengine.cc", src / "incmode.cc", src / "scripts.cc"],
                                  inc + flags)
        return link(group, "libvengine.so", objs, engine_link_flags(san) + ["-Wl,-Bsymbolic"], shared=True)


# ---------------------------------------------------------------- bindings

def compat_lib():
    """Interposer between bindings of /repo (5.8) and the installed libclingo (5.6.2)."""
    with locked("bind"):
        obj = compile_obj("bind", VERIF / "bind/compat58.c",
                          ["-O1", "-w", "-fPIC", "-include", f"{VERIF}/bind/clingo58.h"], cxx="gcc")
        return link("bind", "libcompat58.so", [obj], ["-lclingo", "-ldl"], cxx="gcc", shared=True)


def _bind_link():
    d = BUILD / "bind"
    return [f"-L{d}", f"-Wl,-rpath,{d}", "-lcompat58", "-lclingo"]


def _pyflags():
    import sysconfig
    return [f"-I{sysconfig.get_paths()['include']}", "-D_CFFI_NO_LIMITED_API"]


def py_binding():
    """Directory with _clingo.so, built from /repo's app/pyclingo."""
    compat_lib()
    with locked("bind"):
        obj = compile_obj("bind", REPO / "app/pyclingo/_clingo.c",
                          ["-O0", "-w", "-fPIC", f"-I{REPO}/libclingo", f"-I{REPO}/libpyclingo", *_pyflags()], cxx="gcc")
        return link("bind", "py/_clingo.so", [obj], _bind_link(), cxx="gcc", shared=True).parent


def lua_binding(san=False):
    """Directory with clingo.so for Lua, built from /repo's app/luaclingo and libluaclingo."""
    compat_lib()
    with locked("bind"):
        flags = ["-std=c++14", "-O1", "-w", "-fPIC", f"-I{REPO}/libclingo", f"-I{REPO}/libluaclingo", "-I/usr/include/lua5.4"]
        objs = compile_all("bind", [REPO / "libluaclingo/luaclingo.cc", REPO / "app/luaclingo/main.cc"], flags)
        return link("bind", "lua/clingo.so", objs, _bind_link(), shared=True).parent


def clingo_app():
    """The clingo executable with embedded Python and Lua, built from /repo's app/clingo, libpyclingo and libluaclingo."""
    import sysconfig
    compat_lib()
    with locked("bind"):
        d = BUILD / "bind" / "app"
        d.mkdir(parents=True, exist_ok=True)
        (d / "version.h").write_text('#define PYCLINGO_PYTHON_VERSION "%s"\n' % sysconfig.get_python_version())
        inc = [f"-I{REPO}/libclingo", f"-I{REPO}/libpyclingo", f"-I{REPO}/libluaclingo", "-I/usr/include/lua5.4", f"-I{d}"]
        py = f"-I{sysconfig.get_paths()['include']}"
        objs = [compile_obj("bind", REPO / "libpyclingo" / f, ["-O0", "-w", "-fPIC", "-DPYCLINGO_BUILD_LIBRARY", py, *inc], cxx="gcc")
                for f in ("_clingo.c", "pyclingo.c")]
        objs += compile_all("bind", [REPO / "libluaclingo/luaclingo.cc"], ["-std=c++14", "-O1", "-w", "-fPIC", f"-I{REPO}/libclingo", f"-I{REPO}/libluaclingo", "-I/usr/include/lua5.4"])
        objs += compile_all("bind", [REPO / "app/clingo/main.cc"], ["-std=c++14", "-O1", "-w", "-DCLINGO_WITH_PYTHON", "-DCLINGO_WITH_LUA", *inc])
        return link("bind", "app/clingo", objs, _bind_link() + ["-llua5.4", f"-L{sysconfig.get_config_var('LIBDIR')}", f"-lpython{sysconfig.get_python_version()}"])


def cpp_binding():
    """Directory with cppclingo.so: /repo's clingo.hh made available to Python (with assertions)."""
    import sysconfig
    compat_lib()
    with locked("bind"):
        flags = ["-std=c++14", "-O1", "-w", "-fPIC", f"-I{REPO}/libclingo", f"-I{sysconfig.get_paths()['include']}"]
        objs = compile_all("bind", [VERIF / "bind/cppclingo.cc", VERIF / "bind/cppast.cc", VERIF / "bind/cppapp.cc"], flags)
        v = sysconfig.get_config_var("py_version_nodot")
        return link("bind", "cpp/cppclingo.so", objs, _bind_link() + [f"-lboost_python{v}"], shared=True).parent


THEORY_CDEF = """
typedef uint64_t clingo_symbol_t;
typedef struct clingo_ast clingo_ast_t;
typedef struct clingo_control clingo_control_t;
typedef struct clingo_options clingo_options_t;
typedef struct clingo_statistic clingo_statistics_t;
typedef struct clingo_model clingo_model_t;
typedef struct P_theory P_theory_t;
typedef int P_value_type_t;
typedef struct P_value { P_value_type_t type; union { int int_number; double double_number; clingo_symbol_t symbol; }; } P_value_t;
typedef bool (*P_ast_callback_t)(clingo_ast_t *ast, void *data);
bool P_create(P_theory_t **theory);
bool P_destroy(P_theory_t *theory);
void P_version(int *major, int *minor, int *patch);
bool P_register(P_theory_t *theory, clingo_control_t *control);
bool P_rewrite_ast(P_theory_t *theory, clingo_ast_t *ast, P_ast_callback_t add, void *data);
bool P_prepare(P_theory_t *theory, clingo_control_t *control);
bool P_register_options(P_theory_t *theory, clingo_options_t *options);
bool P_validate_options(P_theory_t *theory);
bool P_on_model(P_theory_t *theory, clingo_model_t *model);
bool P_on_statistics(P_theory_t *theory, clingo_statistics_t *step, clingo_statistics_t *accu);
bool P_lookup_symbol(P_theory_t *theory, clingo_symbol_t symbol, size_t *index);
clingo_symbol_t P_get_symbol(P_theory_t *theory, size_t index);
void P_assignment_begin(P_theory_t *theory, uint32_t thread_id, size_t *index);
bool P_assignment_next(P_theory_t *theory, uint32_t thread_id, size_t *index);
bool P_assignment_has_value(P_theory_t *theory, uint32_t thread_id, size_t index);
void P_assignment_get_value(P_theory_t *theory, uint32_t thread_id, size_t index, P_value_t *value);
bool P_configure(P_theory_t *theory, char const *key, char const *value);
"""
THEORY_EXTRA = """
char const *vt_log(void);
void vt_clear(void);
void vt_fail(char const *message);
void vt_script(int copies);
void vt_version(int a, int b, int c);
void vt_put(P_theory_t *theory, uint32_t thread, clingo_symbol_t symbol, bool has, P_value_t *value);
"""


def theory_module(prefix):
    """A cffi module with a theory library that logs its calls; independent of /repo except for clingo.h."""
    import sys
    import sysconfig
    with locked("bind"):
        d = BUILD / "bind" / "theory"
        d.mkdir(parents=True, exist_ok=True)
        name = f"vtheory_{prefix}"
        gen = f'''
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {str(VERIF / "lib")!r})
import cffi, vbuild
ffi = cffi.FFI()
cdef = (vbuild.THEORY_CDEF + vbuild.THEORY_EXTRA).replace("P_", {prefix + "_"!r})
ffi.cdef(cdef + 'extern "Python" bool py{prefix}_rewrite(clingo_ast_t *ast, void *data);')
ffi.set_source({name!r}, '#define PRE(x) {prefix}_##x\\n#include "vtheory.h"\\n')
ffi.emit_c_code({str(d / (name + ".c"))!r})
'''
        generate("bind", [sys.executable, "-c", gen], [VERIF / "lib/vbuild.py"], [d / (name + ".c")], "theory-" + prefix)
        obj = compile_obj("bind", d / (name + ".c"), ["-O1", "-w", "-fPIC", "-I/usr/include", f"-I{VERIF}/bind", *_pyflags()], cxx="gcc")
        return link("bind", f"theory/{name}.so", [obj], ["-lclingo"], cxx="gcc", shared=True).parent
