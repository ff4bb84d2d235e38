"""A Lua state inside the Python process (cffi on liblua5.4): values are converted, Python functions can be called from Lua.

Python calls Lua only in protected mode and Python functions called from Lua never raise, so no error unwinds Python frames."""
import ctypes

import cffi

ffi = cffi.FFI()
ffi.cdef("""
typedef struct lua_State lua_State; typedef int (*lua_CFunction)(lua_State*);
lua_State *luaL_newstate(void); void luaL_openlibs(lua_State*); void lua_close(lua_State*);
int lua_gettop(lua_State*); void lua_settop(lua_State*, int); void lua_pushvalue(lua_State*, int); int lua_checkstack(lua_State*, int);
int lua_type(lua_State*, int); int lua_isinteger(lua_State*, int); double lua_tonumberx(lua_State*, int, int*);
long long lua_tointegerx(lua_State*, int, int*); int lua_toboolean(lua_State*, int); char const *lua_tolstring(lua_State*, int, size_t*);
void lua_pushnil(lua_State*); void lua_pushnumber(lua_State*, double); void lua_pushinteger(lua_State*, long long);
char const *lua_pushlstring(lua_State*, char const*, size_t); void lua_pushcclosure(lua_State*, lua_CFunction, int);
void lua_pushboolean(lua_State*, int); void lua_setglobal(lua_State*, char const*); int lua_rawgeti(lua_State*, int, long long);
void lua_createtable(lua_State*, int, int); int lua_getmetatable(lua_State*, int); void lua_rawset(lua_State*, int);
void lua_rawseti(lua_State*, int, long long); int lua_pcallk(lua_State*, int, int, int, ptrdiff_t, void*); int lua_next(lua_State*, int);
int lua_gc(lua_State*, int, ...); int luaL_ref(lua_State*, int); void luaL_unref(lua_State*, int, int);
int luaL_loadbufferx(lua_State*, char const*, size_t, char const*, char const*); int lua_getglobal(lua_State*, char const*);
char const *luaL_tolstring(lua_State*, int, size_t*); void const *lua_topointer(lua_State*, int);
void luaL_traceback(lua_State*, lua_State*, char const*, int);
""")
REG = -1000000 - 1000
_lib = None


def lib():
    global _lib
    if _lib is None:
        ctypes.CDLL("liblua5.4.so.0", mode=ctypes.RTLD_GLOBAL)
        _lib = ffi.dlopen("liblua5.4.so.0", ffi.RTLD_NOW | ffi.RTLD_GLOBAL)
    return _lib


class LuaError(RuntimeError):
    """an error of Lua; the value is kept"""
    def __init__(self, msg, value=None):
        super().__init__(msg)
        self.value = value


PRELUDE = r"""
local pycall = pycall_
return {
  index = function(o, k) return o[k] end,
  newindex = function(o, k, v) o[k] = v end,
  call = function(f, ...) return f(...) end,
  method = function(o, k, ...) return o[k](o, ...) end,
  str = tostring,
  len = function(o) return #o end,
  cmp = function(a, b) return {a == b, a < b, a <= b} end,
  wrap = function(id) return function(...)
    local ok, r = pycall(id, ...)
    if ok then return r end
    error(r, 0)
  end end,
  fields = function(o, t) for k, v in pairs(t) do o[k] = v end return o end,
  drain = function(f) local r = {} for x in f do r[#r+1] = x end return r end,
  many = function(f, ...) local r = {} for _, x in f(...) do r[#r+1] = x end return r end,
  ipairs = function(o) local r = {} for i, x in ipairs(o) do r[#r+1] = {i, x} end return r end,
  pairs = function(o) local r = {} for i, x in pairs(o) do r[#r+1] = {i, x} end return r end,
  thread = function(f) local ok, r = coroutine.resume(coroutine.create(f)) return ok, r end,
  inherit = function(o) return setmetatable({}, {__index = o}) end,
}
"""


class Ref:
    """a Lua value kept in the registry"""
    __slots__ = ("lua", "ref", "kind", "__weakref__")

    def __init__(self, lua, ref, kind):
        object.__setattr__(self, "lua", lua)
        object.__setattr__(self, "ref", ref)
        object.__setattr__(self, "kind", kind)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.lua.f("index", self, name)

    def __setattr__(self, name, v):
        self.lua.f("newindex", self, name, v)

    def __getitem__(self, k):
        return self.lua.f("index", self, k)

    def m(self, name, *args):
        return self.lua.f("method", self, name, *args)

    def __call__(self, *args):
        return self.lua.f("call", self, *args)

    def __str__(self):
        return self.lua.f("str", self)

    def __len__(self):
        return self.lua.f("len", self)

    def __del__(self):
        self.lua.dead.append(self.ref)


class Lua:
    def __init__(self, cpath, stress=0):
        self.l = lib()
        self.L = self.main = self.l.luaL_newstate()
        self.dead, self.funs, self.helpers, self.raised, self.stress, self.n = [], [], {}, None, stress, 0
        self.l.luaL_openlibs(self.L)
        self.cb = ffi.callback("int(lua_State*)", self.callback, error=0)
        self.l.lua_pushcclosure(self.L, self.cb, 0)
        self.l.lua_setglobal(self.L, b"pycall_")
        for k, v in self.run(PRELUDE, "prelude").items():
            self.helpers[k] = v.ref
            self.keep = getattr(self, "keep", []) + [v]
        self.run(f"package.cpath = '{cpath}/?.so'; clingo = require('clingo')", "init")

    def reset(self, stress):
        """forgets everything between two cases"""
        assert self.L == self.main and self.l.lua_gettop(self.L) == 0, f"{self.l.lua_gettop(self.L)} values left on the Lua stack"
        while self.dead:
            self.l.luaL_unref(self.L, REG, self.dead.pop())
        self.l.lua_gc(self.L, ffi.cast("int", 2))
        self.funs, self.raised, self.stress, self.n = [], None, stress, 0

    def close(self):
        L, self.L = self.L, None
        self.l.lua_close(L)

    # -- values
    def push(self, L, v, depth=0):
        l = self.l
        if not l.lua_checkstack(L, 8):
            raise MemoryError("lua stack")
        if v is None:
            l.lua_pushnil(L)
        elif v is True or v is False:
            l.lua_pushboolean(L, v)
        elif isinstance(v, int):
            l.lua_pushinteger(L, v)
        elif isinstance(v, float):
            l.lua_pushnumber(L, v)
        elif isinstance(v, (str, bytes)):
            b = v.encode(errors="surrogateescape") if isinstance(v, str) else v
            l.lua_pushlstring(L, b, len(b))
        elif isinstance(v, Ref):
            l.lua_rawgeti(L, REG, v.ref)
        elif isinstance(v, (list, tuple)):
            l.lua_createtable(L, len(v), 0)
            for i, x in enumerate(v, 1):
                self.push(L, x)
                l.lua_rawseti(L, -2, i)
        elif isinstance(v, dict):
            l.lua_createtable(L, 0, 0)
            for k, x in v.items():
                if x is not None:
                    self.push(L, k)
                    self.push(L, x)
                    l.lua_rawset(L, -3)
        elif callable(v):
            self.push(L, self.wrap(v))
        else:
            self.push(L, v.ref)

    def get(self, L, i):
        l = self.l
        t = l.lua_type(L, i)
        if t <= 0:
            return None
        if t == 1:
            return bool(l.lua_toboolean(L, i))
        if t == 3:
            if l.lua_isinteger(L, i):
                return l.lua_tointegerx(L, i, ffi.NULL)
            x = l.lua_tonumberx(L, i, ffi.NULL)
            return int(x) if x == x and abs(x) < 2**53 and x == int(x) else x
        if t == 4:
            n = ffi.new("size_t*")
            p = l.lua_tolstring(L, i, n)
            return ffi.buffer(p, n[0])[:].decode(errors="surrogateescape")
        if t == 5 and not l.lua_getmetatable(L, i):
            d = {}
            l.lua_checkstack(L, 8)
            l.lua_pushvalue(L, i)
            l.lua_pushnil(L)
            while l.lua_next(L, -2):
                d[self.get(L, -2)] = self.get(L, -1)
                l.lua_settop(L, -2)
            l.lua_settop(L, -2)
            return [d[k] for k in range(1, len(d) + 1)] if set(d) == set(range(1, len(d) + 1)) else d
        if t == 5:
            l.lua_settop(L, -2)
        l.lua_pushvalue(L, i)
        return Ref(self, l.luaL_ref(L, REG), t)

    # -- calls
    def error(self, L):
        """the error on top of the stack"""
        v = self.get(L, -1)
        self.l.lua_settop(L, -2)
        return LuaError(v if isinstance(v, str) else f"error of type {type(v).__name__}", v)

    def run(self, code, name="chunk"):
        b, L = code.encode(), self.L
        if self.l.luaL_loadbufferx(L, b, len(b), name.encode(), ffi.NULL) or self.l.lua_pcallk(L, 0, 1, 0, 0, ffi.NULL):
            raise self.error(L)
        r = self.get(L, -1)
        self.l.lua_settop(L, -2)
        return r

    def f(self, helper, *args):
        l, L = self.l, self.L
        while self.dead:
            l.luaL_unref(L, REG, self.dead.pop())
        top = l.lua_gettop(L)
        l.lua_rawgeti(L, REG, self.helpers[helper])
        for a in args:
            self.push(L, a)
        code = l.lua_pcallk(L, len(args), 1, 0, 0, ffi.NULL)
        if code:
            e = self.error(L)
            assert l.lua_gettop(L) == top
            raise e
        r = self.get(L, -1)
        l.lua_settop(L, -2)
        assert l.lua_gettop(L) == top
        return r

    def wrap(self, fun):
        self.funs.append(fun)
        return self.f("wrap", len(self.funs) - 1)

    def callback(self, L):
        l, old = self.l, self.L
        self.L = L
        try:
            try:
                self.n += 1
                if self.stress and self.n % self.stress == 0:
                    l.lua_gc(L, ffi.cast("int", 2))
                n = l.lua_gettop(L)
                args = [self.get(L, i) for i in range(1, n + 1)]
                r = self.funs[args[0]](*args[1:])
                l.lua_checkstack(L, 8)
                l.lua_pushboolean(L, 1)
                self.push(L, r)
            except LuaError as e:
                l.lua_settop(L, 0)
                l.lua_pushboolean(L, 0)
                self.push(L, e.value)
            except BaseException as e:  # noqa: B902
                self.raised = e
                l.lua_settop(L, 0)
                l.lua_pushboolean(L, 0)
                self.push(L, e.lua if hasattr(e, "lua") else f"{type(e).__name__}: {e}")
            return 2
        finally:
            self.L = old
