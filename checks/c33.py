"""C33: C++ syntax trees behave as faithful values."""
from cppcommon import *
import shutil
import tempfile
import gensess as g
import gentext
from hypothesis import strategies as st


def bad(msg, case):
    raise pbt.Violation(f"{msg}\n{json.dumps(case)[:3000]}")


def ref():
    import refast
    global _ref
    if "_ref" not in globals():
        _ref = refast.RefAst()
    return _ref


LETTER = {"number": "n", "symbol": "y", "location": "l", "string": "t", "ast": "a", "optional_ast": "o", "string_array": "S", "ast_array": "A"}


class T:
    """trees of clingo.hh"""
    def __init__(self, case):
        self.m, self.R, self.n = mod(), ref(), case.get("alt", 0)

    def alt(self):
        self.n += 1
        return self.n

    def attrs(self, x):
        return self.R.cons[x.type][1]

    def names(self, x):
        return [self.R.attrs[a] for a, _ in self.attrs(x)]

    def get(self, x, a, kind):
        k = self.alt()
        if k % 2:
            return x.get_as(a, kind)
        got, v = x.get(a, k)
        if got != kind:
            raise pbt.Violation(f"attribute {self.R.attrs[a]} is {got} instead of {kind}")
        return v

    def plain(self, kind, v):
        if kind in ("number", "string"):
            return v
        if kind == "symbol":
            return ["symbol", str(v)]
        if kind == "location":
            return [list(v[:3]), list(v[3:])]
        if kind in ("ast", "optional_ast"):
            return None if v is None else self.dump(v)
        if kind == "string_array":
            return list(v.list())
        return [self.dump(c) for c in v.list()]

    def dump(self, x):
        r = {"type": self.R.cons[x.type][0]}
        for a, kind in self.attrs(x):
            r[self.R.attrs[a]] = self.plain(kind, self.get(x, a, kind))
        return r

    def kids(self, x):
        out = []
        for a, kind in self.attrs(x):
            if kind in ("ast", "optional_ast"):
                v = self.get(x, a, kind)
                out += [] if v is None else [v]
            elif kind == "ast_array":
                out += list(self.get(x, a, kind).list())
        return out

    def nodes(self, x):
        out = [x]
        for c in self.kids(x):
            out += self.nodes(c)
        return out

    def arg(self, x, a, kind):
        """the attribute in the form make_node takes"""
        v = self.get(x, a, kind)
        if kind in ("string_array", "ast_array"):
            return list(v.list())
        return v

    def make(self, x, change=None):
        sig = "".join(LETTER[k] for _, k in self.attrs(x))
        return self.m.make_node(x.type, sig, [self.arg(x, a, k) for a, k in self.attrs(x)])

    def parse(self, text, limit=20, log=None, files=None, ctl=None):
        got, msgs, err = [], [], None
        try:
            if files is None:
                self.m.parse_string(text, got.append, ctl, lambda c, n, m: msgs.append([c, m]), limit, self.alt())
            else:
                self.m.parse_files(files, got.append, ctl, lambda c, n, m: msgs.append([c, m]), limit, self.alt())
        except self.m.CppError as e:
            err = str(e)
        import refclingo
        return got, [[refclingo.MSG[c], m] for c, m in msgs], err


def rel3(lt, gt):
    return (not lt and not gt, lt or gt, lt, not gt, gt, not lt)


def noloc(d):
    if isinstance(d, dict):
        return {k: noloc(v) for k, v in d.items() if k != "location"}
    return [noloc(x) for x in d] if isinstance(d, list) else d


@st.composite
def values_case(draw):
    t = gentext.T(draw)
    return {"files": [t.program(3) for _ in range(1 + (t.n(5) == 0))], "limit": draw(g.N(0, 4)), "alt": draw(g.N(0, 11)), "wrong": draw(g.N(0, 30)), "cut": draw(g.N(0, 7))}


def values(case, ev):
    t = T(case)
    R, m = t.R, t.m
    lib, ffi = R.lib, R.ffi
    tmp = tempfile.mkdtemp(prefix="ast-")
    refs = []
    try:
        fs = None
        if len(case["files"]) > 1:
            fs = []
            for i, f in enumerate(case["files"]):
                fs.append(os.path.join(tmp, f"f{i}.lp"))
                with open(fs[-1], "w") as h:
                    h.write(f)
        refs, msgs, err = R.parse(case["files"][0] if fs is None else None, case["limit"], fs)
        got, gmsgs, gerr = t.parse(case["files"][0], case["limit"], files=fs)
        if (gmsgs, gerr) != (msgs, err):
            bad(f"messages {gmsgs} {gerr} instead of {msgs} {err}", case)
        if len(got) != len(refs):
            bad(f"{len(got)} statements instead of {len(refs)}", case)
        flat = []
        for r, x in zip(refs, got):
            d, e = R.dump(r), t.dump(x)
            if d != e:
                bad(f"tree {e}\n instead of {d}", case)
            if str(x) != R.str(r):
                bad(f"printed as {x} instead of {R.str(r)}", case)
            for ty, o, c in ((3, True, True), (1, False, True), (2, True, False), (0, False, False)):
                try:
                    want = R.unpool(r, ty)
                except Exception as e2:
                    want = str(e2)
                try:
                    have = [str(y) for y in x.unpool(o, c)]
                except m.CppError as e2:
                    have = str(e2)
                if want != have:
                    bad(f"unpool({o},{c}) of {x}: {have} instead of {want}", case)
            # visiting is a walk in document order that descends where the visitor says so
            order = t.nodes(x)
            seen = []
            x.visit_ast(lambda y: seen.append(y.ptr) or True, t.alt())
            if seen != [y.ptr for y in order]:
                bad(f"nodes of {x} are visited as {len(seen)} instead of {len(order)}", case)

            def walk(y, out):
                out.append(y.ptr)
                if (len(out) * 7 + case["cut"]) % 4:
                    for z in t.kids(y):
                        walk(z, out)
                return out
            seen = []

            def some(y):
                seen.append(y.ptr)
                return (len(seen) * 7 + case["cut"]) % 4 != 0
            x.visit_ast(some, t.alt())
            if seen != walk(x, []):
                bad(f"nodes of {x} visited in part: {seen}", case)
            # the identity shares the tree
            if x.transform_ast(lambda y: y, t.alt()).ptr != x.ptr:
                bad(f"identity copies {x}", case)
            flat += order
        for x in flat:
            d = t.dump(x)
            ev.label(d["type"])
            vis = x.visit(t.alt())
            if [(a, k) for a, (k, _) in vis] != list(t.attrs(x)) or [t.plain(k, v) for _, (k, v) in vis] != [d[n] for n in t.names(x)]:
                bad(f"attributes of {x}: {vis}", case)
            y = t.make(x)
            if t.dump(y) != d or str(y) != str(x) or y.ptr == x.ptr or y.hash != x.hash or tuple(m.node_rel(x, y)) != rel3(False, False):
                bad(f"built {y} from {x}", case)
            for y in (x.copy(), x.deep_copy(), x.moved()):
                if t.dump(y) != d or tuple(m.node_rel(x, y)) != rel3(False, False) or y.hash != x.hash:
                    bad(f"copy {y} of {x}", case)
            if x.copy().ptr == x.ptr or x.deep_copy().ptr == x.ptr:
                bad(f"copy of {x} is not a copy", case)
            if x.moved().ptr != x.ptr and t.dump(x.moved()) != d:
                bad("moving", case)
            for a in (case["wrong"], case["wrong"] + 7):
                if a < len(R.attrs) and R.attrs[a] not in t.names(x):
                    for f in (lambda: x.get(a, 0), lambda: x.set(a, "number", 1)):
                        try:
                            f()
                        except m.CppError:
                            pass
                        else:
                            bad(f"attribute {R.attrs[a]} of {x}", case)
        some = flat[:25]
        cast = lambda a: ffi.cast("clingo_ast_t*", a.ptr)
        for x in some:
            dx = noloc(t.dump(x))
            for y in some:
                lt, gt = bool(lib.clingo_ast_less_than(cast(x), cast(y))), bool(lib.clingo_ast_less_than(cast(y), cast(x)))
                if tuple(m.node_rel(x, y)) != rel3(lt, gt):
                    bad(f"comparison of {x} and {y}: {m.node_rel(x, y)}", case)
                eq = dx == noloc(t.dump(y))
                if m.node_rel(x, y)[0] != eq or eq and x.hash != y.hash:
                    bad(f"equality of {x} and {y}", case)
            if x.hash != lib.clingo_ast_hash(cast(x)):
                bad(f"hash of {x}", case)
        ev.nontrivial(len(flat) > 10)
        ev.label("parse error" if err else "parsed", "unpooled" if any(len(x.unpool(True, True)) != 1 for x in got) else "-")
    finally:
        R.free(refs)
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------- changing trees

OPS = st.lists(st.tuples(g.pick(["child", "child", "set", "set", "set", "copy", "deepcopy", "seq", "seq", "seq", "seq", "seq", "transform", "make", "same", "cross", "move"]),
                         g.N(0, 40), g.N(0, 8), g.N(0, 60), g.N(0, 6), g.N(0, 9)).map(list), min_size=1, max_size=14)


@st.composite
def change_case(draw):
    return {"text": gentext.T(draw).program(3), "ops": draw(OPS), "loc": [draw(g.pick(["f", "é.lp", ""])), draw(g.N(0, 9)), draw(g.N(0, 2**31))], "alt": draw(g.N(0, 11))}


class M:
    """model of a node"""
    def __init__(self, d):
        self.d = {k: M.mk(v) for k, v in d.items()}

    @staticmethod
    def mk(v):
        return M(v) if isinstance(v, dict) else [M.mk(x) if isinstance(x, dict) else x for x in v] if isinstance(v, list) else v

    def copy(self):
        r = M({})
        r.d = {n: (list(v) if isinstance(v, list) and n not in ("symbol", "location") else v) for n, v in self.d.items()}
        return r


def plain(m):
    return {k: plain(v) for k, v in m.d.items()} if isinstance(m, M) else [plain(x) for x in m] if isinstance(m, list) else m


def reaches(m, tgt):
    if m is tgt:
        return True
    vs = m.d.values() if isinstance(m, M) else m if isinstance(m, list) else ()
    return any(reaches(v, tgt) for v in vs)


def change(case, ev):
    """a history of changes on trees that share nodes, against a graph of plain objects"""
    t = T(case)
    m_, R = t.m, t.R
    got, _, _ = t.parse(case["text"])
    if not got:
        raise pbt.Discard
    ids = {n: i for i, n in enumerate(R.attrs)}

    def rebuild(x):
        args = []
        for a, k in t.attrs(x):
            v = t.arg(x, a, k)
            args.append([rebuild(c) for c in v] if k == "ast_array" else rebuild(v) if k in ("ast", "optional_ast") and v is not None else v)
        return m_.make_node(x.type, "".join(LETTER[k] for _, k in t.attrs(x)), args)

    def deepcopy(x):
        """the installed library does not copy optional attributes (fixed in /repo): make them independent"""
        y = x.deep_copy()
        if t.dump(y) != t.dump(x) or not m_.node_rel(x, y)[0]:
            bad(f"deep copy {y} of {x}", case)
        todo = [y]
        while todo:
            z = todo.pop()
            for a, k in t.attrs(z):
                if k == "optional_ast" and t.get(z, a, k) is not None:
                    z.set(a, k, rebuild(t.get(z, a, k)))
            todo += t.kids(z)
        return y
    got = [rebuild(x) for x in got]
    reg = [(x, M(t.dump(x))) for x in got]

    def children(x, m):
        out = [(x, m)]
        for a, k in t.attrs(x):
            mv = m.d[R.attrs[a]]
            if k in ("ast", "optional_ast") and mv is not None:
                out += children(t.get(x, a, k), mv)
            elif k == "ast_array":
                for c, mc in zip(t.get(x, a, k).list(), mv):
                    out += children(c, mc)
        return out
    allnodes = [p for x, m in reg for p in children(x, m)]
    reg += allnodes[1:12]
    slots = {}
    for x, m in allnodes:
        for a, _ in t.attrs(x):
            slots.setdefault((x.type, a), []).append((x, m))

    def sample(x, m, a, kind, i):
        """a value for the attribute: (real, model)"""
        ss = slots[(x.type, a)]
        w, mw = ss[i % len(ss)]
        v, mv = t.get(w, a, kind), mw.d[R.attrs[a]]
        if kind == "location":
            f, l, c = case["loc"]
            v = [f, l, c, f + "2", l + 1, c + 1]
            return v, [v[:3], v[3:]]
        if kind == "string":
            v = v + "'" if i % 3 else v
            return v, v
        if kind in ("ast", "optional_ast"):
            if v is None or kind == "optional_ast" and i % 5 == 0:
                return None, None
            if i % 4 == 0 or reaches(mv, m):
                v = deepcopy(v)
                return v, M(t.dump(v))
            return v, mv
        if kind == "string_array":
            return v, list(mv)
        if kind == "ast_array":
            if any(reaches(c, m) for c in mv):
                y = deepcopy(w)
                v = t.get(y, a, kind)
                return v, M(t.dump(y)).d[R.attrs[a]]
            return v, list(mv)
        return v, mv
    changed = 0
    for k, i, aa, j, pos, how in case["ops"]:
        x, m = reg[i % len(reg)]
        attrs = t.attrs(x)
        if not attrs:
            continue
        a, kind = attrs[aa % len(attrs)]
        name = R.attrs[a]
        if k == "child":
            ch = children(x, m)[1:]
            if ch:
                reg.append(ch[j % len(ch)])
        elif k == "set":
            v, mv = sample(x, m, a, kind, j)
            if mv is None and kind == "ast":
                continue
            x.set(a, kind, v)
            m.d[name] = mv
            changed += 1
        elif k == "make":
            args, my = [], m.copy()
            for q, (b, kd) in enumerate(attrs):
                if b == a:
                    v, mv = sample(x, m, b, kd, j)
                    my.d[R.attrs[b]] = mv
                    args.append(list(v.list()) if kd in ("ast_array", "string_array") else v)
                else:
                    args.append(t.arg(x, b, kd))
            y = m_.make_node(x.type, "".join(LETTER[kd] for _, kd in attrs), args)
            reg.append((y, my))
        elif k == "move":
            y = x.moved()
            if y.ptr == x.ptr:
                reg.append((y, m))
        elif k == "copy":
            reg.append((x.copy(), m.copy()))
        elif k == "deepcopy":
            reg.append((deepcopy(x), M(plain(m))))
        elif k == "same":
            if kind != "location":
                x.set(a, kind, t.get(x, a, kind))
        elif k == "cross":
            # a vector of another attribute of the same node
            vs = [b for b, kd in attrs if kd == "ast_array"]
            if len(vs) > 1:
                b, c = vs[aa % len(vs)], vs[(aa + 1) % len(vs)]
                x.set(b, "ast_array", t.get(x, c, "ast_array"))
                m.d[R.attrs[b]] = list(m.d[R.attrs[c]])
                changed += 1
        elif k == "transform":
            # some children are replaced by renamed or changed copies
            my = m.copy()
            picked, cnt, reps = False, [0], {}

            def visit(c):
                cnt[0] += 1
                if (cnt[0] + j) % 3:
                    return c
                d = c.copy()
                reps[cnt[0]] = d
                return d
            y = x.transform_ast(visit, how)
            n = 0
            for b, kd in attrs:
                nm = R.attrs[b]
                if kd in ("ast", "optional_ast") and m.d[nm] is not None:
                    n += 1
                    if n in reps:
                        my.d[nm] = m.d[nm].copy()
                        reg.append((reps[n], my.d[nm]))
                elif kd == "ast_array":
                    for q in range(len(m.d[nm])):
                        n += 1
                        if n in reps:
                            my.d[nm][q] = m.d[nm][q].copy()
                            reg.append((reps[n], my.d[nm][q]))
            if n != cnt[0]:
                bad(f"{cnt[0]} children visited instead of {n}", case)
            if (y.ptr == x.ptr) != (not reps):
                bad("transform shares the tree although it changed" if reps else "transform copies the tree", case)
            if reps:
                reg.append((y, my))
                changed += 1
        elif k == "seq":
            ks = [(b, kd) for b, kd in attrs if kd in ("ast_array", "string_array")]
            if not ks:
                continue
            b, kd = ks[aa % len(ks)]
            s, ms = t.get(x, b, kd), m.d[R.attrs[b]]
            if t.alt() % 3 == 0:
                s = s.copied()
            if s.ast().ptr != x.ptr:
                bad("owner of vector", case)
            if kd == "string_array":
                v = mv = "**" if j % 2 else "-"
            else:
                cands = [p for y, my in slots[(x.type, b)] for p in zip(t.get(y, b, kd).list(), my.d[R.attrs[b]])]
                if not cands:
                    continue
                v, mv = cands[j % len(cands)]
                if reaches(mv, m):
                    v = deepcopy(v)
                    mv = M(t.dump(v))
            n = len(ms)
            if how == 0:
                s.append([v, v])
                ms += [mv, mv]
            elif how == 1:
                s.insert(pos % (n + 1), v)
                ms.insert(pos % (n + 1), mv)
            elif how in (2, 3) and n:
                s.set(pos % n, v, j % 5)
                ms[pos % n] = mv
            elif how == 4 and n:
                s.erase(pos % n)
                del ms[pos % n]
            elif how == 5 and n:
                s.pop()
                ms.pop()
            elif how == 6 and n > 1:
                # one element is assigned to another
                s.move(pos % n, s, j % n, j % 5)
                ms[pos % n] = ms[j % n]
            elif how == 7 and pos == 0:
                s.clear()
                del ms[:]
            elif how == 8 and n:
                ys = [(y, my) for y, my in slots[(x.type, b)] if my.d[R.attrs[b]]]
                if ys:
                    y, my = ys[j % len(ys)]
                    z, mz = t.get(y, b, kd), my.d[R.attrs[b]]
                    q = pos % len(mz)
                    if isinstance(mz[q], M) and reaches(mz[q], m):
                        continue
                    s.move(j % n, z, q, pos)
                    ms[j % n] = mz[q]
            elif how == 9:
                s.push(v)
                ms.append(mv)
            if len(s) != len(ms):
                bad(f"size {len(s)} instead of {len(ms)}", case)
            changed += 1
        ev.label("op:" + k)
        for y, my in reg:
            if t.dump(y) != plain(my):
                bad(f"after {[k, i, name, j, pos, how]}: {t.dump(y)}\n instead of {plain(my)}", case)
    ev.nontrivial(changed > 2)


# --------------------------------------------------------------- building

PROG = g.text([g.opt(), g.show(), g.project(), g.heu(), g.edge(), g.theory_stm(), g.warn()], 4)
BUILD = st.fixed_dictionaries({"text": g.one_of(PROG, PROG, PROG.map(lambda p: p + "\na :- .")), "how": g.pick(["plain", "rebuild", "deepcopy", "reparse", "transform", "control"]),
                               "alt": g.N(0, 11), "log": g.BOOL, "raise": g.N(0, 6)})


def builder(case, ev):
    """programs added as trees are the programs of the text"""
    import cppapi
    import sess
    t = T(case)
    m = t.m
    api = cppapi.CppApi(os.environ["VP_CPP"], case)
    outs = []
    text = g.THEORY + case["text"]
    for tree in (False, True):
        evs, log = [], []
        c = api.control([], lambda k, x: log.append(x.replace("<block>", "<string>")), 20)
        c.r.register_observer(lambda n, a: evs.append([n, a]), g.EVENTS, None)
        err = None
        try:
            if tree:
                stms = []
                if case["how"] == "control":
                    # messages go to the logger of the control
                    m.parse_string(text, stms.append, c.r, None, 20, t.alt())
                else:
                    m.parse_string(text, stms.append, None, lambda k, n, x: log.append(x), 20, t.alt())
                if case["how"] == "reparse" and "#show." not in text:
                    again = []
                    m.parse_string("\n".join(map(str, stms)), again.append, None, lambda k, n, x: log.append(x), 20, t.alt())
                    stms = again[1:]
                f = {"rebuild": t.make, "deepcopy": lambda x: x.deep_copy(), "transform": lambda x: x.transform_ast(lambda y: y.copy(), t.alt())}.get(case["how"], lambda x: x)

                def fill(b):
                    for x in stms:
                        b.add(f(x))
                if t.alt() % 2:
                    m.with_builder(c.r, fill)
                else:
                    b = m.builder(c.r, t.alt())
                    fill(b)
                    b.close()
            else:
                c.add("base", [], text)
        except m.CppError as e:
            err = [e.kind]
        if err is None:
            try:
                c.r.ground([("base", [])], None)
            except m.CppError as e:
                err = [e.kind, str(e)]
        api.free(c)
        outs.append([sess.norm(evs), err, log if case["how"] != "reparse" else len(log)])
    if outs[0] != outs[1]:
        bad(f"text: {outs[0]}\ntrees: {outs[1]}", case)
    # an exception in the callback ends the parse and comes back unchanged
    n = [0]
    e = ValueError("stop")

    def cb(x):
        n[0] += 1
        if n[0] == case["raise"]:
            raise e
    try:
        m.parse_string(text, cb, None, lambda *a: None, 20, t.alt())
        if case["raise"] and n[0] >= case["raise"]:
            bad("exception lost", case)
    except ValueError as f:
        if f is not e or n[0] != case["raise"]:
            bad(f"exception {f!r} after {n[0]}", case)
    except m.CppError as f:
        if outs[0][1] is None:
            bad(f"error {f}", case)
    ev.label(case["how"], "rejected" if outs[0][1] else "grounded")
    ev.nontrivial(len(outs[0][0]) > 8)


TECHNIQUE = ("model-based property testing: trees of random programs read through clingo.hh and through the raw C interface, histories of changes against a graph of plain objects, "
             "programs added as trees against programs added as text")
LEVEL_NOTE = "Random search over statements of the whole grammar and over operation histories; all node types and attributes are reached."
CHECK = pbt.Check(
    "C33",
    [pbt.Part("values", values_case(), values, quick=1600, thorough=25000),
     pbt.Part("changes", change_case(), change, quick=3000, thorough=40000),
     pbt.Part("builder", BUILD, builder, quick=2000, thorough=30000)],
    rule="non-trivial: more than ten nodes / more than two changes / more than eight ground statements",
    build=build_cpp, init=init_cpp,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
