"""C19: Python syntax trees behave as faithful values and containers."""
from bindcommon import *
from bindcommon import _apis
import copy
import re
import shutil
import tempfile
import gensess as g
import gentext
from hypothesis import strategies as st


def mods():
    import clingo.ast as A
    import refast
    global _ref
    if "_ref" not in globals():
        _ref = refast.RefAst()
    return A, _ref


def snake(name):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", name).lower()


def dump(A, x, loc=True):
    """a tree as plain data, read attribute by attribute"""
    if isinstance(x, A.AST):
        r = {"type": snake(x.ast_type.name)}
        for k in x.keys():
            v = getattr(x, k)
            if loc or not isinstance(v, A.Location):
                r[k] = dump(A, v, loc)
        return r
    if isinstance(x, A.Location):
        return [[p.filename, p.line, p.column] for p in (x.begin, x.end)]
    if x is None or isinstance(x, (str, int)):
        return x
    if isinstance(x, (A.ASTSequence, A.StrSequence, list, tuple)):
        return [dump(A, y, loc) for y in x]
    return ["symbol", str(x)]


def noloc(d):
    if isinstance(d, dict):
        return {k: noloc(v) for k, v in d.items() if k != "location"}
    return [noloc(x) for x in d] if isinstance(d, list) else d


def nodes(A, x):
    out = [x]
    for k in x.child_keys:
        v = getattr(x, k)
        for c in ([] if v is None else [v] if isinstance(v, A.AST) else list(v)):
            out += nodes(A, c)
    return out


def bad(msg, case):
    raise pbt.Violation(f"{msg}\n{json.dumps(case)[:3000]}")


# -------------------------------------------------------------------- values

@st.composite
def values_case(draw):
    t = gentext.T(draw)
    return {"files": [t.program(3) for _ in range(1 + (t.n(5) == 0))], "limit": draw(g.N(0, 4)), "extra": t.n(3) == 0}


def ns(A):
    import clingo
    from clingo import symbol as S
    return {"ast": A, "Location": A.Location, "Position": A.Position, **{n: getattr(S, n) for n in ("Number", "String", "Function", "Infimum", "Supremum")}}


def values(case, ev):
    A, R = mods()
    lib, ffi = R.lib, R.ffi
    from clingo._internal import _ffi
    import clingo
    tmp = tempfile.mkdtemp(prefix="ast-")
    refs = []
    try:
        text = case["files"][0]
        if len(case["files"]) > 1:
            fs = []
            for i, f in enumerate(case["files"]):
                fs.append(os.path.join(tmp, f"f{i}.lp"))
                with open(fs[-1], "w") as h:
                    h.write(f)
            refs, msgs, err = R.parse(None, case["limit"], fs)
            f = lambda cb, log: A.parse_files(fs, cb, None, log, case["limit"])
        else:
            refs, msgs, err = R.parse(text, case["limit"])
            f = lambda cb, log: A.parse_string(text, cb, None, log, case["limit"])
        if os.environ.get("VP_REF_ONLY"):
            [R.dump(r) for r in refs]
            [R.unpool(r, 3) for r in refs]
            return
        got, gmsgs, gerr = [], [], None
        try:
            f(got.append, lambda c, m: gmsgs.append([c.name, m]))
        except RuntimeError as e:
            gerr = str(e)
        if (gmsgs, gerr) != (msgs, err):
            bad(f"messages {gmsgs} {gerr} instead of {msgs} {err}", case)
        if len(got) != len(refs):
            bad(f"{len(got)} statements instead of {len(refs)}", case)
        if not msgs and not err:
            again = []
            f(again.append, None)
            if again != got:
                bad("second parse differs", case)
        cast = lambda a: ffi.cast("clingo_ast_t*", int(_ffi.cast("uintptr_t", a._rep)))
        flat = []
        for r, x in zip(refs, got):
            d = R.dump(r)
            e = dump(A, x)
            if d != e:
                bad(f"tree {e}\n instead of {d}", case)
            if str(x) != R.str(r):
                bad(f"str {x} instead of {R.str(r)}", case)
            for t, (o, c) in ((3, (True, True)), (1, (False, True)), (2, (True, False))):
                if not R.R.lib.clingo_ast_unpool_type_condition == 1:
                    break
                try:
                    want = R.unpool(r, t)
                except Exception as e2:
                    want = str(e2)
                try:
                    have = [str(y) for y in x.unpool(o, c)]
                except RuntimeError as e2:
                    have = str(e2)
                if want != have:
                    bad(f"unpool({o},{c}) of {x}: {have} instead of {want}", case)
            flat += nodes(A, x)
        space = ns(A)
        cons = dict(zip([snake(n.name) for n in A.ASTType], [n.name for n in A.ASTType]))
        for x in flat:
            d = dump(A, x)
            ev.label(d["type"])
            names = [R.attrs[a] for a, _ in R.cons[x.ast_type.value][1]]
            kinds = {R.attrs[a]: k for a, k in R.cons[x.ast_type.value][1]}
            if x.keys() != names or [k for k, _ in x.items()] != names or [dump(A, v) for v in x.values()] != [d[k] for k in names] or \
                    [dump(A, v) for _, v in x.items()] != [d[k] for k in names]:
                bad(f"keys/items/values of {x!r}", case)
            if x.child_keys != [k for k in names if kinds[k] in ("ast", "optional_ast", "ast_array")]:
                bad(f"child keys of {x!r}: {x.child_keys}", case)
            for n in ("symbol", "term", "body", "nope", "location", "arguments", "sign"):
                if hasattr(x, n) != (n in names):
                    bad(f"hasattr {n} of {x!r}", case)
            # a node made of the same attributes is the same
            y = getattr(A, x.ast_type.name)(*x.values())
            if dump(A, y) != d or y != x or x < y or x > y or hash(x) != hash(y) or str(y) != str(x):
                bad(f"constructed {y!r} from {x!r}", case)
            y = getattr(A, x.ast_type.name)(**{k: (list(v) if isinstance(v, (A.ASTSequence, A.StrSequence)) else v) for k, v in x.items()})
            if dump(A, y) != d:
                bad(f"constructed {y!r} from keywords of {x!r}", case)
            for y in (copy.copy(x), copy.deepcopy(x)):
                if y is x or y != x or dump(A, y) != d or hash(x) != hash(y):
                    bad(f"copy {y!r} of {x!r}", case)
            if x.update() is not x:
                bad("update without arguments", case)
        for x in got:
            y = eval(repr(x), space)
            if y != x or dump(A, y) != dump(A, x):
                bad(f"repr {x!r}", case)
        some = flat[:25]
        for x in some:
            dx = noloc(dump(A, x))
            for y in some:
                eq, lt, gt = (bool(v) for v in (lib.clingo_ast_equal(cast(x), cast(y)), lib.clingo_ast_less_than(cast(x), cast(y)), lib.clingo_ast_less_than(cast(y), cast(x))))
                if (x == y, x != y, x < y, x > y, x <= y, x >= y) != (eq, not eq, lt, gt, lt or eq, gt or eq):
                    bad(f"comparison of {x} and {y}", case)
                if eq != (dx == noloc(dump(A, y))):
                    bad(f"equality of {x} and {y}", case)
                if eq and hash(x) != hash(y):
                    bad(f"hash of {x}", case)
            for o in (None, 1, str(x), [x]):
                if x == o or not x != o:
                    bad(f"{x} equals {o!r}", case)
        if {hash(x) for x in some} != {hash(x) for x in dict.fromkeys(some)}:
            bad("hash", case)
        ev.nontrivial(len(flat) > 10)
        ev.label("parse error" if err else "parsed", "unpooled" if any(len(x.unpool()) != 1 for x in got) else "-")
    finally:
        R.free(refs)
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------- changing trees

OPS = st.lists(st.tuples(g.pick(["child", "set", "set", "set", "update", "update", "copy", "deepcopy", "seq", "seq", "seq", "cons", "same"]),
                         g.N(0, 40), g.N(0, 8), g.N(0, 60), g.N(-4, 6), g.N(0, 5)).map(list), min_size=1, max_size=14)


@st.composite
def change_case(draw):
    return {"text": gentext.T(draw).program(3), "ops": draw(OPS), "loc": [draw(g.pick(["f", "é.lp", ""])), draw(g.N(0, 9)), draw(g.N(0, 2**31))]}


def change(case, ev):
    """a history of changes on trees that share nodes, against a graph of plain objects"""
    A, R = mods()
    got = []
    try:
        A.parse_string(case["text"], got.append, None, lambda c, m: None)
    except RuntimeError:
        raise pbt.Discard

    class M:
        """model of a node"""
        def __init__(self, d):
            self.d = {k: mk(v) for k, v in d.items()}

    def mk(v):
        return M(v) if isinstance(v, dict) else [mk(x) if isinstance(x, dict) else x for x in v] if isinstance(v, list) else v

    def plain(m):
        return {k: plain(v) for k, v in m.d.items()} if isinstance(m, M) else [plain(x) for x in m] if isinstance(m, list) else m

    def reaches(m, tgt):
        if m is tgt:
            return True
        vs = m.d.values() if isinstance(m, M) else m if isinstance(m, list) else ()
        return any(reaches(v, tgt) for v in vs)
    def rebuild(x):
        return getattr(A, x.ast_type.name)(*[rebuild(v) if isinstance(v, A.AST) else [rebuild(c) for c in v] if isinstance(v, A.ASTSequence) else v for v in x.values()])

    def deepcopy(x):
        """the installed library does not copy optional attributes (fixed in /repo): make them independent"""
        y = copy.deepcopy(x)
        if dump(A, y) != dump(A, x) or y != x:
            bad(f"deep copy {y} of {x}", case)
        todo = [y]
        while todo:
            z = todo.pop()
            for k in ("left_guard", "right_guard", "guard"):
                if k in z.child_keys and getattr(z, k) is not None:
                    setattr(z, k, rebuild(getattr(z, k)))
            for k in z.child_keys:
                v = getattr(z, k)
                todo += [] if v is None else [v] if isinstance(v, A.AST) else list(v)
        return y
    got = [rebuild(x) for x in got]
    reg = [(x, M(dump(A, x))) for x in got]

    def children(x, m):
        out = [(x, m)]
        for k in x.child_keys:
            v, mv = getattr(x, k), m.d[k]
            for c, mc in ([] if v is None else [(v, mv)] if isinstance(v, A.AST) else list(zip(v, mv))):
                out += children(c, mc)
        return out
    allnodes = [p for x, m in reg for p in children(x, m)]
    reg += allnodes[1:12]
    # values by slot
    slots = {}
    for x, m in allnodes:
        for k in x.keys():
            slots.setdefault((x.ast_type, k), []).append((x, m))

    def sample(x, m, k, i):
        """a value for the attribute: (real, model)"""
        ss = slots[(x.ast_type, k)]
        v, mv = ss[i % len(ss)]
        v, mv = getattr(v, k), mv.d[k]
        if isinstance(v, A.Location):
            f, l, c = case["loc"]
            v = A.Location(A.Position(f, l, c), A.Position(f + "2", l + 1, c + 1))
            return v, dump(A, v)
        if isinstance(v, str):
            v = v + "'" if i % 3 else v
            return v, v
        if isinstance(v, A.AST):
            if i % 4 == 0 or reaches(mv, m):
                v = deepcopy(v)
                return v, M(dump(A, v))
            return v, mv
        if isinstance(v, A.StrSequence):
            lst = [s + "x" for s in v] + ["++"] * (i % 2)
            return (lst, tuple(lst), v)[i % 3], list(v) if i % 3 == 2 else lst
        if isinstance(v, A.ASTSequence):
            if any(reaches(c, m) for c in mv):
                lst = [deepcopy(c) for c in v]
                return lst, [M(dump(A, c)) for c in lst]
            return (v, list(v), tuple(v))[i % 3], list(mv)
        return v, mv

    changed = 0
    for k, i, a, j, pos, how in case["ops"]:
        x, m = reg[i % len(reg)]
        names = x.keys()
        if not names:
            continue
        name = names[a % len(names)]
        if k == "child":
            ks = [n for n in x.child_keys if getattr(x, n) is not None and (isinstance(getattr(x, n), A.AST) or len(getattr(x, n)))]
            if ks:
                n = ks[a % len(ks)]
                v, mv = getattr(x, n), m.d[n]
                if not isinstance(v, A.AST):
                    q = j % len(v)
                    v, mv = v[q], mv[q]
                reg.append((v, mv))
        elif k == "set":
            v, mv = sample(x, m, name, j)
            setattr(x, name, v)
            m.d[name] = mv
            changed += 1
        elif k in ("update", "cons"):
            ks = [name] if how < 4 else names[:2]
            new = {n: sample(x, m, n, j + q) for q, n in enumerate(ks)}
            md = {n: (list(v) if isinstance(v, list) and n != "symbol" and n != "location" else v) for n, v in m.d.items()}
            md.update({n: v[1] for n, v in new.items()})
            if k == "update":
                y = x.update(**{n: v[0] for n, v in new.items()})
            else:
                y = getattr(A, x.ast_type.name)(*[new[n][0] if n in new else getattr(x, n) for n in names])
            my = M({})
            my.d = md
            if y is x:
                bad("update returned the same object", case)
            reg.append((y, my))
            changed += 1
        elif k == "copy":
            my = M({})
            my.d = {n: (list(v) if isinstance(v, list) and n not in ("symbol", "location") else v) for n, v in m.d.items()}
            reg.append((copy.copy(x), my))
        elif k == "deepcopy":
            reg.append((deepcopy(x), M(plain(m))))
        elif k == "same":
            # assigning a sequence to itself keeps it
            setattr(x, name, getattr(x, name))
        elif k == "seq":
            ks = [n for n in names if isinstance(getattr(x, n), (A.ASTSequence, A.StrSequence))]
            if not ks:
                continue
            n = ks[a % len(ks)]
            s, ms = getattr(x, n), m.d[n]
            if isinstance(s, A.StrSequence):
                v = mv = "**" if j % 2 else "-"
            else:
                cands = [p for y, my in slots[(x.ast_type, n)] for p in zip(getattr(y, n), my.d[n])]
                if not cands:
                    continue
                v, mv = cands[j % len(cands)]
                if reaches(mv, m):
                    v = deepcopy(v)
                    mv = M(dump(A, v))
            if how == 0:
                s.append(v)
                ms.append(mv)
            elif how == 1:
                s.insert(pos, v)
                ms.insert(pos, mv)
            elif how == 2 and -len(ms) <= pos < len(ms):
                s[pos] = v
                ms[pos] = mv
            elif how == 3 and -len(ms) <= pos < len(ms):
                del s[pos]
                del ms[pos]
            elif how == 4 and ms:
                y = s.pop()
                if dump(A, y) != plain(ms.pop()):
                    bad("pop", case)
            elif how == 5:
                s += [v]
                ms.append(mv)
            changed += 1
        ev.label("op:" + k)
        for y, my in reg:
            if dump(A, y) != plain(my):
                bad(f"after {[k, i, name, j, pos, how]}: {dump(A, y)}\n instead of {plain(my)}", case)
    ev.nontrivial(changed > 2)


# ------------------------------------------------------------------ sequences

IDX = g.N(-6, 6)
SLICE = st.tuples(g.one_of(st.none(), IDX), g.one_of(st.none(), IDX), g.one_of(st.none(), g.pick([1, 1, 2, -1, -2, 3]))).map(list)
VAL = g.pick(["u", "v", "w", "x", "é+", ""])
SOP = g.one_of(
    st.tuples(g.pick(["set", "insert", "sset", "sinsert"]), IDX, VAL, SLICE).map(list), st.tuples(g.pick(["del", "get", "pop", "sdel", "sget", "spop"]), IDX, VAL, SLICE).map(list),
    st.tuples(g.pick(["append", "remove", "index", "sappend", "contains"]), IDX, VAL, SLICE).map(list),
    st.tuples(g.pick(["reverse", "clear", "extend", "iadd", "assign", "slice", "slice2", "setslice", "delslice", "slice2", "sreverse", "popdef"]), IDX, VAL, SLICE).map(list))
SEQ = st.fixed_dictionaries({"kind": g.pick(["ops", "guard", "args", "pool", "body"]), "init": st.lists(VAL, max_size=5), "ops": st.lists(SOP, min_size=1, max_size=10)})


def sequences(case, ev):
    """sequences of nodes and strings behave like lists"""
    A, R = mods()
    loc = A.Location(A.Position("a", 1, 2), A.Position("b", 3, 4))
    strs = case["kind"] in ("ops", "guard")
    E = (lambda v: v) if strs else (lambda v: A.Variable(loc, v))
    owner = {"ops": lambda l: A.TheoryUnparsedTermElement(l, A.Variable(loc, "X")), "guard": lambda l: A.TheoryGuardDefinition(l, "t"), "args": lambda l: A.Function(loc, "f", l, 0),
             "pool": lambda l: A.Pool(loc, l), "body": lambda l: A.Rule(loc, A.BooleanConstant(1), l)}[case["kind"]]([E(v) for v in case["init"]])
    attr = {"ops": "operators", "guard": "operators", "args": "arguments", "pool": "arguments", "body": "body"}[case["kind"]]
    other = copy.copy(owner)
    seq, model = getattr(owner, attr), list(case["init"])
    U = (lambda x: x) if strs else (lambda x: x.name)

    def view(s):
        return [U(x) for x in s]

    def attempt(f):
        try:
            r = f()
            return ["ok", r if not isinstance(r, A.AST) else U(r)]
        except (IndexError, ValueError, TypeError) as e:
            return [type(e).__name__]
    done = 0
    for op, i, v, sl in case["ops"]:
        s = slice(*sl)
        rng = range(*s.indices(len(model)))
        sub = [model[q] for q in rng]

        def sinsert():
            """before the element at the index of the view, at its end if there is none"""
            k = max(i + len(rng), 0) if i < 0 else min(i, len(rng))
            if op == "sappend":
                k = len(rng)
            if k < len(rng):
                p = rng[k] + (rng.step < 0)
            elif len(rng):
                p = rng[-1] + (rng.step > 0)
            else:
                p = rng.start + (rng.step < 0)
            model.insert(p, v)

        def spop(k):
            q = rng[k]
            return model.pop(q)

        def sreverse():
            for a, b in zip(rng, sub[::-1]):
                model[a] = b
        real, want = {
            "get": (lambda: seq[i], lambda: model[i]),
            "set": (lambda: seq.__setitem__(i, E(v)), lambda: model.__setitem__(i, v)),
            "del": (lambda: seq.__delitem__(i), lambda: model.__delitem__(i)),
            "insert": (lambda: seq.insert(i, E(v)), lambda: model.insert(i, v)),
            "append": (lambda: seq.append(E(v)), lambda: model.append(v)),
            "pop": (lambda: seq.pop(i), lambda: model.pop(i)),
            "popdef": (lambda: seq.pop(), lambda: model.pop()),
            "remove": (lambda: seq.remove(E(v)), lambda: model.remove(v)),
            "index": (lambda: seq.index(E(v)), lambda: model.index(v)),
            "contains": (lambda: [E(v) in seq, seq.count(E(v))], lambda: [v in model, model.count(v)]),
            "reverse": (lambda: seq.reverse(), lambda: model.reverse()),
            "clear": (lambda: seq.clear(), lambda: model.clear()),
            "extend": (lambda: seq.extend([E(v), E("t")]), lambda: model.extend([v, "t"])),
            "iadd": (lambda: seq.__iadd__([E(v)]) and None, lambda: model.append(v)),
            "assign": (lambda: setattr(owner, attr, [(lambda: [E(v), E("q")]), (lambda: seq), (lambda: (E(v),)), (lambda: iter([E("r")])), (lambda: seq[s]), (lambda: list(seq) + [E(v)])][i % 6]()),
                       lambda: model.__setitem__(slice(None), [[v, "q"], list(model), [v], ["r"], sub, model + [v]][i % 6])),
            "slice": (lambda: [view(seq[s]), len(seq[s]), view(reversed(seq[s])), E(v) in seq[s]], lambda: [sub, len(sub), sub[::-1], v in sub]),
            "slice2": (lambda: [view(seq[s][i:]), view(seq[s][::-1]), view(seq[s][:i:2])], lambda: [sub[i:], sub[::-1], sub[:i:2]]),
            "setslice": (lambda: seq.__setitem__(s, [E(v)]), lambda: int("x" if 0 else [], 0)),
            "delslice": (lambda: seq.__delitem__(s), lambda: int([], 0)),
            "sget": (lambda: seq[s][i], lambda: sub[i]),
            "sset": (lambda: seq[s].__setitem__(i, E(v)), lambda: model.__setitem__(rng[i], v)),
            "sdel": (lambda: seq[s].__delitem__(i), lambda: model.__delitem__(rng[i])),
            "spop": (lambda: seq[s].pop(i), lambda: spop(i)),
            "sinsert": (lambda: seq[s].insert(i, E(v)), sinsert), "sappend": (lambda: seq[s].append(E(v)), sinsert),
            "sreverse": (lambda: seq[s].reverse(), sreverse),
        }[op]
        before = list(model)
        b = attempt(want)
        a = attempt(real)
        if a != b:
            bad(f"{op} {i} {v} {sl} on {before}: {a} instead of {b}", case)
        if b[0] == "ok":
            done += 1
            ev.label("op:" + op)
        for q in (seq, getattr(owner, attr)):
            n = len(model)
            if view(q) != model or len(q) != n or [U(q[k]) for k in range(n)] != model or [U(q[k]) for k in range(-n, 0)] != model or view(reversed(q)) != model[::-1] or bool(q) != bool(model):
                bad(f"after {op} {i} {v} {sl} on {before}: {view(q)} instead of {model}", case)
            if str(q) != str(list(q)) or repr(q) != repr(list(q)):
                bad(f"str {q!r}", case)
        for k in (len(model), -len(model) - 1, 99):
            if attempt(lambda: seq[k]) != ["IndexError"]:
                bad(f"index {k}", case)
        if [U(x) for x in getattr(other, attr)] != case["init"]:
            bad("the sequence of a copy changed", case)
    if not strs:
        o = getattr(other, attr)
        x, y = tuple(seq), tuple(o)
        if (seq == o, seq != o, seq < o, seq > o, seq <= o, seq >= o, seq == list(seq), seq == x) != (x == y, x != y, x < y, x > y, x <= y, x >= y, True, True):
            bad("comparison", case)
        if x == y and hash(seq) != hash(o) or seq == None or seq == 3:  # noqa: E711
            bad("hash or equality", case)
    ev.nontrivial(done > 2)


# ---------------------------------------------------------------- transformer

TYPES = ["Variable", "SymbolicTerm", "Function", "Literal", "Rule", "Comparison", "BinaryOperation", "ConditionalLiteral", "TheoryAtom", "Guard", "SymbolicAtom", "BodyAggregateElement",
         "TheoryFunction", "TheoryUnparsedTermElement", "Program", "HeadAggregate", "UnaryOperation", "Pool", "TheoryAtomElement", "Aggregate", "BooleanConstant", "Minimize", "TheoryGuard",
         "TheoryUnparsedTerm", "TheoryTermDefinition", "Interval"]
ACT = g.pick(["same", "children", "copy", "rename", "rename", "deep", "drop", "once", "children"])


@st.composite
def trans_case(draw):
    return {"text": gentext.T(draw).program(3), "visit": draw(VISIT), "args": draw(g.lists(g.N(0, 3), 0, 2)), "kw": draw(KW)}


VISIT = st.dictionaries(g.pick(TYPES), ACT, max_size=4)
KW = st.dictionaries(g.pick("kl"), g.N(0, 3), max_size=2)


def transform(case, ev):
    """transformers change exactly what their visit functions return differently"""
    A, R = mods()
    import clingo
    got = []
    try:
        A.parse_string(case["text"], got.append, None, lambda c, m: None)
    except RuntimeError:
        raise pbt.Discard
    log, mlog, once, monce = [], [], set(), set()

    def change(x):
        if x.ast_type == A.ASTType.SymbolicTerm:
            return x.update(symbol=clingo.Function("new", [x.symbol]))
        if "name" in x.keys() and isinstance(x.name, str):
            return x.update(name=x.name + "x")
        if "sign" in x.keys():
            return x.update(sign=(x.sign + 1) % 3)
        return copy.copy(x)

    def mchange(d):
        d = dict(d)
        if d["type"] == "symbolic_term":
            d["symbol"] = ["symbol", f"new({d['symbol'][1]})"]
        elif "name" in d and isinstance(d["name"], str):
            d["name"] += "x"
        elif "sign" in d:
            d["sign"] = (d["sign"] + 1) % 3
        return d

    def method(act, typ):
        def f(self, x, *args, **kw):
            log.append([x.ast_type.name, list(args), kw])
            if x.ast_type.name != typ:
                bad(f"visit_{typ} called for {x.ast_type.name}", case)
            if act == "same":
                return x
            if act == "children":
                return x.update(**self.visit_children(x, *args, **kw))
            if act == "copy":
                return copy.copy(x)
            if act == "deep":
                return change(x.update(**self.visit_children(x, *args, **kw)))
            if act == "rename":
                return change(x)
            if act == "drop":
                return x.update(**self.visit_children(x, *args, **{**kw, "k": "inner"}))
            if typ not in once:
                once.add(typ)
                return change(x)
            return x.update(**self.visit_children(x))
        return f

    names = {snake(n.name): n.name for n in A.ASTType}
    kinds = {snake(n.name): [(R.attrs[a], k) for a, k in R.cons[n.value][1] if k in ("ast", "optional_ast", "ast_array")] for n in A.ASTType if n.value < len(R.cons)}

    def mkids(d, args, kw):
        new, chg = dict(d), False
        for k, kind in kinds[d["type"]]:
            v = d[k]
            if kind == "ast_array":
                r = [mvisit(x, args, kw) for x in v]
                new[k] = [x for x, _ in r]
                chg = chg or any(c for _, c in r)
            elif v is not None:
                new[k], c = mvisit(v, args, kw)
                chg = chg or c
        return new, chg

    def mvisit(d, args, kw):
        typ = names[d["type"]]
        act = case["visit"].get(typ)
        if act is None:
            return mkids(d, args, kw)
        mlog.append([typ, list(args), kw])
        if act == "same":
            return d, False
        if act == "children":
            return mkids(d, args, kw)
        if act == "copy":
            return d, True
        if act == "deep":
            return mchange(mkids(d, args, kw)[0]), True
        if act == "rename":
            return mchange(d), True
        if act == "drop":
            return mkids(d, args, {**kw, "k": "inner"})
        if typ not in monce:
            monce.add(typ)
            return mchange(d), True
        return mkids(d, [], {})
    T = type("T", (A.Transformer,), {"visit_" + t: method(a, t) for t, a in case["visit"].items()})
    t = T()
    n = 0
    for i, x in enumerate(got):
        before = dump(A, x)
        y = (t if i % 2 else t.visit)(x, *case["args"], **case["kw"])
        want, chg = mvisit(before, case["args"], case["kw"])
        if dump(A, x) != before:
            bad(f"the visited tree changed: {x}", case)
        if dump(A, y) != want:
            bad(f"{x} became {dump(A, y)}\n instead of {want}", case)
        if log != mlog:
            bad(f"visited {log} instead of {mlog}", case)
        if (y is x) == chg:
            bad(f"{x}: {'the same' if y is x else 'another'} tree returned", case)
        n += chg
        ev.label("changed" if chg else "same")
    if got:
        s = A.Rule(got[0].location, A.BooleanConstant(1), [A.BooleanConstant(0)]).body
        if A.Transformer().visit_sequence(s) is not s:
            bad("visit_sequence", case)
    ev.label(*case["visit"].values())
    ev.nontrivial(len(log) > 0)


# ------------------------------------------------------------ builder

PROG = g.text([g.opt(), g.show(), g.project(), g.heu(), g.edge(), g.theory_stm(), g.warn()], 4)
BUILD = st.fixed_dictionaries({"text": PROG, "how": g.pick(["plain", "rebuild", "deepcopy", "reparse", "transform"])})


def builder(case, ev):
    """programs added as trees are the programs of the text"""
    A, R = mods()
    import clingo
    outs = []
    for tree in (False, True):
        evs, log = [], []
        ctl = clingo.Control([], lambda c, m: log.append(m.replace("<block>", "<string>")))
        ctl.register_observer(type("O", (), {n: (lambda n: lambda self, *a: evs.append((n, a)))(n) for n in g.EVENTS})())
        text = g.THEORY + case["text"]
        if tree:
            class T(A.Transformer):
                def visit_Variable(self, x):
                    return copy.copy(x)

            def rebuild(x):
                return getattr(A, x.ast_type.name)(*[rebuild(v) if isinstance(v, A.AST) else [rebuild(c) for c in v] if isinstance(v, A.ASTSequence) else v for v in x.values()])
            stms = []
            A.parse_string(text, stms.append)
            if case["how"] == "reparse" and "#show." not in text:
                again = []
                A.parse_string("\n".join(map(str, stms)), again.append)
                stms = again[1:]
            f = {"rebuild": rebuild, "deepcopy": copy.deepcopy, "transform": T()}.get(case["how"], lambda x: x)
            with A.ProgramBuilder(ctl) as b:
                for x in stms:
                    b.add(f(x))
        else:
            ctl.add("base", [], text)
        ctl.ground([("base", [])])
        outs.append((norm(evs), log if case["how"] != "reparse" else len(log)))
    if outs[0] != outs[1]:
        bad(f"text: {outs[0]}\ntrees: {outs[1]}", case)
    ev.label(case["how"])
    ev.nontrivial(len(outs[0][0]) > 8)


def norm(x):
    import sess
    return sess.norm(x)


TECHNIQUE = "model-based property testing: trees of random programs read through Python and through the raw C interface, histories of changes against a graph of plain objects, sequences against lists, transformers against a recursive model"
LEVEL_NOTE = "Random search over statements of the whole grammar and over operation histories; all node types and attributes are reached."
CHECK = pbt.Check(
    "C19",
    [pbt.Part("values", values_case(), values, quick=2400, thorough=30000),
     pbt.Part("changes", change_case(), change, quick=2000, thorough=40000),
     pbt.Part("sequences", SEQ, sequences, quick=5000, thorough=100000),
     pbt.Part("transform", trans_case(), transform, quick=2400, thorough=40000),
     pbt.Part("builder", BUILD, builder, quick=1200, thorough=20000)],
    rule="non-trivial: more than ten nodes / more than two changes / more than two successful operations / a visit function was called / more than eight ground statements",
    build=build_py, init=init_py,
    assumptions=["the installed libclingo 5.6.2 executes the C calls"])

if __name__ == "__main__":
    sys.exit(pbt.main(CHECK, __file__))
