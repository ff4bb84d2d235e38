// Syntax trees of clingo.hh for Python, and operations on its optionals and variants.
#include "cppclingo.hh"
#include <boost/ref.hpp>
#include <map>
#include <utility>

using namespace AST;

namespace {

using Ptr = uintptr_t;

Ptr nptr(Node const &n) { return reinterpret_cast<Ptr>(n.to_c()); }

struct NV {
    NodeVector v;
};
struct SV {
    StringVector v;
};

struct NodePtr {
    Ptr operator()(Node const &n) const { return nptr(n); }
    Ptr operator()(NodeRef const &n) const { return nptr(n.get()); }
};
struct Text {
    std::string operator()(char const *x) const { return x; }
    std::string operator()(StringRef const &x) const { return x.get(); }
};

bp::list loc(Location const &l) {
    bp::list r;
    r.append(std::string(l.begin_file()));
    r.append(l.begin_line());
    r.append(l.begin_column());
    r.append(std::string(l.end_file()));
    r.append(l.end_line());
    r.append(l.end_column());
    return r;
}

bp::tuple kv(char const *kind, bp::object o) { return bp::make_tuple(std::string(kind), o); }

template <class... T> struct Types {};
using All = Types<int, Symbol, Location, char const *, Node, Optional<Node>, StringVector, NodeVector>;
template <class T> int has_type(NodeValue const &v) {
    if (v.is<T>()) {
        v.get<T>();
        return 1;
    }
    try {
        v.get<T>();
    } catch (std::bad_cast const &) {
        return 0;
    }
    throw Bad{"no bad_cast"};
}
template <class... T> void one_type(NodeValue const &v, Types<T...>) {
    int n = 0;
    for (int x : {has_type<T>(v)...}) {
        n += x;
    }
    ck(n == 1, "a value has exactly one type");
}

bp::tuple value_(NodeValue const &v) {
    one_type(v, All());
    if (v.is<int>()) {
        return kv("number", bp::object(v.get<int>()));
    }
    if (v.is<Symbol>()) {
        return kv("symbol", bp::object(v.get<Symbol>()));
    }
    if (v.is<Location>()) {
        return kv("location", loc(v.get<Location>()));
    }
    if (v.is<char const *>()) {
        return kv("string", bp::object(std::string(v.get<char const *>())));
    }
    if (v.is<Node>()) {
        return kv("ast", bp::object(v.get<Node>()));
    }
    if (v.is<Optional<Node>>()) {
        auto &o = v.get<Optional<Node>>();
        ck(static_cast<bool>(o) == (o.get() != nullptr), "optional");
        return kv("optional_ast", o ? bp::object(*o) : bp::object());
    }
    if (v.is<StringVector>()) {
        return kv("string_array", bp::object(SV{v.get<StringVector>()}));
    }
    return kv("ast_array", bp::object(NV{v.get<NodeVector>()}));
}

bp::tuple value(NodeValue const &v, int alt) {
    if (alt % 3 == 1) {
        NodeValue w{v};
        NodeValue u{std::move(w)};
        return value_(u);
    }
    if (alt % 3 == 2) {
        NodeValue w{1};
        NodeValue u{static_cast<char const *>("x")};
        w = v;
        u = std::move(w);
        std::swap(u, w);
        w.swap(u);
        return value_(u);
    }
    return value_(v);
}

bp::tuple nget(Node const &n, int attr, int alt) { return value(n.get(static_cast<Attribute>(attr)), alt); }
// reads with the type that is expected
bp::object nget_as(Node const &n, int attr, std::string const &kind) {
    auto a = static_cast<Attribute>(attr);
    if (kind == "number") {
        return bp::object(n.get<int>(a));
    }
    if (kind == "symbol") {
        return bp::object(n.get<Symbol>(a));
    }
    if (kind == "location") {
        return loc(n.get<Location>(a));
    }
    if (kind == "string") {
        return bp::object(std::string(n.get<char const *>(a)));
    }
    if (kind == "ast") {
        return bp::object(n.get<Node>(a));
    }
    if (kind == "optional_ast") {
        auto o = n.get<Optional<Node>>(a);
        return o ? bp::object(*o) : bp::object();
    }
    if (kind == "string_array") {
        return bp::object(SV{n.get<StringVector>(a)});
    }
    return bp::object(NV{n.get<NodeVector>(a)});
}

Location mkloc(bp::object o, std::vector<std::string> &keep) {
    keep.push_back(bp::extract<std::string>(o[0])());
    keep.push_back(bp::extract<std::string>(o[3])());
    return {keep[keep.size() - 2].c_str(),   keep[keep.size() - 1].c_str(),   bp::extract<size_t>(o[1])(),
            bp::extract<size_t>(o[4])(), bp::extract<size_t>(o[2])(), bp::extract<size_t>(o[5])()};
}

NodeValue mkvalue(std::string const &kind, bp::object o, std::vector<std::string> &keep) {
    keep.reserve(8);
    if (kind == "number") {
        return {bp::extract<int>(o)()};
    }
    if (kind == "symbol") {
        return {bp::extract<Symbol>(o)()};
    }
    if (kind == "location") {
        return {mkloc(o, keep)};
    }
    if (kind == "string") {
        keep.push_back(bp::extract<std::string>(o)());
        return {keep.back().c_str()};
    }
    if (kind == "ast") {
        return {bp::extract<Node>(o)()};
    }
    if (kind == "optional_ast") {
        return o.is_none() ? NodeValue{Optional<Node>{}} : NodeValue{Optional<Node>{bp::extract<Node>(o)()}};
    }
    if (kind == "string_array") {
        return {bp::extract<SV &>(o)().v};
    }
    return {bp::extract<NV &>(o)().v};
}

void nset(Node &n, int attr, std::string const &kind, bp::object o) {
    std::vector<std::string> keep;
    n.set(static_cast<Attribute>(attr), mkvalue(kind, o, keep));
}

bp::tuple nrel(Node const &a, Node const &b) { return bp::make_tuple(a == b, a != b, a < b, a <= b, a > b, a >= b); }

bp::list nunpool(Node const &n, bool other, bool cond) {
    auto v = other && cond ? n.unpool() : cond ? n.unpool(other, cond) : n.unpool(other, cond);
    return list(v);
}

bp::list nvisit(Node const &n, int alt) {
    bp::list r;
    auto f = [&](Attribute a, NodeValue v) { r.append(bp::make_tuple(static_cast<int>(a), value(v, alt))); };
    if (alt % 2 != 0) {
        n.visit_attribute(f);
    } else {
        n.visit_attribute([&](Attribute a, NodeValue v) { f(a, std::move(v)); });
    }
    return r;
}

void nvisit_ast(Node const &n, bp::object f, int alt) {
    auto g = [&](Node const &x) { return py([&]() -> bool { return bp::extract<bool>(f(x))(); }); };
    try {
        alt % 2 != 0 ? n.visit_ast(g) : n.visit_ast([&](Node const &x) { return g(x); });
    } catch (bp::error_already_set const &) {
        throw_cpp();
    }
}

Node ntransform(Node const &n, bp::object f, int alt) {
    auto g = [&](Node const &x) -> Node { return py([&]() -> Node { return bp::extract<Node>(f(x))(); }); };
    try {
        return alt % 2 != 0 ? n.transform_ast(g) : n.transform_ast([&](Node const &x) { return g(x); });
    } catch (bp::error_already_set const &) {
        throw_cpp();
        throw;
    }
}

std::string nstr(Node const &n) {
    ck(n.to_string() == show(n), "printing trees");
    return n.to_string();
}

// moves and copies leave the tree alone
Node nmoved(Node const &n) {
    Node a{n};
    Node b{std::move(a)};
    ck(a.to_c() == nullptr, "moved from");
    Node c{b};
    c = c;
    c = std::move(b);
    b = c;
    Node d = n.copy();
    d = std::move(c);
    d = b;
    std::swap(b, d);
    return d;
}

// ---------------------------------------------------------------- building

struct Arg {
    std::string kind;
    bp::object o;
};
template <class T> struct Get;
template <> struct Get<int> {
    static int get(bp::object o, std::vector<std::string> &) { return bp::extract<int>(o)(); }
};
template <> struct Get<Symbol> {
    static Symbol get(bp::object o, std::vector<std::string> &) { return bp::extract<Symbol>(o)(); }
};
template <> struct Get<Location> {
    static Location get(bp::object o, std::vector<std::string> &keep) { return mkloc(o, keep); }
};
template <> struct Get<char const *> {
    static char const *get(bp::object o, std::vector<std::string> &keep) {
        keep.push_back(bp::extract<std::string>(o)());
        return keep.back().c_str();
    }
};
template <> struct Get<Node> {
    static Node get(bp::object o, std::vector<std::string> &) { return bp::extract<Node>(o)(); }
};
template <> struct Get<Optional<Node>> {
    static Optional<Node> get(bp::object o, std::vector<std::string> &) {
        return o.is_none() ? Optional<Node>{} : Optional<Node>{bp::extract<Node>(o)()};
    }
};
template <> struct Get<std::vector<Node>> {
    static std::vector<Node> get(bp::object o, std::vector<std::string> &) { return vec<Node>(o); }
};
template <> struct Get<std::vector<char const *>> {
    static std::vector<char const *> get(bp::object o, std::vector<std::string> &keep) {
        std::vector<char const *> r;
        for (auto &x : strs(o)) {
            keep.push_back(x);
            r.push_back(keep.back().c_str());
        }
        return r;
    }
};

template <class... T> struct Sig {
    template <size_t... I> static Node build(Type t, bp::object a, std::index_sequence<I...>) {
        std::vector<std::string> keep;
        keep.reserve(1000);
        std::tuple<T...> x{Get<T>::get(a[I], keep)...};
        return Node(t, std::get<I>(x)...);
    }
    static Node make(Type t, bp::object a) { return build(t, a, std::index_sequence_for<T...>()); }
};
using n = int;
using y = Symbol;
using l = Location;
using t = char const *;
using a = Node;
using o = Optional<Node>;
using S = std::vector<char const *>;
using A = std::vector<Node>;

Node make(int type, std::string const &sig, bp::object args) {
    using F = Node (*)(Type, bp::object);
    static std::map<std::string, F> sigs{
        {"AA", &Sig<A, A>::make},
        {"Aa", &Sig<A, a>::make},
        {"Sa", &Sig<S, a>::make},
        {"St", &Sig<S, t>::make},
        {"a", &Sig<a>::make},
        {"aA", &Sig<a, A>::make},
        {"lA", &Sig<l, A>::make},
        {"laA", &Sig<l, a, A>::make},
        {"laAa", &Sig<l, a, A, a>::make},
        {"laAaaa", &Sig<l, a, A, a, a, a>::make},
        {"laAo", &Sig<l, a, A, o>::make},
        {"laa", &Sig<l, a, a>::make},
        {"laaA", &Sig<l, a, a, A>::make},
        {"laaAA", &Sig<l, a, a, A, A>::make},
        {"lnA", &Sig<l, n, A>::make},
        {"lna", &Sig<l, n, a>::make},
        {"lnaa", &Sig<l, n, a, a>::make},
        {"lntnto", &Sig<l, n, t, n, t, o>::make},
        {"loAo", &Sig<l, o, A, o>::make},
        {"lonAo", &Sig<l, o, n, A, o>::make},
        {"lt", &Sig<l, t>::make},
        {"ltA", &Sig<l, t, A>::make},
        {"ltAA", &Sig<l, t, A, A>::make},
        {"ltAn", &Sig<l, t, A, n>::make},
        {"ltan", &Sig<l, t, a, n>::make},
        {"ltnn", &Sig<l, t, n, n>::make},
        {"ltt", &Sig<l, t, t>::make},
        {"ly", &Sig<l, y>::make},
        {"n", &Sig<n>::make},
        {"na", &Sig<n, a>::make},
        {"ta", &Sig<t, a>::make},
        {"", &Sig<>::make},
        {"lnn", &Sig<l, n, n>::make},
        {"l", &Sig<l>::make},
        {"y", &Sig<y>::make},
        {"lo", &Sig<l, o>::make},
        {"lS", &Sig<l, S>::make},
    };
    return sigs.at(sig)(static_cast<Type>(type), args);
}

// ---------------------------------------------------------------- vectors

bp::list nv_list(NV &x) {
    bp::list r;
    auto &v = x.v;
    auto const &c = x.v;
    auto p = contract(c.begin(), c.end(), NodePtr());
    ck(p == contract(v.begin(), v.end(), NodePtr()), "iterators");
    arrows(c.begin(), c.end(), NodePtr());
    arrows(v.begin(), v.end(), NodePtr());
    ck(c.size() == p.size() && c.empty() == p.empty(), "size of vector");
    for (size_t i = 0; i < p.size(); ++i) {
        Node q = v[i];
        ck(nptr(q) == p[i] && nptr(c[i]) == p[i] && nptr(*c.at(i)) == p[i] && nptr((*v.at(i)).get()) == p[i] && nptr(v.at(i)->get()) == p[i] &&
               c.at(i)->to_string() == q.to_string(),
           "elements of vector");
    }
    std::vector<Node> w(c.begin(), c.end());
    for (auto const &z : w) {
        r.append(z);
    }
    return r;
}
void nv_insert(NV &x, ptrdiff_t i, Node const &n) {
    auto it = x.v.insert(x.v.begin() + i, n);
    ck(it - x.v.begin() == i && nptr((*it).get()) == nptr(n), "insert");
}
void nv_erase(NV &x, ptrdiff_t i) {
    auto it = x.v.erase(x.v.begin() + i);
    ck(it - x.v.begin() == i, "erase");
}
void nv_set(NV &x, ptrdiff_t i, Node const &n, int how) {
    switch (how % 5) {
        case 0: {
            x.v.set(x.v.begin() + i, n);
            break;
        }
        case 1: {
            x.v[i] = n;
            break;
        }
        case 2: {
            *(x.v.begin() + i) = n;
            break;
        }
        case 3: {
            *x.v.at(i) = n;
            break;
        }
        default: {
            auto r = x.v[i];
            ck(&(r = n) == &r, "assignment");
        }
    }
}
// assigns one element to another
void nv_move(NV &x, ptrdiff_t i, NV &z, ptrdiff_t j, int how) {
    switch (how % 5) {
        case 0: {
            x.v[i] = z.v[j];
            break;
        }
        case 1: {
            auto const &c = z.v;
            x.v[i] = c[j];
            break;
        }
        case 2: {
            *(x.v.begin() + i) = *(z.v.begin() + j);
            break;
        }
        case 3: {
            auto r = z.v[j];
            x.v[i] = r;
            break;
        }
        default: {
            auto r = x.v[i];
            auto q = z.v[j];
            r = std::move(q);
        }
    }
}
void nv_append(NV &x, bp::object o) {
    auto w = vec<Node>(o);
    std::copy(w.begin(), w.end(), std::back_inserter(x.v));
}
void nv_push(NV &x, Node const &n) { x.v.push_back(n); }
void nv_pop(NV &x) { x.v.pop_back(); }
void nv_clear(NV &x) { x.v.clear(); }
Node nv_ast(NV &x) {
    auto const &c = x.v;
    ck(nptr(c.ast()) == nptr(x.v.ast()), "ast");
    return x.v.ast();
}
NV nv_copy(NV const &x) {
    NodeVector a{x.v};
    NodeVector b{std::move(a)};
    a = b;
    b = std::move(a);
    return NV{b};
}

bp::list sv_list(SV &x) {
    auto &v = x.v;
    auto const &c = x.v;
    auto p = contract(c.begin(), c.end(), Text());
    ck(p == contract(v.begin(), v.end(), Text()), "iterators");
    arrows(c.begin(), c.end(), Text());
    arrows(v.begin(), v.end(), Text());
    ck(c.size() == p.size() && c.empty() == p.empty(), "size of vector");
    for (size_t i = 0; i < p.size(); ++i) {
        char const *q = v[i];
        ck(q == p[i] && c[i] == p[i] && *c.at(i) == p[i] && (*v.at(i)).get() == p[i] && v.at(i)->get() == p[i], "elements of vector");
    }
    std::vector<std::string> w(c.begin(), c.end());
    return list(w);
}
void sv_insert(SV &x, ptrdiff_t i, std::string const &s) {
    auto it = x.v.insert(x.v.begin() + i, s.c_str());
    ck(it - x.v.begin() == i && (*it).get() == s, "insert");
}
void sv_erase(SV &x, ptrdiff_t i) {
    auto it = x.v.erase(x.v.begin() + i);
    ck(it - x.v.begin() == i, "erase");
}
void sv_set(SV &x, ptrdiff_t i, std::string const &s, int how) {
    switch (how % 4) {
        case 0: {
            x.v.set(x.v.begin() + i, s.c_str());
            break;
        }
        case 1: {
            x.v[i] = s.c_str();
            break;
        }
        case 2: {
            *(x.v.begin() + i) = s.c_str();
            break;
        }
        default: {
            *x.v.at(i) = s.c_str();
        }
    }
}
void sv_move(SV &x, ptrdiff_t i, SV &z, ptrdiff_t j, int how) {
    switch (how % 4) {
        case 0: {
            x.v[i] = z.v[j];
            break;
        }
        case 1: {
            auto const &c = z.v;
            x.v[i] = c[j];
            break;
        }
        case 2: {
            *(x.v.begin() + i) = *(z.v.begin() + j);
            break;
        }
        default: {
            auto r = z.v[j];
            x.v[i] = r;
        }
    }
}
void sv_append(SV &x, bp::object o) {
    auto w = strs(o);
    auto c = cstrs(w);
    std::copy(c.begin(), c.end(), std::back_inserter(x.v));
}
void sv_push(SV &x, std::string const &s) { x.v.push_back(s.c_str()); }
void sv_pop(SV &x) { x.v.pop_back(); }
void sv_clear(SV &x) { x.v.clear(); }
Node sv_ast(SV &x) {
    auto const &c = x.v;
    ck(nptr(c.ast()) == nptr(x.v.ast()), "ast");
    return x.v.ast();
}
SV sv_copy(SV const &x) {
    StringVector a{x.v};
    StringVector b{std::move(a)};
    a = b;
    b = std::move(a);
    return SV{b};
}

// ---------------------------------------------------------------- parsing and adding

Control *ctl_of(bp::object c) { return c.is_none() ? nullptr : &control(bp::extract<Ctl &>(c)()); }

void parse(std::string const &text, bp::object cb, bp::object ctl, bp::object log, unsigned limit, int alt) {
    auto *c = ctl_of(ctl);
    auto f = [&](Node const &n) { py([&] { cb(n); }); };
    NoGil g;
    if (log.is_none() && limit == 20) {
        c ? parse_string(text.c_str(), f, *c) : parse_string(text.c_str(), f);
    } else if (alt % 2 != 0) {
        auto l = logger(log);
        c ? parse_string(text.c_str(), f, *c, l, limit) : parse_string(text.c_str(), f, l, limit);
    } else {
        auto h = [&](Node n) { f(n); };
        c ? parse_string(text.c_str(), h, *c, logger(log), limit) : parse_string(text.c_str(), h, logger(log), limit);
    }
}
void parsef(bp::object files, bp::object cb, bp::object ctl, bp::object log, unsigned limit, int alt) {
    auto *c = ctl_of(ctl);
    auto s = strs(files);
    auto fs = cstrs(s);
    auto f = [&](Node const &n) { py([&] { cb(n); }); };
    NoGil g;
    if (log.is_none() && limit == 20) {
        c ? parse_files(fs, f, *c) : parse_files(fs, f);
    } else {
        c ? parse_files(fs, f, *c, logger(log), limit) : parse_files(fs, f, logger(log), limit);
    }
}

struct Builder {
    std::unique_ptr<ProgramBuilder> own;
    ProgramBuilder *b;
};
Builder *builder(Ctl &c, int alt) {
    auto r = std::make_unique<Builder>();
    if (alt % 2 != 0) {
        ProgramBuilder x{control(c)};
        ProgramBuilder y{std::move(x)};
        r->own = std::make_unique<ProgramBuilder>(std::move(y));
        ck(x.to_c() == nullptr && y.to_c() == nullptr, "moved from builder");
    } else {
        r->own = std::make_unique<ProgramBuilder>(control(c));
    }
    r->b = r->own.get();
    return r.release();
}
void b_add(Builder &b, Node const &n) { b.b->add(n); }
void b_close(Builder &b) {
    b.b->close();
    b.b->close();
}
void with_builder_(Ctl &c, bp::object f) {
    try {
        with_builder(control(c), [&](ProgramBuilder &b) {
            Builder x{nullptr, &b};
            f(boost::ref(x));
        });
    } catch (bp::error_already_set const &) {
        throw_cpp();
    }
}

// ---------------------------------------------------------------- optionals and variants

// a value that knows how many of its kind exist
struct Counted {
    Counted() : Counted(0) {}
    Counted(int v) : v(v) { ++alive; }
    Counted(int a, int b) : Counted(a + b) {}
    Counted(Counted const &o) : v(o.v) {
        ck(o.ok == 77, "copy of a destroyed value");
        ++alive;
    }
    Counted(Counted &&o) noexcept : v(o.v) {
        o.v = -1;
        ++alive;
    }
    Counted &operator=(Counted const &o) = default;
    ~Counted() {
        ok = 0;
        --alive;
    }
    int v;
    int ok = 77;
    static int alive;
};
int Counted::alive = 0;
std::ostream &operator<<(std::ostream &out, Counted const &c) { return out << "C" << c.v; }

using Opt = Optional<Counted>;
struct Rec;
using RecV = Variant<int, std::string, Counted, std::vector<int>>;

bp::object show_opt(Opt const &o) {
    ck(static_cast<bool>(o) == (o.get() != nullptr), "optional");
    if (!o) {
        return bp::object();
    }
    ck(o->v == (*o).v && o.get()->v == o->v && o->ok == 77, "value of optional");
    return bp::object(o->v);
}

bp::list optionals(bp::object ops) {
    int before = Counted::alive;
    bp::list r;
    {
        Opt x[3];
        for (bp::ssize_t i = 0, m = bp::len(ops); i != m; ++i) {
            std::string op = bp::extract<std::string>(ops[i][0]);
            int a = bp::extract<int>(ops[i][1]), b = bp::extract<int>(ops[i][2]), v = bp::extract<int>(ops[i][3]);
            Opt const &cb = x[b];
            if (op == "copy") {
                x[a] = cb;
            } else if (op == "copy2") {
                Opt y{cb};
                x[a] = y;
            } else if (op == "copy3") {
                Opt y{x[b]};
                x[a] = std::move(y);
                ck(!y, "moved from optional");
            } else if (op == "move") {
                x[a] = std::move(x[b]);
            } else if (op == "move2") {
                Opt y{std::move(x[b])};
                ck(!x[b], "moved from optional");
                x[a] = std::move(y);
            } else if (op == "value") {
                Counted const c{v};
                x[a] = c;
            } else if (op == "value2") {
                Counted c{v};
                x[a] = c;
                ck(c.v == v, "assignment");
            } else if (op == "value3") {
                x[a] = Counted{v};
            } else if (op == "value4") {
                x[a] = Opt{v, 1};
            } else if (op == "value5") {
                Counted const c{v};
                x[a] = Opt{c};
            } else if (op == "emplace") {
                x[a].emplace(v, 2);
            } else if (op == "alias") {
                if (x[a]) {
                    x[a] = static_cast<Counted const &>(*x[a]);
                    x[a] = *x[a];
                    x[a].emplace(*x[a]);
                }
            } else if (op == "clear") {
                x[a].clear();
            } else if (op == "write") {
                if (x[a]) {
                    x[a]->v = v;
                    (*x[a]).v += 1;
                }
            } else if (op == "take") {
                if (x[a]) {
                    Counted c = *std::move(x[a]);
                    c = *static_cast<Opt const &&>(x[a]);
                    x[a].clear();
                }
            } else if (op == "swap") {
                std::swap(x[a], x[b]);
            }
            bp::list s;
            for (auto &y : x) {
                s.append(show_opt(y));
            }
            s.append(Counted::alive - before);
            r.append(s);
        }
    }
    r.append(Counted::alive - before);
    return r;
}

struct Vis {
    std::string visit(int &x) { return "int" + std::to_string(x); }
    std::string visit(std::string &x) { return "str" + x; }
    std::string visit(Counted &x) { return "cnt" + std::to_string(x.v); }
    std::string visit(std::vector<int> &x) { return "vec" + std::to_string(x.size()); }
};
struct CVis {
    std::string visit(int const &x, std::string const &p) { return p + "int" + std::to_string(x); }
    std::string visit(std::string const &x, std::string const &p) { return p + "str" + x; }
    std::string visit(Counted const &x, std::string const &p) { return p + "cnt" + std::to_string(x.v); }
    std::string visit(std::vector<int> const &x, std::string const &p) { return p + "vec" + std::to_string(x.size()); }
};

template <class T> bool is_or_cast(RecV const &v) {
    if (v.is<T>()) {
        return true;
    }
    try {
        v.get<T>();
    } catch (std::bad_cast const &) {
        return false;
    }
    throw Bad{"no bad_cast"};
}

std::string show_var(RecV &v) {
    RecV const &c = v;
    int n = is_or_cast<int>(c) + is_or_cast<std::string>(c) + is_or_cast<Counted>(c) + is_or_cast<std::vector<int>>(c);
    ck(n == 1, "a variant has exactly one type");
    auto s = v.accept(Vis());
    ck("_" + s == c.accept(CVis(), std::string("_")), "visitors");
    return s;
}

using PV = Variant<int, std::string, Counted>;

bp::list variants(bp::object ops) {
    int before = Counted::alive;
    bp::list r;
    {
        RecV x[3] = {RecV{0}, RecV{std::string("s")}, RecV{Counted{1}}};
        for (bp::ssize_t i = 0, m = bp::len(ops); i != m; ++i) {
            std::string op = bp::extract<std::string>(ops[i][0]);
            int a = bp::extract<int>(ops[i][1]), b = bp::extract<int>(ops[i][2]), v = bp::extract<int>(ops[i][3]);
            RecV const &cb = x[b];
            if (op == "copy") {
                x[a] = cb;
            } else if (op == "copy2") {
                RecV y{cb};
                x[a] = std::move(y);
            } else if (op == "move" && a != b) {
                x[a] = std::move(x[b]);
                x[b] = 0;
            } else if (op == "move2" && a != b) {
                RecV y{std::move(x[b])};
                x[b] = 0;
                x[a] = std::move(y);
            } else if (op == "int") {
                x[a] = v;
            } else if (op == "int2") {
                int const c = v;
                x[a] = c;
            } else if (op == "str") {
                x[a] = std::to_string(v);
            } else if (op == "str2") {
                std::string c = std::to_string(v);
                x[a] = c;
                ck(c == std::to_string(v), "assignment");
            } else if (op == "str3") {
                std::string const c = std::to_string(v);
                x[a] = RecV{c};
            } else if (op == "cnt") {
                x[a] = Counted{v};
            } else if (op == "cnt2") {
                x[a].emplace<Counted>(v, 1);
            } else if (op == "cnt3") {
                x[a] = RecV::make<Counted>(v, 2);
            } else if (op == "vec") {
                x[a].emplace<std::vector<int>>(v, 3);
                ck(x[a].get<std::vector<int>>() == std::vector<int>({v, 3}), "emplace");
            } else if (op == "vec2") {
                x[a] = std::vector<int>(static_cast<size_t>(v + 10), 3);
                ck(x[a].get<std::vector<int>>() == std::vector<int>(static_cast<size_t>(v + 10), 3), "vector");
            } else if (op == "swap") {
                x[a].swap(x[b]);
            } else if (op == "write") {
                if (x[a].is<int>()) {
                    x[a].get<int>() += v;
                } else if (x[a].is<Counted>()) {
                    x[a].get<Counted>().v += v;
                } else if (x[a].is<std::string>()) {
                    x[a].get<std::string>() += "w";
                }
            } else if (op == "self") {
                x[a] = static_cast<RecV const &>(x[a]);
            }
            bp::list s;
            for (auto &y : x) {
                s.append(show_var(y));
                if (!y.is<std::vector<int>>()) {
                    PV p = y.is<int>() ? PV{y.get<int>()} : y.is<std::string>() ? PV{y.get<std::string>()} : PV{y.get<Counted>()};
                    s.append(show(p));
                }
            }
            s.append(Counted::alive - before);
            r.append(s);
        }
    }
    r.append(Counted::alive - before);
    return r;
}

} // namespace

void export_ast() {
    using namespace bp;
    class_<Node>("Node", no_init)
        .add_property("type", +[](Node const &n) { return static_cast<int>(n.type()); })
        .add_property("ptr", nptr)
        .add_property("hash", &Node::hash)
        .def("__str__", nstr)
        .def("copy", &Node::copy)
        .def("deep_copy", &Node::deep_copy)
        .def("moved", nmoved)
        .def("get", nget)
        .def("get_as", nget_as)
        .def("set", nset)
        .def("unpool", nunpool)
        .def("visit", nvisit)
        .def("visit_ast", nvisit_ast)
        .def("transform_ast", ntransform);
    def("node_rel", nrel);
    def("make_node", make);
    class_<NV>("NodeVector", no_init)
        .def("list", nv_list)
        .def("insert", nv_insert)
        .def("erase", nv_erase)
        .def("set", nv_set)
        .def("move", nv_move)
        .def("append", nv_append)
        .def("push", nv_push)
        .def("pop", nv_pop)
        .def("clear", nv_clear)
        .def("ast", nv_ast)
        .def("copied", nv_copy)
        .def("__len__", +[](NV &x) { return x.v.size(); });
    class_<SV>("StringVector", no_init)
        .def("list", sv_list)
        .def("insert", sv_insert)
        .def("erase", sv_erase)
        .def("set", sv_set)
        .def("move", sv_move)
        .def("append", sv_append)
        .def("push", sv_push)
        .def("pop", sv_pop)
        .def("clear", sv_clear)
        .def("ast", sv_ast)
        .def("copied", sv_copy)
        .def("__len__", +[](SV &x) { return x.v.size(); });
    class_<Builder, boost::noncopyable>("ProgramBuilder", no_init).def("add", b_add).def("close", b_close);
    def("builder", builder, return_value_policy<manage_new_object>());
    def("with_builder", with_builder_);
    def("parse_string", parse);
    def("parse_files", parsef);
    def("optionals", optionals);
    def("variants", variants);
}
