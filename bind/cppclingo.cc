#include "cppclingo.hh"
#include <array>
#include <boost/ref.hpp>
#include <cstring>
#include <limits>
#include <list>
#include <set>
#include <memory>

// ---------------------------------------------------------------- exceptions

static PyObject *cpp_error;
static std::vector<std::array<PyObject *, 3>> pending;

void throw_cpp() {
    PyObject *t = nullptr, *v = nullptr, *tb = nullptr;
    PyErr_Fetch(&t, &v, &tb);
    PyErr_NormalizeException(&t, &v, &tb);
    if (PyErr_GivenExceptionMatches(t, cpp_error)) {
        std::string kind, msg;
        int payload = 0;
        {
            bp::object e{bp::handle<>(v)};
            kind = bp::extract<std::string>(e.attr("kind"))();
            msg = bp::extract<std::string>(e.attr("msg"))();
            payload = bp::extract<int>(e.attr("payload"))();
        }
        Py_XDECREF(t);
        Py_XDECREF(tb);
        if (kind == "runtime_error") {
            throw std::runtime_error(msg);
        }
        if (kind == "range_error") {
            throw std::range_error(msg);
        }
        if (kind == "logic_error") {
            throw std::logic_error(msg);
        }
        if (kind == "out_of_range") {
            throw std::out_of_range(msg);
        }
        if (kind == "bad_alloc") {
            throw std::bad_alloc();
        }
        if (kind == "UserError") {
            throw UserError(msg.c_str(), payload);
        }
        if (kind == "PlainError") {
            throw PlainError(msg);
        }
        if (kind == "int") {
            throw payload;
        }
        throw msg;
    }
    pending.push_back({t, v, tb});
    throw PyExc{pending.size() - 1};
}

static void raise(char const *kind, std::string const &msg, int payload) {
    bp::object text{bp::handle<>(PyUnicode_DecodeUTF8(msg.data(), static_cast<Py_ssize_t>(msg.size()), "surrogateescape"))};
    bp::object o{bp::handle<>(PyObject_CallFunctionObjArgs(cpp_error, text.ptr(), nullptr))};
    o.attr("kind") = kind;
    o.attr("msg") = text;
    o.attr("payload") = payload;
    PyErr_SetObject(cpp_error, o.ptr());
}

static std::string type_name(std::exception const &e) {
    int st = 0;
    char *p = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = st == 0 ? p : typeid(e).name();
    free(p);
    return r.compare(0, 5, "std::") == 0 ? r.substr(5) : r;
}

static void tr_std(std::exception const &e) {
    auto *u = dynamic_cast<UserError const *>(&e);
    raise(type_name(e).c_str(), e.what(), u ? u->payload : 0);
}
static void tr_int(int const &i) { raise("int", "", i); }
static void tr_str(std::string const &s) { raise("string", s, 0); }
static void tr_py(PyExc const &e) {
    auto &p = pending[e.index];
    for (auto *x : p) {
        Py_XINCREF(x);
    }
    PyErr_Restore(p[0], p[1], p[2]);
}
static void tr_bad(Bad const &e) { PyErr_SetString(PyExc_AssertionError, e.msg.c_str()); }

std::string noexcept_error;
static std::string take_error() {
    auto r = noexcept_error;
    noexcept_error.clear();
    return r;
}

Logger logger(bp::object o) {
    if (o.is_none()) {
        return nullptr;
    }
    // the object lives as long as the module
    auto *p = new bp::object(o);
    return [p](WarningCode code, char const *msg) {
        py([&] { (*p)(static_cast<int>(code), show(code), std::string(msg)); });
    };
}

// ---------------------------------------------------------------- symbols

static bp::list sargs(Symbol s) { return span(s.arguments()); }
static bp::object fun(std::string const &name, bp::object a, bool pos, int alt) {
    auto v = vec<Symbol>(a);
    switch (v.empty() ? alt % 3 : 0) {
        case 1: {
            return bp::object(pos ? Id(name.c_str()) : Id(name.c_str(), pos));
        }
        case 2: {
            return bp::object(Function(name.c_str(), {}, pos));
        }
    }
    if (pos) {
        return bp::object(Function(name.c_str(), v));
    }
    return bp::object(Function(name.c_str(), SymbolSpan{v.data(), v.size()}, pos));
}
static Symbol string(std::string const &s) { return String(s.c_str()); }
static std::string sname(Symbol s) { return s.name(); }
static std::string sstring(Symbol s) { return s.string(); }
static bool smatch(Symbol s, std::string const &n, unsigned a) { return s.match(n.c_str(), a); }
template <class T> bp::tuple rel(T a, T b) {
    return bp::make_tuple(a == b, a != b, a < b, a <= b, a > b, a >= b);
}
template <class T> size_t stdhash(T a) {
    size_t h = std::hash<T>()(a);
    ck(h == a.hash(), "std::hash");
    return h;
}
static Symbol pterm(std::string const &t, bp::object log, unsigned limit) {
    if (log.is_none() && limit == 20) {
        return parse_term(t.c_str());
    }
    return parse_term(t.c_str(), logger(log), limit);
}
static Signature *mksig(std::string const &n, unsigned a, bool p) { return p ? new Signature(n.c_str(), a) : new Signature(n.c_str(), a, p); }
static std::string gname(Signature s) { return s.name(); }
static bp::list syms_rel(bp::object a, bp::object b) {
    // relations between literals over symbols
    bp::list r;
    auto x = slvec(a), y = slvec(b);
    for (size_t i = 0; i < x.size(); ++i) {
        ck(x[i].is_positive() != x[i].is_negative(), "sign");
        r.append(bp::make_tuple(rel(x[i], y[i]), show(x[i]), x[i].symbol()));
    }
    return r;
}
static std::string span_show(bp::object a) {
    auto v = vec<Symbol>(a);
    SymbolSpan s{v};
    ck(s == SymbolSpan(v.data(), v.size()), "equal spans");
    ck(s.data() == v.data() || v.empty(), "data");
    return show(s);
}

// ---------------------------------------------------------------- inspection

static bp::list sigs(SymbolicAtoms const &a) {
    bp::list r;
    for (auto &s : a.signatures()) {
        ck(s.positive() != s.negative(), "sign of signature");
        r.append(bp::make_tuple(std::string(s.name()), s.arity(), s.positive()));
    }
    return r;
}
static bp::object atom(SymbolicAtom const &a) {
    auto s = a.symbol();
    std::string n = s.name();
    auto m = s.arguments().size();
    ck(a.match(n.c_str(), m) && !a.match(n.c_str(), m + 1) && !a.match((n + "x").c_str(), m), "match");
    return bp::make_tuple(s, a.literal(), a.is_fact(), a.is_external());
}
static bp::list atoms(SymbolicAtoms const &a, bp::object sig, int alt) {
    bp::list r;
    auto it = a.end();
    auto ie = a.end();
    ck(it == ie && !(it != ie) && !it, "end of symbolic atoms");
    if (sig.is_none()) {
        it = a.begin();
    } else {
        Signature s{bp::extract<std::string>(sig[0])().c_str(), bp::extract<unsigned>(sig[1])(), bp::extract<bool>(sig[2])()};
        it = a.begin(s);
    }
    for (; it != ie;) {
        ck(static_cast<bool>(it) && !(it == ie), "valid iterator");
        ck(it == it, "reflexive");
        ck(it->symbol() == (*it).symbol() && it->literal() == (*it).literal(), "arrow");
        r.append(atom(*it));
        if (alt % 2 != 0) {
            ++it;
        } else {
            auto o = it++;
            ck(o != it && o.to_c() != it.to_c(), "increment");
        }
    }
    if (sig.is_none()) {
        ck(a.length() == static_cast<size_t>(bp::len(r)), "number of atoms");
    }
    return r;
}
static bp::object find(SymbolicAtoms const &a, Symbol s) {
    auto it = a.find(s);
    if (it == a.end()) {
        ck(!it, "missing atom");
        return bp::object();
    }
    ck(a[s].symbol() == it->symbol() && a[s].literal() == it->literal(), "lookup");
    return atom(*it);
}

static bp::dict term(TheoryTerm t) {
    bp::dict d;
    auto ty = t.type();
    static char const *names[] = {"Tuple", "List", "Set", "Function", "Number", "Symbol"};
    d["type"] = std::string(names[static_cast<int>(ty)]);
    d["str"] = t.to_string();
    ck(t.to_string() == show(t), "printing terms");
    d["hash"] = t.to_c();
    if (ty == TheoryTermType::Number) {
        d["number"] = t.number();
    }
    if (ty == TheoryTermType::Symbol || ty == TheoryTermType::Function) {
        d["name"] = std::string(t.name());
    }
    if (ty != TheoryTermType::Symbol && ty != TheoryTermType::Number) {
        bp::list l;
        auto a = t.arguments();
        contract(a.begin(), a.end(), Id_());
        arrows(a.begin(), a.end(), Id_());
        ck(a.size() == static_cast<size_t>(a.end() - a.begin()), "arguments");
        size_t i = 0;
        for (auto x : a) {
            ck(a[i].to_c() == x.to_c() && (a.begin() + i)->to_string() == x.to_string(), "arguments");
            ++i;
            l.append(term(x));
        }
        d["args"] = l;
    }
    return d;
}
static bp::list terms(TheoryTermSpan a) {
    bp::list l;
    contract(a.begin(), a.end(), Id_());
    arrows(a.begin(), a.end(), Id_());
    size_t i = 0;
    for (auto x : a) {
        ck(a[i++].to_c() == x.to_c(), "tuple");
        l.append(term(x));
    }
    ck(a.size() == i && a.empty() == (i == 0), "size of tuple");
    if (i > 0) {
        ck(a.front().to_c() == a[0].to_c() && a.back().to_c() == a[i - 1].to_c(), "ends of tuple");
    }
    return l;
}
static bp::list theory(TheoryAtoms const &atoms) {
    bp::list r;
    auto v = contract(atoms.begin(), atoms.end(), Id_());
    arrows(atoms.begin(), atoms.end(), Id_());
    ck(atoms.size() == v.size(), "size");
    for (auto a : atoms) {
        bp::dict d;
        d["term"] = term(a.term());
        bp::list es;
        auto elems = a.elements();
        contract(elems.begin(), elems.end(), Id_());
        arrows(elems.begin(), elems.end(), Id_());
        for (auto e : elems) {
            bp::dict x;
            x["terms"] = terms(e.tuple());
            x["cond"] = span(e.condition());
            x["hash"] = e.to_c();
            x["cid"] = e.condition_id();
            x["str"] = e.to_string();
            ck(e.to_string() == show(e), "printing elements");
            es.append(x);
        }
        d["elems"] = es;
        d["lit"] = a.literal();
        d["hash"] = a.to_c();
        d["str"] = a.to_string();
        ck(a.to_string() == show(a), "printing atoms");
        if (a.has_guard()) {
            auto g = a.guard();
            bp::list l;
            l.append(std::string(g.first));
            l.append(term(g.second));
            d["guard"] = l;
        } else {
            d["guard"] = bp::object();
        }
        r.append(d);
    }
    return r;
}

// ---------------------------------------------------------------- assignment

static bp::tuple trail(Assignment const &a) {
    auto t = a.trail();
    auto v = contract(t.begin(), t.end(), Self());
    ck(t.size() == v.size(), "size of trail");
    bp::list levels, decisions;
    for (size_t i = 0; i < v.size(); ++i) {
        ck(t[i] == v[i] && t.at(i) == v[i], "trail index");
    }
    for (unsigned l = 0; l <= a.decision_level(); ++l) {
        auto b = t.begin_offset(l), e = t.end_offset(l);
        levels.append(bp::make_tuple(b, e));
        auto w = contract(t.begin(l), t.end(l), Self());
        ck(w == std::vector<literal_t>(v.begin() + b, v.begin() + e), "level of trail");
    }
    return bp::make_tuple(list(v), levels);
}
static bp::list assignment(Assignment const &a) {
    auto v = contract(a.begin(), a.end(), Self());
    ck(a.size() == v.size(), "size of assignment");
    for (size_t i = 0; i < v.size(); ++i) {
        ck(a[i] == v[i] && a.at(i) == v[i], "assignment index");
    }
    return list(v);
}
static bp::object value(Assignment const &a, literal_t l) {
    auto v = a.truth_value(l);
    ck(show(v) == (v == TruthValue::Free ? "Free" : v == TruthValue::True ? "True" : "False"), "printing truth values");
    return v == TruthValue::Free ? bp::object() : bp::object(v == TruthValue::True);
}

// ---------------------------------------------------------------- propagators

using PInit = PropagateInit;
static void add_watch(PInit &i, literal_t l) { i.add_watch(l); }
static void add_watch_t(PInit &i, literal_t l, id_t t) { i.add_watch(l, t); }
static void remove_watch(PInit &i, literal_t l) { i.remove_watch(l); }
static void remove_watch_t(PInit &i, literal_t l, id_t t) { i.remove_watch(l, t); }
static literal_t add_literal(PInit &i, bp::object freeze) { return freeze.is_none() ? i.add_literal() : i.add_literal(bp::extract<bool>(freeze)()); }
static bool iclause(PInit &i, bp::object c) { return i.add_clause(vec<literal_t>(c)); }
static bool iweight(PInit &i, literal_t l, bp::object ls, int bound, int type, bool eq, bool deflt) {
    auto v = wvec(ls);
    auto t = type < 0 ? WeightConstraintType::LeftImplication : type > 0 ? WeightConstraintType::RightImplication : WeightConstraintType::Equivalence;
    return deflt ? i.add_weight_constraint(l, v, bound, t) : i.add_weight_constraint(l, v, bound, t, eq);
}
static void imin(PInit &i, literal_t l, int w, bp::object p) {
    if (p.is_none()) {
        i.add_minimize(l, w);
    } else {
        i.add_minimize(l, w, bp::extract<int>(p)());
    }
}
static int get_check(PInit &i) { return static_cast<int>(i.get_check_mode()); }
static int get_undo(PInit &i) { return static_cast<int>(i.get_undo_mode()); }
static void set_check(PInit &i, std::string const &n) {
    i.set_check_mode(n == "Off"        ? PropagatorCheckMode::None
                     : n == "Total"    ? PropagatorCheckMode::Total
                     : n == "Fixpoint" ? PropagatorCheckMode::Partial
                                       : PropagatorCheckMode::Both);
}
static void set_undo(PInit &i, std::string const &n) { i.set_undo_mode(n == "Always" ? PropagatorUndoMode::Always : PropagatorUndoMode::Default); }

using PCtl = PropagateControl;
static bool pclause(PCtl &c, bp::object l, bool tag, bool lock) {
    auto v = vec<literal_t>(l);
    // the library releases its lock in the call
    NoGil n;
    if (!tag && !lock) {
        return c.add_clause(v);
    }
    auto t = tag && lock ? ClauseType::VolatileStatic : tag ? ClauseType::Volatile : ClauseType::Static;
    ck(show(t) == (tag && lock ? "VolatileStatic" : tag ? "Volatile" : "Static"), "printing clause types");
    return c.add_clause(v, t);
}
static bool ppropagate(PCtl &c) {
    NoGil n;
    return c.propagate();
}
static literal_t pliteral(PCtl &c) {
    NoGil n;
    return c.add_literal();
}
static void pwatch(PCtl &c, literal_t l) {
    NoGil n;
    c.add_watch(l);
}
static void punwatch(PCtl &c, literal_t l) {
    NoGil n;
    c.remove_watch(l);
}

struct Prop : Heuristic {
    Prop(bp::object o) : o(o), has{has_("init"), has_("propagate"), has_("undo"), has_("check"), has_("decide")} {}
    bool has_(char const *n) { return PyObject_HasAttrString(o.ptr(), n) != 0; }
    void init(PropagateInit &i) override {
        has[0] ? py([&] { o.attr("init")(boost::ref(i)); }) : Heuristic::init(i);
    }
    void propagate(PropagateControl &c, LiteralSpan changes) override {
        has[1] ? py([&] { o.attr("propagate")(boost::ref(c), span(changes)); }) : Heuristic::propagate(c, changes);
    }
    void undo(PropagateControl const &c, LiteralSpan changes) noexcept override {
        has[2] ? nothrow([&] { o.attr("undo")(c.thread_id(), c.assignment(), span(changes)); }) : Heuristic::undo(c, changes);
    }
    void check(PropagateControl &c) override {
        has[3] ? py([&] { o.attr("check")(boost::ref(c)); }) : Heuristic::check(c);
    }
    literal_t decide(id_t t, Assignment const &a, literal_t f) override {
        return has[4] ? py([&]() -> literal_t { return bp::extract<literal_t>(o.attr("decide")(t, a, f))(); }) : Heuristic::decide(t, a, f);
    }
    bp::object o;
    bool has[5];
};

// ---------------------------------------------------------------- observers

static bp::list wlits(WeightedLiteralSpan s) {
    bp::list r;
    struct Conv {
        std::pair<literal_t, weight_t> operator()(WeightedLiteral const &w) const { return {w.literal(), w.weight()}; }
    };
    for (auto &x : contract(s.begin(), s.end(), Conv())) {
        r.append(bp::make_tuple(x.first, x.second));
    }
    ck(static_cast<size_t>(bp::len(r)) == s.size(), "size of weighted literals");
    return r;
}

struct Obs : GroundProgramObserver {
    using G = GroundProgramObserver;
    Obs(bp::object f, bp::object events) : f(f) {
        for (auto &x : strs(events)) {
            ev.insert(x);
        }
    }
    template <class... A> void call(char const *n, A const &...a) {
        py([&] { f(std::string(n), bp::make_tuple(a...)); });
    }
    bool has(char const *n) const { return ev.count(n) > 0; }
    void init_program(bool inc) override { has("init_program") ? call("init_program", inc) : G::init_program(inc); }
    void begin_step() override { has("begin_step") ? call("begin_step") : G::begin_step(); }
    void end_step() override { has("end_step") ? call("end_step") : G::end_step(); }
#define WITH(name, ...) py([&] { f(std::string(name), bp::make_tuple(__VA_ARGS__)); })
    void rule(bool choice, AtomSpan head, LiteralSpan body) override {
        has("rule") ? WITH("rule", choice, span(head), span(body)) : G::rule(choice, head, body);
    }
    void weight_rule(bool choice, AtomSpan head, weight_t lower, WeightedLiteralSpan body) override {
        has("weight_rule") ? WITH("weight_rule", choice, span(head), lower, wlits(body)) : G::weight_rule(choice, head, lower, body);
    }
    void minimize(weight_t priority, WeightedLiteralSpan literals) override {
        has("minimize") ? WITH("minimize", priority, wlits(literals)) : G::minimize(priority, literals);
    }
    void project(AtomSpan atoms) override { has("project") ? WITH("project", span(atoms)) : G::project(atoms); }
    void output_atom(Symbol symbol, atom_t atom) override {
        has("output_atom") ? WITH("output_atom", symbol, atom) : G::output_atom(symbol, atom);
    }
    void output_term(Symbol symbol, LiteralSpan condition) override {
        has("output_term") ? WITH("output_term", symbol, span(condition)) : G::output_term(symbol, condition);
    }
    void external(atom_t atom, ExternalType type) override {
        has("external") ? WITH("external", atom, show(type)) : G::external(atom, type);
    }
    void assume(LiteralSpan literals) override { has("assume") ? WITH("assume", span(literals)) : G::assume(literals); }
    void heuristic(atom_t atom, HeuristicType type, int bias, unsigned priority, LiteralSpan condition) override {
        has("heuristic") ? WITH("heuristic", atom, show(type), bias, priority, span(condition)) : G::heuristic(atom, type, bias, priority, condition);
    }
    void acyc_edge(int u, int v, LiteralSpan condition) override {
        has("acyc_edge") ? WITH("acyc_edge", u, v, span(condition)) : G::acyc_edge(u, v, condition);
    }
    void theory_term_number(id_t id, int number) override {
        has("theory_term_number") ? WITH("theory_term_number", id, number) : G::theory_term_number(id, number);
    }
    void theory_term_string(id_t id, char const *name) override {
        has("theory_term_string") ? WITH("theory_term_string", id, std::string(name)) : G::theory_term_string(id, name);
    }
    void theory_term_compound(id_t id, int name, IdSpan args) override {
        has("theory_term_compound") ? WITH("theory_term_compound", id, name, span(args)) : G::theory_term_compound(id, name, args);
    }
    void theory_element(id_t id, IdSpan terms, LiteralSpan condition) override {
        has("theory_element") ? WITH("theory_element", id, span(terms), span(condition)) : G::theory_element(id, terms, condition);
    }
    void theory_atom(id_t atom, id_t term, IdSpan elements) override {
        has("theory_atom") ? WITH("theory_atom", atom, term, span(elements)) : G::theory_atom(atom, term, elements);
    }
    void theory_atom_with_guard(id_t atom, id_t term, IdSpan elements, id_t op, id_t rhs) override {
        has("theory_atom_with_guard") ? WITH("theory_atom_with_guard", atom, term, span(elements), op, rhs)
                                      : G::theory_atom_with_guard(atom, term, elements, op, rhs);
    }
    bp::object f;
    std::set<std::string> ev;
};

// ---------------------------------------------------------------- models

static Model const &M(PModel const &m) {
    ck(static_cast<bool>(*m.c) && m.c->to_c() != nullptr, "invalid model");
    return *m.c;
}
static bp::object msyms(PModel const &m, int show) {
    if (show == 2) {
        return list(M(m).symbols());
    }
    return list(M(m).symbols(show == 30 ? ShowType{ShowType::All} : ShowType{static_cast<unsigned>(show)}));
}
static bool mcontains(PModel const &m, Symbol s) { return M(m).contains(s); }
static bool mtrue(PModel const &m, literal_t l) { return M(m).is_true(l); }
static bp::object mcons(PModel const &m, literal_t l) {
    auto c = M(m).is_consequence(l);
    return c == ConsequenceType::Unknown ? bp::object() : bp::object(c == ConsequenceType::True);
}
static bool mproven(PModel const &m) { return M(m).optimality_proven(); }
static bp::list mcost(PModel const &m) { return list(M(m).cost()); }
static bp::list mprio(PModel const &m) { return list(M(m).priorities()); }
static void mextend(PModel const &m, bp::object s) { m.m->extend(vec<Symbol>(s)); }
static SolveControl mcontext(PModel const &m) { return M(m).context(); }
static int mtype(PModel const &m) { return static_cast<int>(M(m).type()); }
static id_t mthread(PModel const &m) { return M(m).thread_id(); }
static uint64_t mnumber(PModel const &m) { return M(m).number(); }
static std::string mstr(PModel const &m) { return show(M(m)); }
static void sclause(SolveControl &c, bp::object l, bool symbolic) {
    if (symbolic) {
        auto v = slvec(l);
        c.add_clause(SymbolicLiteralSpan{v});
    } else {
        auto v = vec<literal_t>(l);
        c.add_clause(LiteralSpan{v});
    }
}

static bp::tuple result(SolveResult r) {
    ck(r == r && !(r != r) && r != SolveResult{r.to_c() ^ 8U} && SolveResult{} == SolveResult{0}, "comparing results");
    return bp::make_tuple(r.to_c(), r.is_satisfiable(), r.is_unsatisfiable(), r.is_unknown(), r.is_exhausted(), r.is_interrupted(), show(r));
}

// ---------------------------------------------------------------- statistics

template <class S> bp::object stats(S s) {
    switch (s.type()) {
        case StatisticsType::Value: {
            double d = s;
            double e = s.value();
            ck(std::memcmp(&d, &e, sizeof(d)) == 0, "conversion to double");
            return bp::object(d);
        }
        case StatisticsType::Array: {
            bp::list l;
            size_t i = 0;
            struct Conv {
                int operator()(S x) const { return static_cast<int>(x.type()); }
            };
            contract(s.begin(), s.end(), Conv());
            arrows(s.begin(), s.end(), Conv());
            for (auto x : s) {
                l.append(stats(x));
                ck(s[i].type() == x.type() && s.at(i).type() == x.type(), "index");
                ++i;
            }
            ck(s.size() == i, "size of array");
            return l;
        }
        default: {
            bp::dict d;
            for (auto &k : range(s.keys(), Str())) {
                ck(s.has_subkey(k.c_str()) && !s.has_subkey((k + "?").c_str()), "has_subkey");
                ck(s.at(k.c_str()).type() == s[k.c_str()].type(), "at");
                d[k] = stats(s[k.c_str()]);
            }
            arrows(s.keys().begin(), s.keys().end(), Str());
            return d;
        }
    }
}
using US = UserStatistics;
static StatisticsType stype(int t) { return static_cast<StatisticsType>(t); }
static US sat(US const &s, std::string const &k) { return s[k.c_str()]; }
static US sidx(US const &s, size_t i) { return s[i]; }
static bool shas(US const &s, std::string const &k) { return s.has_subkey(k.c_str()); }
static US sadd(US &s, std::string const &k, int t) { return s.add_subkey(k.c_str(), stype(t)); }
static US spush(US &s, int t) { return s.push(stype(t)); }
static void sensure(US &s, size_t n, int t) { s.ensure_size(n, stype(t)); }

// ---------------------------------------------------------------- configuration

static std::vector<std::string> keys(Configuration const &c) {
    auto k = range(c.keys(), Str());
    arrows(c.keys().begin(), c.keys().end(), Str());
    return k;
}
static bp::object cvalue(Configuration &c) {
    if (!c.is_assigned()) {
        return bp::object();
    }
    std::string v = c;
    ck(v == c.value(), "conversion to string");
    return bp::object(v);
}
static bp::object clen(Configuration &c) {
    ck(c.empty() == (c.size() == 0), "empty");
    return bp::object(c.size());
}
static bp::list cwalk(Configuration &c);
static bp::object cwalk1(Configuration c) {
    if (c.is_value()) {
        return cvalue(c);
    }
    return cwalk(c);
}
static bp::list cwalk(Configuration &c) {
    bp::list r;
    if (c.is_array()) {
        struct Conv {
            std::string operator()(Configuration x) const { return x.decription(); }
        };
        auto v = contract(c.begin(), c.end(), Conv());
        arrows(c.begin(), c.end(), Conv());
        ck(v.size() == c.size(), "size");
        bp::list l;
        size_t i = 0;
        for (auto x : c) {
            ck(std::string(c[i].decription()) == c.at(i).decription(), "at");
            l.append(cwalk1(x));
            ++i;
        }
        r.append(l);
    }
    if (c.is_map()) {
        bp::list l;
        for (auto &k : keys(c)) {
            l.append(bp::make_tuple(k, std::string(c[k.c_str()].decription()), cwalk1(c.get(k.c_str()))));
        }
        r.append(l);
    }
    return r;
}
static Configuration cidx(Configuration &c, size_t i) { return c[i]; }
static Configuration csub(Configuration &c, std::string const &k) { return c[k.c_str()]; }
static void cset(Configuration &c, std::string const &k, std::string const &v) { c[k.c_str()] = v.c_str(); }
static std::string cdesc(Configuration &c) { return c.decription(); }

// ---------------------------------------------------------------- control

struct Handler : SolveEventHandler {
    Handler(bp::object o) : o(o), has{has_("on_model"), has_("on_unsat"), has_("on_statistics"), has_("on_finish")} {}
    bool has_(char const *n) { return PyObject_HasAttrString(o.ptr(), n) != 0; }
    bool on_model(Model &m) override {
        return has[0] ? py([&]() -> bool { return bp::extract<bool>(o.attr("on_model")(PModel{&m, &m}))(); }) : SolveEventHandler::on_model(m);
    }
    void on_unsat(Span<int64_t> lower) override {
        has[1] ? py([&] { o.attr("on_unsat")(span(lower)); }) : SolveEventHandler::on_unsat(lower);
    }
    void on_statistics(UserStatistics step, UserStatistics accu) override {
        has[2] ? py([&] { o.attr("on_statistics")(step, accu); }) : SolveEventHandler::on_statistics(step, accu);
    }
    void on_finish(SolveResult r) override {
        has[3] ? py([&] { o.attr("on_finish")(result(r)); }) : SolveEventHandler::on_finish(r);
    }
    bp::object o;
    bool has[4];
};


struct Handle {
    std::unique_ptr<SolveHandle> h;
    ~Handle() {
        if (h) {
            try {
                close();
            } catch (...) {
                (void)h.release();
            }
        }
    }
    void close() {
        NoGil n;
        h->close();
        ck(h->to_c() == nullptr, "closed handle");
    }
};
static void hclose(Handle &h) {
    h.close();
    // closing is idempotent
    h.close();
}
template <class F> bp::object model_of(F f) {
    Model const *m = nullptr;
    {
        NoGil n;
        m = f();
    }
    return m && *m ? bp::object(PModel{m, nullptr}) : bp::object();
}
static bp::object hmodel(Handle &h) { return model_of([&] { return &h.h->model(); }); }
static bp::object hnext(Handle &h) { return model_of([&] { return &h.h->next(); }); }
static bp::object hlast(Handle &h) { return model_of([&] { return h.h->last(); }); }
static bp::list hcore(Handle &h) {
    LiteralSpan s;
    {
        NoGil n;
        s = h.h->core();
    }
    return span(s);
}
static bp::tuple hget(Handle &h) {
    SolveResult r;
    {
        NoGil n;
        r = h.h->get();
    }
    return result(r);
}
static void hresume(Handle &h) {
    NoGil n;
    h.h->resume();
}
static void hcancel(Handle &h) {
    NoGil n;
    h.h->cancel();
}
static bool hwait(Handle &h, bp::object t) {
    double d = t.is_none() ? -1 : bp::extract<double>(t)();
    NoGil n;
    if (t.is_none()) {
        h.h->wait();
        return true;
    }
    return h.h->wait(d);
}
// iteration with the loop in C++: fun is called with every model and returns if to continue
static void hloop(Handle &h, bp::object fun, int style) {
    NoGil n;
    auto call = [&](Model const &m) { return py([&]() -> bool { return bp::extract<bool>(fun(PModel{&m, nullptr}))(); }); };
    if (style % 3 == 0) {
        for (auto &m : *h.h) {
            if (!call(m)) {
                break;
            }
        }
    } else if (style % 3 == 1) {
        for (auto it = begin(*h.h), ie = end(*h.h); it != ie; ++it) {
            ck(it == it && !(it == ie) && ie == ModelIterator(), "comparing model iterators");
            ck(it->to_c() == (*it).to_c(), "arrow");
            if (!call(*it)) {
                break;
            }
        }
    } else {
        for (ModelIterator it{*h.h}; it != ModelIterator{}; it++) {
            if (!call(*it)) {
                break;
            }
        }
    }
}

static void add(Ctl &c, std::string const &name, bp::object params, std::string const &part) {
    auto p = strs(params);
    NoGil n;
    if (p.empty()) {
        c.ctl->add(name.c_str(), {}, part.c_str());
    } else {
        c.ctl->add(name.c_str(), cstrs(p), part.c_str());
    }
}
static void load(Ctl &c, std::string const &file) {
    NoGil n;
    c.ctl->load(file.c_str());
}
static void ground(Ctl &c, bp::object parts, bp::object cb) {
    std::list<std::string> names;
    std::list<SymbolVector> args;
    std::vector<Part> p;
    for (bp::ssize_t i = 0, m = bp::len(parts); i != m; ++i) {
        names.push_back(bp::extract<std::string>(parts[i][0])());
        args.push_back(vec<Symbol>(parts[i][1]));
        p.emplace_back(names.back().c_str(), args.back());
        ck(p.back().name() == names.back() && p.back().params().size() == args.back().size() &&
               std::equal(args.back().begin(), args.back().end(), p.back().params().begin()),
           "program part");
    }
    if (cb.is_none()) {
        NoGil n;
        c.ctl->ground(p);
        return;
    }
    GroundCallback f = [&](Location loc, char const *name, SymbolSpan args, SymbolSpanCallback scb) {
        std::vector<SymbolVector> ret;
        py([&] {
            bp::object r = cb(show(loc), std::string(name), span(args));
            for (bp::ssize_t i = 0, m = bp::len(r); i != m; ++i) {
                ret.push_back(vec<Symbol>(r[i]));
            }
        });
        for (auto &x : ret) {
            scb(x);
        }
    };
    NoGil n;
    c.ctl->ground(p, f);
}
static Handle *solve(Ctl &c, bp::object ass, bool symbolic, bp::object handler, bool async, bool yield, int alt) {
    Handler *h = nullptr;
    if (!handler.is_none()) {
        h = &c.make<Handler>(handler);
    }
    auto ret = std::make_unique<Handle>();
    std::vector<SymbolicLiteral> sl;
    std::vector<literal_t> l;
    if (symbolic) {
        sl = slvec(ass);
    } else {
        l = vec<literal_t>(ass);
    }
    NoGil n;
    if (!symbolic && l.empty() && alt % 2 != 0 && h == nullptr && !async && yield) {
        ret->h = std::make_unique<SolveHandle>(c.ctl->solve());
        return ret.release();
    }
    if (alt % 3 == 0) {
        auto x = symbolic ? c.ctl->solve(SymbolicLiteralSpan{sl}, h, async, yield) : c.ctl->solve(LiteralSpan{l}, h, async, yield);
        SolveHandle y{std::move(x)};
        ret->h = std::make_unique<SolveHandle>();
        *ret->h = std::move(y);
    } else {
        ret->h = std::make_unique<SolveHandle>(symbolic ? c.ctl->solve(SymbolicLiteralSpan{sl}, h, async, yield)
                                                        : c.ctl->solve(LiteralSpan{l}, h, async, yield));
    }
    return ret.release();
}
// the handle is a temporary object or a local variable
static bp::object solve_native(Ctl &c, bp::object handler, bp::object fun, int style) {
    auto &h = c.make<Handler>(handler);
    auto call = [&](Model const &m) { return py([&]() -> bool { return bp::extract<bool>(fun(PModel{&m, nullptr}))(); }); };
    SolveResult r;
    {
        NoGil n;
        switch (style % 5) {
            case 0: {
                r = c.ctl->solve(LiteralSpan{}, &h, false, false).get();
                break;
            }
            case 1: {
                for (auto &m : c.ctl->solve(LiteralSpan{}, &h)) {
                    if (!call(m)) {
                        break;
                    }
                }
                return bp::object();
            }
            case 2: {
                auto x = c.ctl->solve(LiteralSpan{}, &h);
                for (auto &m : x) {
                    if (!call(m)) {
                        break;
                    }
                }
                r = x.get();
                break;
            }
            case 3: {
                auto x = c.ctl->solve(LiteralSpan{}, &h, true, false);
                x.wait();
                r = x.get();
                break;
            }
            default: {
                auto x = c.ctl->solve(LiteralSpan{}, &h, true, true);
                while (auto &m = x.model()) {
                    if (!call(m)) {
                        break;
                    }
                    x.resume();
                }
                x.cancel();
                r = x.get();
                x.close();
            }
        }
    }
    return result(r);
}
static TruthValue truth(bp::object v) { return v.is_none() ? TruthValue::Free : bp::extract<bool>(v)() ? TruthValue::True : TruthValue::False; }
static void assign_lit(Ctl &c, literal_t l, bp::object v) { c.ctl->assign_external(l, truth(v)); }
static void assign_sym(Ctl &c, Symbol s, bp::object v) { c.ctl->assign_external(s, truth(v)); }
static void release_lit(Ctl &c, literal_t l) { c.ctl->release_external(l); }
static void release_sym(Ctl &c, Symbol s) { c.ctl->release_external(s); }
static SymbolicAtoms catoms(Ctl &c) { return c.ctl->symbolic_atoms(); }
static bp::list ctheory(Ctl &c) { return theory(c.ctl->theory_atoms()); }
static bp::list itheory(PInit &i) { return theory(i.theory_atoms()); }
static void propagator(Ctl &c, bp::object o, bool heuristic, bp::object seq) {
    auto &p = c.make<Prop>(o);
    if (heuristic) {
        seq.is_none() ? c.ctl->register_propagator(p) : c.ctl->register_propagator(p, bp::extract<bool>(seq)());
    } else {
        seq.is_none() ? c.ctl->register_propagator(static_cast<Propagator &>(p))
                      : c.ctl->register_propagator(static_cast<Propagator &>(p), bp::extract<bool>(seq)());
    }
}
static void observer(Ctl &c, bp::object f, bp::object events, bp::object replace) {
    auto &o = c.make<Obs>(f, events);
    replace.is_none() ? c.ctl->register_observer(o) : c.ctl->register_observer(o, bp::extract<bool>(replace)());
}
static bp::object get_const(Ctl &c, std::string const &n) { return c.ctl->has_const(n.c_str()) ? bp::object(c.ctl->get_const(n.c_str())) : bp::object(); }
static void interrupt(Ctl &c) { c.ctl->interrupt(); }
static void cleanup(Ctl &c) { c.ctl->cleanup(); }
static bool conflicting(Ctl &c) { return c.ctl->is_conflicting(); }
static bool get_enum(Ctl &c) { return const_cast<Control const &>(*c.ctl).enable_enumeration_assumption(); }
static void set_enum(Ctl &c, bool v) { c.ctl->enable_enumeration_assumption(v); }
static bool get_clean(Ctl &c) { return const_cast<Control const &>(*c.ctl).enable_cleanup(); }
static void set_clean(Ctl &c, bool v) { c.ctl->enable_cleanup(v); }
static Configuration conf(Ctl &c) { return c.ctl->configuration(); }
static bp::object cstats(Ctl &c) { return stats(c.ctl->statistics()); }
static bool facade(Ctl &c) { return c.ctl->claspFacade() != nullptr; }

struct Back {
    std::unique_ptr<Backend> own;
    Backend *b;
};
static Back *backend(Ctl &c, int alt) {
    auto r = std::make_unique<Back>();
    if (alt % 2 != 0) {
        Backend x{c.ctl->backend()};
        Backend y{std::move(x)};
        r->own = std::make_unique<Backend>(std::move(y));
        ck(x.to_c() == nullptr && y.to_c() == nullptr, "moved from backend");
    } else {
        r->own = std::make_unique<Backend>(c.ctl->backend());
    }
    r->b = r->own.get();
    return r.release();
}
static void with_backend(Ctl &c, bp::object f) {
    c.ctl->with_backend([&](Backend &b) {
        Back x{nullptr, &b};
        try {
            f(boost::ref(x));
        } catch (bp::error_already_set const &) {
            throw_cpp();
        }
    });
}
static void bclose(Back &b) {
    b.b->close();
    b.b->close();
}
static void brule(Back &b, bool choice, bp::object h, bp::object body) { b.b->rule(choice, vec<atom_t>(h), vec<literal_t>(body)); }
static void bwrule(Back &b, bool choice, bp::object h, int l, bp::object body) { b.b->weight_rule(choice, vec<atom_t>(h), l, wvec(body)); }
static void bmin(Back &b, int p, bp::object body) { b.b->minimize(p, wvec(body)); }
static void bproj(Back &b, bp::object a) { b.b->project(vec<atom_t>(a)); }
static void bext(Back &b, atom_t a, std::string const &t) {
    b.b->external(a, t == "Free" ? ExternalType::Free : t == "True_" ? ExternalType::True : t == "False_" ? ExternalType::False : ExternalType::Release);
}
static void bassume(Back &b, bp::object l) { b.b->assume(vec<literal_t>(l)); }
static void bheu(Back &b, atom_t a, std::string const &t, int bias, unsigned prio, bp::object c) {
    b.b->heuristic(a,
                   t == "Level"    ? HeuristicType::Level
                   : t == "Sign"   ? HeuristicType::Sign
                   : t == "Factor" ? HeuristicType::Factor
                   : t == "Init"   ? HeuristicType::Init
                   : t == "True_"  ? HeuristicType::True
                                   : HeuristicType::False,
                   bias, prio, vec<literal_t>(c));
}
static void bedge(Back &b, int u, int v, bp::object c) { b.b->acyc_edge(u, v, vec<literal_t>(c)); }
static atom_t batom(Back &b, bp::object s) { return s.is_none() ? b.b->add_atom() : b.b->add_atom(bp::extract<Symbol>(s)()); }
static id_t btnum(Back &b, int n) { return b.b->add_theory_term_number(n); }
static id_t btstr(Back &b, std::string const &s) { return b.b->add_theory_term_string(s.c_str()); }
static id_t btsym(Back &b, Symbol s) { return b.b->add_theory_term_symbol(s); }
static id_t btfun(Back &b, std::string const &s, bp::object a) { return b.b->add_theory_term_function(s.c_str(), vec<id_t>(a)); }
static id_t btseq(Back &b, std::string const &s, bp::object a) {
    return b.b->add_theory_term_sequence(s == "Tuple" ? TheorySequenceType::Tuple : s == "List" ? TheorySequenceType::List : TheorySequenceType::Set,
                                         vec<id_t>(a));
}
static id_t belem(Back &b, bp::object t, bp::object c) { return b.b->add_theory_element(vec<id_t>(t), vec<literal_t>(c)); }
static atom_t btatom(Back &b, id_t t, bp::object e, bp::object a) {
    return a.is_none() ? b.b->theory_atom(t, vec<id_t>(e)) : b.b->theory_atom(bp::extract<id_t>(a)(), t, vec<id_t>(e));
}
static atom_t btgatom(Back &b, id_t t, bp::object e, std::string const &op, id_t rhs, bp::object a) {
    return a.is_none() ? b.b->theory_atom(t, vec<id_t>(e), op.c_str(), rhs)
                       : b.b->theory_atom(bp::extract<id_t>(a)(), t, vec<id_t>(e), op.c_str(), rhs);
}

static bp::list location(std::string f, std::string g, bp::object o) {
    Location l{f.c_str(),
               g.c_str(),
               bp::extract<size_t>(o[0])(),
               bp::extract<size_t>(o[1])(),
               bp::extract<size_t>(o[2])(),
               bp::extract<size_t>(o[3])()};
    bp::list r;
    r.append(show(l));
    r.append(std::string(l.begin_file()));
    r.append(std::string(l.end_file()));
    r.append(l.begin_line());
    r.append(l.end_line());
    r.append(l.begin_column());
    r.append(l.end_column());
    return r;
}
static std::string codes(int e, int w) { return show(static_cast<ErrorCode>(e)) + "|" + show(static_cast<WarningCode>(w)); }
static bp::tuple ver() {
    auto v = version();
    return bp::make_tuple(std::get<0>(v), std::get<1>(v), std::get<2>(v));
}
static bp::object addstr(std::string const &s) {
    char const *a = add_string(s.c_str());
    char const *b = add_string(std::string(s).c_str());
    ck(a == b, "strings are unique");
    return bp::object(std::string(a));
}
static bp::list ints(bp::object o) { return list(vec<std::string>(o)); }

BOOST_PYTHON_MODULE(cppclingo) {
    using namespace bp;
    cpp_error = PyErr_NewException("cppclingo.CppError", PyExc_RuntimeError, nullptr);
    scope().attr("CppError") = object(handle<>(borrowed(cpp_error)));
    object(handle<>(borrowed(cpp_error))).attr("payload") = 0;
    register_exception_translator<std::exception>(tr_std);
    register_exception_translator<int>(tr_int);
    register_exception_translator<std::string>(tr_str);
    register_exception_translator<PyExc>(tr_py);
    register_exception_translator<Bad>(tr_bad);
    def("take_error", take_error);

    class_<Symbol>("Symbol")
        .add_property("number", &Symbol::number)
        .add_property("name", sname)
        .add_property("string", sstring)
        .add_property("positive", &Symbol::is_positive)
        .add_property("negative", &Symbol::is_negative)
        .add_property("arguments", sargs)
        .add_property("type", +[](Symbol s) { return static_cast<int>(s.type()); })
        .add_property("rep", +[](Symbol s) { return s.to_c(); })
        .def("match", smatch)
        .def("__hash__", stdhash<Symbol>)
        .def("__str__", &Symbol::to_string)
        .def("show", show<Symbol>)
        .def("__eq__", +[](Symbol a, object b) {
            extract<Symbol> x(b);
            return x.check() && a == x();
        });
    def("sym_rel", rel<Symbol>);
    def("sig_rel", rel<Signature>);
    def("slit_rel", syms_rel);
    def("span_show", span_show);
    def("Number", Number);
    def("String", string);
    def("Function", fun);
    def("Infimum", Infimum);
    def("Supremum", Supremum);
    def("parse_term", pterm);
    class_<Signature>("Signature", no_init)
        .def("__init__", make_constructor(mksig))
        .add_property("name", gname)
        .add_property("arity", &Signature::arity)
        .add_property("positive", &Signature::positive)
        .add_property("negative", &Signature::negative)
        .def("__hash__", stdhash<Signature>)
        .add_property("rep", +[](Signature s) { return s.to_c(); })
        .def("__str__", show<Signature>);

    class_<SymbolicAtoms>("SymbolicAtoms", no_init)
        .def("list", atoms)
        .def("find", find)
        .def("__len__", &SymbolicAtoms::length)
        .add_property("signatures", sigs);

    class_<Assignment>("Assignment", no_init)
        .add_property("has_conflict", &Assignment::has_conflict)
        .add_property("decision_level", &Assignment::decision_level)
        .add_property("root_level", &Assignment::root_level)
        .add_property("is_total", &Assignment::is_total)
        .def("has_literal", &Assignment::has_literal)
        .def("value", value)
        .def("level", &Assignment::level)
        .def("decision", &Assignment::decision)
        .def("is_fixed", &Assignment::is_fixed)
        .def("is_true", &Assignment::is_true)
        .def("is_false", &Assignment::is_false)
        .def("trail", trail)
        .def("list", assignment);

    class_<PInit>("PropagateInit", no_init)
        .def("solver_literal", &PInit::solver_literal)
        .def("add_watch", add_watch)
        .def("add_watch", add_watch_t)
        .def("remove_watch", remove_watch)
        .def("remove_watch", remove_watch_t)
        .def("freeze_literal", &PInit::freeze_literal)
        .add_property("number_of_threads", &PInit::number_of_threads)
        .add_property("assignment", &PInit::assignment)
        .add_property("symbolic_atoms", &PInit::symbolic_atoms)
        .def("theory", itheory)
        .def("get_check_mode", get_check)
        .def("get_undo_mode", get_undo)
        .def("set_check_mode", set_check)
        .def("set_undo_mode", set_undo)
        .def("add_literal", add_literal)
        .def("add_clause", iclause)
        .def("add_weight_constraint", iweight)
        .def("add_minimize", imin)
        .def("propagate", &PInit::propagate);

    class_<PCtl>("PropagateControl", no_init)
        .add_property("thread_id", &PCtl::thread_id)
        .add_property("assignment", &PCtl::assignment)
        .def("add_literal", pliteral)
        .def("add_watch", pwatch)
        .def("has_watch", &PCtl::has_watch)
        .def("remove_watch", punwatch)
        .def("add_clause", pclause)
        .def("propagate", ppropagate);

    class_<SolveControl>("SolveControl", no_init).def("add_clause", sclause).add_property("symbolic_atoms", &SolveControl::symbolic_atoms);
    class_<PModel>("Model", no_init)
        .def("symbols", msyms)
        .def("contains", mcontains)
        .def("is_true", mtrue)
        .def("is_consequence", mcons)
        .def("extend", mextend)
        .add_property("optimality_proven", mproven)
        .add_property("cost", mcost)
        .add_property("priority", mprio)
        .add_property("context", mcontext)
        .add_property("type", mtype)
        .add_property("thread_id", mthread)
        .add_property("number", mnumber)
        .def("__str__", mstr);
    class_<Handle, boost::noncopyable>("SolveHandle", no_init)
        .def("close", hclose)
        .def("model", hmodel)
        .def("next", hnext)
        .def("last", hlast)
        .def("core", hcore)
        .def("get", hget)
        .def("resume", hresume)
        .def("cancel", hcancel)
        .def("wait", hwait)
        .def("loop", hloop);
    class_<US>("UserStatistics", no_init)
        .def("dump", stats<US>)
        .def("at", sat)
        .def("idx", sidx)
        .def("has", shas)
        .def("add", sadd)
        .def("push", spush)
        .def("ensure", sensure)
        .def("size", &US::size)
        .def("set_value", &US::set_value);
    class_<Configuration>("Configuration", no_init)
        .add_property("is_array", &Configuration::is_array)
        .add_property("is_map", &Configuration::is_map)
        .add_property("is_value", &Configuration::is_value)
        .add_property("value", cvalue)
        .add_property("keys", +[](Configuration &c) { return ::list(keys(c)); })
        .add_property("len", clen)
        .def("idx", cidx)
        .def("sub", csub)
        .def("set", cset)
        .def("desc", cdesc)
        .def("walk", cwalk);
    class_<Back, boost::noncopyable>("Backend", no_init)
        .def("close", bclose)
        .def("rule", brule)
        .def("weight_rule", bwrule)
        .def("minimize", bmin)
        .def("project", bproj)
        .def("external", bext)
        .def("assume", bassume)
        .def("heuristic", bheu)
        .def("acyc_edge", bedge)
        .def("add_atom", batom)
        .def("tnum", btnum)
        .def("tstr", btstr)
        .def("tsym", btsym)
        .def("tfun", btfun)
        .def("tseq", btseq)
        .def("elem", belem)
        .def("tatom", btatom)
        .def("tgatom", btgatom);
    class_<Ctl, boost::noncopyable>("Control", init<object, object, unsigned, int>())
        .def("free", &Ctl::free)
        .add_property("ptr", +[](Ctl &c) { return reinterpret_cast<uintptr_t>(c.ctl->to_c()); })
        .def("add", add)
        .def("load", load)
        .def("ground", ground)
        .def("solve", solve, return_value_policy<manage_new_object>())
        .def("assign_lit", assign_lit)
        .def("assign_sym", assign_sym)
        .def("release_lit", release_lit)
        .def("release_sym", release_sym)
        .add_property("symbolic_atoms", catoms)
        .def("theory", ctheory)
        .def("register_propagator", propagator)
        .def("register_observer", observer)
        .def("get_const", get_const)
        .def("interrupt", interrupt)
        .def("cleanup", cleanup)
        .add_property("is_conflicting", conflicting)
        .add_property("enable_enumeration_assumption", get_enum, set_enum)
        .add_property("enable_cleanup", get_clean, set_clean)
        .add_property("configuration", conf)
        .add_property("statistics", cstats)
        .def("facade", facade)
        .def("with_backend", with_backend)
        .def("backend", backend, return_value_policy<manage_new_object>());
    def("location", location);
    def("codes", codes);
    def("version", ver);
    def("add_string", addstr);
    def("strings", ints);
    def("solve_native", solve_native);
    export_ast();
    export_app();
}
