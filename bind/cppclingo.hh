// What the parts of the C++ test module share: clingo.hh of /repo is made available to Python (Boost.Python).
#ifndef CPPCLINGO_HH
#define CPPCLINGO_HH
#define PY_SSIZE_T_CLEAN
#include <boost/python.hpp>
#include <clingo.hh>
#include <cxxabi.h>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>

namespace bp = boost::python;
using namespace Clingo;

struct Gil {
    Gil() : s(PyGILState_Ensure()) {}
    ~Gil() { PyGILState_Release(s); }
    PyGILState_STATE s;
};

struct NoGil {
    NoGil() : s(PyEval_SaveThread()) {}
    ~NoGil() { PyEval_RestoreThread(s); }
    PyThreadState *s;
};

// what the oracle in C++ reports
struct Bad {
    std::string msg;
};
inline void ck(bool c, std::string const &m) {
    if (!c) {
        throw Bad{m};
    }
}

// exceptions thrown by callbacks
struct UserError : std::runtime_error {
    UserError(char const *msg, int payload) : std::runtime_error(msg), payload(payload) {}
    int payload;
};
struct PlainError : std::exception {
    PlainError(std::string msg) : msg(std::move(msg)) {}
    char const *what() const noexcept override { return msg.c_str(); }
    std::string msg;
};
struct PyExc {
    size_t index;
};

void throw_cpp();

// runs code of a callback that uses Python
template <class F> auto py(F f) -> decltype(f()) {
    Gil g;
    try {
        return f();
    } catch (bp::error_already_set const &) {
        throw_cpp();
        throw;
    }
}

template <class T> std::vector<T> vec(bp::object o) {
    std::vector<T> r;
    for (bp::ssize_t i = 0, n = bp::len(o); i != n; ++i) {
        r.push_back(bp::extract<T>(o[i])());
    }
    return r;
}
inline std::vector<std::string> strs(bp::object o) { return vec<std::string>(o); }
inline std::vector<char const *> cstrs(std::vector<std::string> const &v) {
    std::vector<char const *> r;
    for (auto &x : v) {
        r.push_back(x.c_str());
    }
    return r;
}
inline std::vector<WeightedLiteral> wvec(bp::object o) {
    std::vector<WeightedLiteral> r;
    for (bp::ssize_t i = 0, n = bp::len(o); i != n; ++i) {
        r.emplace_back(bp::extract<int>(o[i][0])(), bp::extract<int>(o[i][1])());
    }
    return r;
}
inline std::vector<SymbolicLiteral> slvec(bp::object o) {
    std::vector<SymbolicLiteral> r;
    for (bp::ssize_t i = 0, n = bp::len(o); i != n; ++i) {
        r.emplace_back(bp::extract<Symbol>(o[i][0])(), bp::extract<bool>(o[i][1])());
    }
    return r;
}

template <class T> std::string show(T const &x) {
    std::ostringstream o;
    o << x;
    return o.str();
}

struct Self {
    template <class T> T operator()(T const &x) const { return x; }
};
struct Id_ {
    template <class T> auto operator()(T const &x) const -> decltype(x.to_c()) { return x.to_c(); }
};
struct Str {
    std::string operator()(char const *x) const { return x; }
};

// the contract of random access iterators; returns the values
template <class It, class Conv> auto contract(It const b, It const e, Conv conv) -> std::vector<std::decay_t<decltype(conv(*std::declval<It &>()))>> {
    using D = typename std::iterator_traits<It>::difference_type;
    std::vector<std::decay_t<decltype(conv(*std::declval<It &>()))>> v;
    for (It i = b; i != e; ++i) {
        ck(v.size() < 1000000, "endless iteration");
        v.push_back(conv(*i));
    }
    auto n = v.size();
    auto dn = static_cast<D>(n);
    It cb = b, ce = e;
    ck(ce - cb == dn && cb - ce == -dn, "iterator distance");
    ck(std::distance(b, e) == dn, "std::distance");
    ck(b + dn == e && dn + b == e && e - dn == b, "iterator plus/minus");
    It i = e;
    for (auto k = n; k-- > 0;) {
        if (k % 2 != 0) {
            ck(conv(*--i) == v[k], "decrement");
        } else {
            It o = i--;
            ck(o == i + 1 && conv(*i) == v[k], "post decrement");
        }
    }
    ck(i == b, "decrement to begin");
    auto r = std::reverse_iterator<It>(e);
    for (auto k = n; k-- > 0; ++r) {
        if (k < 4 || k + 4 >= n) {
            ck(conv(*r) == v[k], "reverse iterator");
        }
    }
    for (size_t x = 0; x <= std::min<size_t>(n, 4); ++x) {
        auto dx = static_cast<D>(x);
        for (size_t y = 0; y <= std::min<size_t>(n, 4); ++y) {
            auto dy = static_cast<D>(y);
            It p = b + dx;
            It q = b;
            ck(&(q += dy) == &q, "+= returns itself");
            ck((p == q) == (x == y) && (p != q) == (x != y), "iterator equality");
            ck((p < q) == (x < y) && (p > q) == (x > y) && (p <= q) == (x <= y) && (p >= q) == (x >= y), "iterator order");
            ck(p - q == dx - dy, "iterator difference");
            It s = e;
            s -= dn - dx;
            ck(s == p, "-=");
            p += dy - dx;
            ck(p == q, "+= negative");
            using std::swap;
            swap(s, p);
            ck(s == q && p == b + dx, "swap");
            if (x < n) {
                ck(conv(*p) == v[x], "dereference after swap");
                It o = p++;
                ck(o == b + dx && p == b + (dx + 1), "post increment");
                It u = b + dx;
                ck(&++u == &u && u == p, "increment");
                std::advance(u, -1);
                ck(conv(*u) == v[x], "advance");
                s = u;
                ck(conv(*s) == v[x] && s == u, "assignment");
            }
        }
    }
    return v;
}

template <class It, class Conv> void arrows(It b, It e, Conv conv) {
    for (auto i = b; i != e; ++i) {
        auto x = conv(*i);
        auto p = i.operator->();
        ck(conv(*p) == x, "operator->");
    }
}

// a span is a consistent range; returns a list of its elements
template <class S, class Conv = Self> bp::list span(S const &s, Conv conv = Conv{}) {
    auto v = contract(s.begin(), s.end(), conv);
    ck(s.size() == v.size() && s.empty() == v.empty(), "size of span");
    size_t n = 0;
    bp::list ret;
    for (auto &&x : s) {
        ck(n < v.size() && conv(x) == v[n], "range-based loop");
        ck(conv(s[n]) == v[n], "index of span");
        ret.append(bp::object(x));
        ++n;
    }
    ck(n == v.size() && end(s) - begin(s) == static_cast<ptrdiff_t>(n), "length of loop");
    if (n > 0) {
        ck(conv(s.front()) == v.front() && conv(s.back()) == v.back(), "ends of span");
    }
    ck(equal_range(s, s), "equal_range");
    return ret;
}

// a iterator range
template <class R, class Conv> std::vector<std::string> range(R r, Conv conv) {
    auto v = contract(r.begin(), r.end(), conv);
    ck(static_cast<size_t>(r.size()) == v.size() && r.empty() == v.empty(), "size of range");
    for (size_t i = 0; i < v.size(); ++i) {
        ck(conv(r[static_cast<typename R::difference_type>(i)]) == v[i], "index of range");
    }
    auto r2 = make_range(r.begin(), r.end());
    ck(r2.begin() == r.begin() && r2.end() == r.end(), "make_range");
    return v;
}

template <class V> bp::list list(V const &v) {
    bp::list r;
    for (auto &x : v) {
        r.append(bp::object(x));
    }
    return r;
}

struct PModel {
    Model const *c;
    Model *m;
};

// errors in callbacks that must not throw
extern std::string noexcept_error;
template <class F> void nothrow(F f) noexcept {
    Gil g;
    try {
        f();
    } catch (bp::error_already_set const &) {
        PyObject *t = nullptr, *v = nullptr, *tb = nullptr;
        PyErr_Fetch(&t, &v, &tb);
        PyErr_NormalizeException(&t, &v, &tb);
        bp::handle<> h(bp::allow_null(PyObject_Repr(v)));
        noexcept_error = h ? bp::extract<std::string>(bp::object(h))() : "unknown";
        PyErr_Clear();
    } catch (Bad const &e) {
        noexcept_error = e.msg;
    } catch (std::exception const &e) {
        noexcept_error = e.what();
    }
}
void export_ast();
void export_app();

Logger logger(bp::object o);

// a control object and what it refers to
struct Ctl {
    Ctl(bp::object args, bp::object log, unsigned limit, int alt) {
        auto a = strs(args);
        auto c = cstrs(a);
        if (alt % 2 != 0) {
            // everything works the same after moving
            Control x{c, logger(log), limit};
            Control y{std::move(x)};
            Control z{{}, [](WarningCode, char const *) {}};
            z = std::move(y);
            ctl = std::make_unique<Control>(std::move(z));
        } else if (log.is_none() && limit == 20) {
            ctl = c.empty() ? std::make_unique<Control>() : std::make_unique<Control>(c);
        } else {
            ctl = std::make_unique<Control>(c, logger(log), limit);
        }
    }
    explicit Ctl(std::unique_ptr<Control> c) : ctl(std::move(c)) {}
    ~Ctl() { free(); }
    void free() {
        if (ctl) {
            NoGil n;
            ctl.reset();
        }
    }
    std::unique_ptr<Control> ctl;
    std::list<std::shared_ptr<void>> keep;
    template <class T, class... A> T &make(A... a) {
        auto p = std::make_shared<T>(a...);
        keep.push_back(p);
        return *p;
    }
};
inline Control &control(Ctl &ctl) { return *ctl.ctl; }

#endif
