// Stand-in for libpotassco's basic_types.h (the submodule is not available
// offline).  Written from the documented aspif interface; only what libgringo,
// libreify and libclingo's AST code need.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <istream>
#include <stdexcept>
#include <string>
#include <vector>

#define POTASSCO_API
namespace Potassco {

typedef uint32_t Id_t;
typedef uint32_t Atom_t;
typedef int32_t Lit_t;
typedef int32_t Weight_t;
const Id_t idMax = static_cast<Id_t>(-1);
const Atom_t atomMin = 1;
const Atom_t atomMax = static_cast<Atom_t>((1u << 31) - 1);

struct WeightLit_t {
    Lit_t lit;
    Weight_t weight;
    bool operator==(WeightLit_t const &o) const { return lit == o.lit && weight == o.weight; }
    bool operator!=(WeightLit_t const &o) const { return !(*this == o); }
    bool operator<(WeightLit_t const &o) const { return lit != o.lit ? lit < o.lit : weight < o.weight; }
};

#define VP_ENUM(Name, Type, Default, ...)                                                                              \
    struct Name {                                                                                                      \
        enum E : Type { __VA_ARGS__ };                                                                                 \
        Name() : val_(Default) {}                                                                                      \
        Name(E x) : val_(x) {}                                                                                         \
        explicit Name(Type x) : val_(static_cast<E>(x)) {}                                                             \
        operator Type() const { return static_cast<Type>(val_); }                                                      \
        E val_;                                                                                                        \
    }

VP_ENUM(Head_t, unsigned, Disjunctive, Disjunctive = 0, Choice = 1);
VP_ENUM(Value_t, unsigned, Free, Free = 0, True = 1, False = 2, Release = 3);
VP_ENUM(Heuristic_t, unsigned, Level, Level = 0, Sign = 1, Factor = 2, Init = 3, True = 4, False = 5);
VP_ENUM(Tuple_t, int, Bracket, Bracket = -3, Brace = -2, Paren = -1);
VP_ENUM(Theory_t, unsigned, Number, Number = 0, Symbol = 1, Compound = 2, Reserved = 3, Element = 4, Atom = 5,
        AtomWithGuard = 6);
VP_ENUM(Directive_t, unsigned, End, End = 0, Rule = 1, Minimize = 2, Project = 3, Output = 4, External = 5, Assume = 6,
        Heuristic = 7, Edge = 8, Theory = 9, Comment = 10);

inline char const *toString(Tuple_t t) {
    switch (t.val_) {
        case Tuple_t::Bracket: return "[]";
        case Tuple_t::Brace: return "{}";
        default: return "()";
    }
}
inline char const *toString(Heuristic_t t) {
    static char const *const names[] = {"level", "sign", "factor", "init", "true", "false"};
    return names[static_cast<unsigned>(t)];
}
inline char const *toString(Value_t t) {
    static char const *const names[] = {"free", "true", "false", "release"};
    return names[static_cast<unsigned>(t)];
}

template <class T> struct Span {
    typedef std::size_t size_t_;
    typedef T value_type;
    typedef T const *iterator;
    typedef T const *const_iterator;
    T const &operator[](std::size_t pos) const { return first[pos]; }
    T const *first;
    std::size_t size;
};
template <class T> inline T const *begin(Span<T> const &s) { return s.first; }
template <class T> inline T const *end(Span<T> const &s) { return s.first + s.size; }
template <class T> inline std::size_t size(Span<T> const &s) { return s.size; }
template <class T> inline bool empty(Span<T> const &s) { return s.size == 0; }

typedef Span<Id_t> IdSpan;
typedef Span<Atom_t> AtomSpan;
typedef Span<Lit_t> LitSpan;
typedef Span<WeightLit_t> WeightLitSpan;
typedef Span<char> StringSpan;
typedef std::vector<Lit_t> LitVec;
typedef std::vector<Atom_t> AtomVec;

template <class T> inline Span<T> toSpan(T const *x, std::size_t s) { return Span<T>{x, s}; }
template <class T> inline Span<T> toSpan() { return Span<T>{nullptr, 0}; }
template <class T> inline Span<T> toSpan(std::vector<T> const &v) { return Span<T>{v.empty() ? nullptr : &v[0], v.size()}; }
inline StringSpan toSpan(char const *x) { return StringSpan{x, std::strlen(x)}; }
inline StringSpan toSpan(std::string const &x) { return StringSpan{x.c_str(), x.size()}; }

inline Lit_t lit(Lit_t x) { return x; }
inline Lit_t lit(Atom_t x) { return static_cast<Lit_t>(x); }
inline Lit_t lit(WeightLit_t const &x) { return x.lit; }
inline Atom_t atom(Lit_t x) { return static_cast<Atom_t>(x >= 0 ? x : -x); }
inline Atom_t atom(WeightLit_t const &x) { return atom(x.lit); }
inline Weight_t weight(WeightLit_t const &x) { return x.weight; }

class AbstractProgram {
  public:
    virtual ~AbstractProgram() {}
    virtual void initProgram(bool) {}
    virtual void beginStep() {}
    virtual void rule(Head_t ht, AtomSpan const &head, LitSpan const &body) = 0;
    virtual void rule(Head_t ht, AtomSpan const &head, Weight_t bound, WeightLitSpan const &body) = 0;
    virtual void minimize(Weight_t prio, WeightLitSpan const &lits) = 0;
    virtual void project(AtomSpan const &) { na("project"); }
    virtual void output(StringSpan const &, LitSpan const &) { na("output"); }
    virtual void external(Atom_t, Value_t) { na("external"); }
    virtual void assume(LitSpan const &) { na("assume"); }
    virtual void heuristic(Atom_t, Heuristic_t, int, unsigned, LitSpan const &) { na("heuristic"); }
    virtual void acycEdge(int, int, LitSpan const &) { na("edge"); }
    virtual void theoryTerm(Id_t, int) { na("theory"); }
    virtual void theoryTerm(Id_t, StringSpan const &) { na("theory"); }
    virtual void theoryTerm(Id_t, int, IdSpan const &) { na("theory"); }
    virtual void theoryElement(Id_t, IdSpan const &, LitSpan const &) { na("theory"); }
    virtual void theoryAtom(Id_t, Id_t, IdSpan const &) { na("theory"); }
    virtual void theoryAtom(Id_t, Id_t, IdSpan const &, Id_t, Id_t) { na("theory"); }
    virtual void endStep() {}

  private:
    static void na(char const *what) { throw std::logic_error(std::string(what) + " not supported"); }
};

} // namespace Potassco
