// Stand-in for libpotassco's clingo.h: the abstract interfaces clingo.h's C
// functions are written against.  No solver is available in this build.
#pragma once
#include <potassco/basic_types.h>
namespace Potassco {
VP_ENUM(Clause_t, unsigned, Learnt, Learnt = 0, Static = 1, Volatile = 2, VolatileStatic = 3);
VP_ENUM(Statistics_t, unsigned, Empty, Empty = 0, Value = 1, Array = 2, Map = 3);

class AbstractAssignment {
  public:
    typedef Value_t Value_t_;
    typedef Lit_t Lit_t_;
    virtual ~AbstractAssignment() {}
    virtual uint32_t size() const = 0;
    virtual uint32_t unassigned() const = 0;
    virtual bool hasConflict() const = 0;
    virtual uint32_t level() const = 0;
    virtual uint32_t rootLevel() const = 0;
    virtual bool hasLit(Lit_t lit) const = 0;
    virtual Value_t value(Lit_t lit) const = 0;
    virtual uint32_t level(Lit_t lit) const = 0;
    virtual Lit_t decision(uint32_t) const = 0;
    virtual uint32_t trailSize() const = 0;
    virtual Lit_t trailAt(uint32_t) const = 0;
    virtual uint32_t trailBegin(uint32_t) const = 0;
    virtual uint32_t trailEnd(uint32_t lev) const { return lev < level() ? trailBegin(lev + 1) : trailSize(); }
    bool isTotal() const { return unassigned() == 0; }
    bool isFixed(Lit_t l) const { return value(l) != Value_t::Free && level(l) == 0; }
    bool isTrue(Lit_t l) const { return value(l) == Value_t::True; }
    bool isFalse(Lit_t l) const { return value(l) == Value_t::False; }
};
class AbstractSolver {
  public:
    typedef Potassco::Lit_t Lit;
    virtual ~AbstractSolver() {}
    virtual Id_t id() const = 0;
    virtual AbstractAssignment const &assignment() const = 0;
    virtual bool addClause(LitSpan const &clause, Clause_t prop = Clause_t::Learnt) = 0;
    virtual Lit addVariable() = 0;
    virtual bool propagate() = 0;
    virtual bool hasWatch(Lit lit) const = 0;
    virtual void addWatch(Lit lit) = 0;
    virtual void removeWatch(Lit lit) = 0;
};
class AbstractPropagator {
  public:
    typedef Span<Lit_t> ChangeList;
    virtual ~AbstractPropagator() {}
    virtual void propagate(AbstractSolver &solver, ChangeList const &changes) = 0;
    virtual void undo(AbstractSolver const &solver, ChangeList const &undo) = 0;
    virtual void check(AbstractSolver &solver) = 0;
};
class AbstractHeuristic {
  public:
    typedef Potassco::Id_t Id_t;
    typedef Potassco::Lit_t Lit;
    virtual ~AbstractHeuristic() {}
    virtual Lit decide(Id_t solverId, AbstractAssignment const &assignment, Lit fallback) = 0;
};
class AbstractStatistics {
  public:
    typedef uint64_t Key_t;
    virtual ~AbstractStatistics() {}
    virtual Key_t root() const = 0;
    virtual Statistics_t type(Key_t key) const = 0;
    virtual size_t size(Key_t key) const = 0;
    virtual bool writable(Key_t key) const = 0;
    virtual Key_t at(Key_t arr, size_t index) const = 0;
    virtual Key_t push(Key_t arr, Statistics_t type) = 0;
    virtual char const *key(Key_t map, size_t i) const = 0;
    virtual Key_t get(Key_t map, char const *at) const = 0;
    virtual bool find(Key_t map, char const *element, Key_t *res) const = 0;
    virtual Key_t add(Key_t map, char const *name, Statistics_t type) = 0;
    virtual double value(Key_t key) const = 0;
    virtual void set(Key_t key, double value) = 0;
};
} // namespace Potassco
