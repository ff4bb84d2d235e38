// Stand-in for libpotassco's theory_data.h.
#pragma once
#include <memory>
#include <potassco/basic_types.h>

namespace Potassco {

class TheoryTerm {
  public:
    typedef Id_t const *iterator;
    Theory_t type() const { return Theory_t(type_); }
    int number() const { if (type_ != Theory_t::Number) { throw std::invalid_argument("term is not a number"); } return number_; }
    char const *symbol() const { if (type_ != Theory_t::Symbol) { throw std::invalid_argument("term is not a symbol"); } return symbol_.c_str(); }
    int compound() const { if (type_ != Theory_t::Compound) { throw std::invalid_argument("term is not a compound"); } return number_; }
    bool isFunction() const { return type_ == Theory_t::Compound && number_ >= 0; }
    Id_t function() const { if (!isFunction()) { throw std::invalid_argument("term is not a function"); } return static_cast<Id_t>(number_); }
    bool isTuple() const { return type_ == Theory_t::Compound && number_ < 0; }
    Tuple_t tuple() const { if (!isTuple()) { throw std::invalid_argument("term is not a tuple"); } return Tuple_t(number_); }
    uint32_t size() const { return type_ == Theory_t::Compound ? static_cast<uint32_t>(args_.size()) : 0; }
    iterator begin() const { return args_.data(); }
    iterator end() const { return args_.data() + args_.size(); }
    IdSpan terms() const { return toSpan(args_.data(), args_.size()); }

  private:
    friend class TheoryData;
    Theory_t::E type_ = Theory_t::Number;
    int number_ = 0;
    std::string symbol_;
    std::vector<Id_t> args_;
};

class TheoryElement {
  public:
    typedef Id_t const *iterator;
    uint32_t size() const { return static_cast<uint32_t>(terms_.size()); }
    iterator begin() const { return terms_.data(); }
    iterator end() const { return terms_.data() + terms_.size(); }
    IdSpan terms() const { return toSpan(terms_.data(), terms_.size()); }
    Id_t condition() const { return cond_; }

  private:
    friend class TheoryData;
    std::vector<Id_t> terms_;
    Id_t cond_ = 0;
};

class TheoryAtom {
  public:
    typedef Id_t const *iterator;
    Id_t atom() const { return atom_; }
    Id_t term() const { return term_; }
    uint32_t size() const { return static_cast<uint32_t>(elems_.size()); }
    iterator begin() const { return elems_.data(); }
    iterator end() const { return elems_.data() + elems_.size(); }
    IdSpan elements() const { return toSpan(elems_.data(), elems_.size()); }
    Id_t const *guard() const { return guarded_ ? &guard_ : nullptr; }
    Id_t const *rhs() const { return guarded_ ? &rhs_ : nullptr; }

  private:
    friend class TheoryData;
    Id_t atom_ = 0;
    Id_t term_ = 0;
    std::vector<Id_t> elems_;
    bool guarded_ = false;
    Id_t guard_ = 0;
    Id_t rhs_ = 0;
};

class TheoryData {
  public:
    typedef TheoryAtom const *const *atom_iterator;
    typedef TheoryTerm Term;
    typedef TheoryElement Element;
    static const Id_t COND_DEFERRED = static_cast<Id_t>(-1);
    enum VisitMode { visit_all, visit_current };

    TheoryData() {}
    TheoryData(TheoryData const &) = delete;
    TheoryData &operator=(TheoryData const &) = delete;
    ~TheoryData() { reset(); }

    TheoryTerm const &addTerm(Id_t id, int number) {
        TheoryTerm &t = setTerm(id);
        t.type_ = Theory_t::Number;
        t.number_ = number;
        return t;
    }
    TheoryTerm const &addTerm(Id_t id, StringSpan const &name) {
        TheoryTerm &t = setTerm(id);
        t.type_ = Theory_t::Symbol;
        t.symbol_.assign(name.first, name.size);
        return t;
    }
    TheoryTerm const &addTerm(Id_t id, char const *name) { return addTerm(id, toSpan(name)); }
    TheoryTerm const &addTerm(Id_t id, Id_t fun, IdSpan const &args) {
        TheoryTerm &t = setTerm(id);
        t.type_ = Theory_t::Compound;
        t.number_ = static_cast<int>(fun);
        t.args_.assign(Potassco::begin(args), Potassco::end(args));
        return t;
    }
    TheoryTerm const &addTerm(Id_t id, Tuple_t type, IdSpan const &args) {
        TheoryTerm &t = setTerm(id);
        t.type_ = Theory_t::Compound;
        t.number_ = static_cast<int>(type);
        t.args_.assign(Potassco::begin(args), Potassco::end(args));
        return t;
    }
    void removeTerm(Id_t id) {
        if (hasTerm(id)) { terms_[id].reset(); }
    }
    TheoryElement const &addElement(Id_t id, IdSpan const &terms, Id_t cond = 0) {
        if (id >= elems_.size()) { elems_.resize(id + 1); }
        if (elems_[id] && !isNewElement(id)) { throw std::logic_error("redefinition of theory element"); }
        elems_[id].reset(new TheoryElement());
        elems_[id]->terms_.assign(Potassco::begin(terms), Potassco::end(terms));
        elems_[id]->cond_ = cond;
        return *elems_[id];
    }
    TheoryAtom const &addAtom(Id_t atom, Id_t term, IdSpan const &elems) {
        store_.emplace_back(new TheoryAtom());
        TheoryAtom &a = *store_.back();
        atoms_.push_back(&a);
        a.atom_ = atom;
        a.term_ = term;
        a.elems_.assign(Potassco::begin(elems), Potassco::end(elems));
        return a;
    }
    TheoryAtom const &addAtom(Id_t atom, Id_t term, IdSpan const &elems, Id_t op, Id_t rhs) {
        addAtom(atom, term, elems);
        TheoryAtom &a = *store_.back();
        a.guarded_ = true;
        a.guard_ = op;
        a.rhs_ = rhs;
        return a;
    }
    void setCondition(Id_t elem, Id_t cond) {
        if (getElement(elem).condition() != COND_DEFERRED) { throw std::logic_error("condition already set"); }
        elems_[elem]->cond_ = cond;
    }
    void reset() {
        terms_.clear();
        elems_.clear();
        atoms_.clear();
        store_.clear();
        curAtom_ = curTerm_ = curElem_ = 0;
    }
    void update() {
        curAtom_ = static_cast<uint32_t>(atoms_.size());
        curTerm_ = static_cast<uint32_t>(terms_.size());
        curElem_ = static_cast<uint32_t>(elems_.size());
    }
    uint32_t numAtoms() const { return static_cast<uint32_t>(atoms_.size()); }
    atom_iterator begin() const { return atoms_.data(); }
    atom_iterator currBegin() const { return begin() + curAtom_; }
    atom_iterator end() const { return begin() + atoms_.size(); }
    bool empty() const { return atoms_.empty(); }
    bool hasTerm(Id_t id) const { return id < terms_.size() && terms_[id]; }
    bool isNewTerm(Id_t id) const { return hasTerm(id) && id >= curTerm_; }
    bool hasElement(Id_t id) const { return id < elems_.size() && elems_[id]; }
    bool isNewElement(Id_t id) const { return hasElement(id) && id >= curElem_; }
    TheoryTerm const &getTerm(Id_t id) const {
        if (!hasTerm(id)) { throw std::out_of_range("unknown theory term"); }
        return *terms_[id];
    }
    TheoryElement const &getElement(Id_t id) const {
        if (!hasElement(id)) { throw std::out_of_range("unknown theory element"); }
        return *elems_[id];
    }
    class Visitor {
      public:
        virtual ~Visitor() {}
        virtual void visit(TheoryData const &data, Id_t termId, TheoryTerm const &t) = 0;
        virtual void visit(TheoryData const &data, Id_t elemId, TheoryElement const &e) = 0;
        virtual void visit(TheoryData const &data, TheoryAtom const &a) = 0;
    };
    void accept(Visitor &out, VisitMode m = visit_current) const {
        for (std::size_t i = m == visit_current ? curAtom_ : 0; i != atoms_.size(); ++i) { out.visit(*this, *atoms_[i]); }
    }
    void accept(TheoryAtom const &a, Visitor &out, VisitMode m = visit_all) const {
        if (doVisitTerm(m, a.term())) { out.visit(*this, a.term(), getTerm(a.term())); }
        for (Id_t e : a.elems_) {
            if (doVisitElem(m, e)) { out.visit(*this, e, getElement(e)); }
        }
        if (a.guard()) {
            if (doVisitTerm(m, *a.guard())) { out.visit(*this, *a.guard(), getTerm(*a.guard())); }
            if (doVisitTerm(m, *a.rhs())) { out.visit(*this, *a.rhs(), getTerm(*a.rhs())); }
        }
    }
    void accept(TheoryElement const &e, Visitor &out, VisitMode m = visit_all) const {
        for (Id_t t : e.terms_) {
            if (doVisitTerm(m, t)) { out.visit(*this, t, getTerm(t)); }
        }
    }
    void accept(TheoryTerm const &t, Visitor &out, VisitMode m = visit_all) const {
        if (t.type() == Theory_t::Compound) {
            for (Id_t a : t.args_) {
                if (doVisitTerm(m, a)) { out.visit(*this, a, getTerm(a)); }
            }
            if (t.isFunction() && doVisitTerm(m, t.function())) { out.visit(*this, t.function(), getTerm(t.function())); }
        }
    }

  private:
    bool doVisitTerm(VisitMode m, Id_t id) const { return m == visit_all || isNewTerm(id); }
    bool doVisitElem(VisitMode m, Id_t id) const { return m == visit_all || isNewElement(id); }
    TheoryTerm &setTerm(Id_t id) {
        if (id >= terms_.size()) { terms_.resize(id + 1); }
        if (terms_[id] && !isNewTerm(id)) { throw std::logic_error("redefinition of theory term"); }
        terms_[id].reset(new TheoryTerm());
        return *terms_[id];
    }
    std::vector<std::unique_ptr<TheoryTerm>> terms_;
    std::vector<std::unique_ptr<TheoryElement>> elems_;
    std::vector<std::unique_ptr<TheoryAtom>> store_;
    std::vector<TheoryAtom const *> atoms_;
    uint32_t curAtom_ = 0, curTerm_ = 0, curElem_ = 0;
};

} // namespace Potassco
