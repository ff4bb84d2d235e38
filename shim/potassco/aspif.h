// Stand-in for libpotassco's aspif.h: aspif writer and reader.
#pragma once
#include <ostream>
#include <potassco/basic_types.h>

namespace Potassco {

class AspifOutput : public AbstractProgram {
  public:
    AspifOutput(std::ostream &os) : os_(os) {}
    void initProgram(bool inc) override { os_ << "asp 1 0 0" << (inc ? " incremental" : "") << "\n"; }
    void beginStep() override {}
    void rule(Head_t ht, AtomSpan const &head, LitSpan const &body) override {
        start(1) << " " << static_cast<unsigned>(ht);
        add(head);
        os_ << " 0";
        add(body);
        os_ << "\n";
    }
    void rule(Head_t ht, AtomSpan const &head, Weight_t bound, WeightLitSpan const &body) override {
        start(1) << " " << static_cast<unsigned>(ht);
        add(head);
        os_ << " 1 " << bound;
        add(body);
        os_ << "\n";
    }
    void minimize(Weight_t prio, WeightLitSpan const &lits) override {
        start(2) << " " << prio;
        add(lits);
        os_ << "\n";
    }
    void project(AtomSpan const &atoms) override { start(3); add(atoms); os_ << "\n"; }
    void output(StringSpan const &str, LitSpan const &cond) override {
        start(4);
        add(str);
        add(cond);
        os_ << "\n";
    }
    void external(Atom_t a, Value_t v) override { start(5) << " " << a << " " << static_cast<unsigned>(v) << "\n"; }
    void assume(LitSpan const &lits) override { start(6); add(lits); os_ << "\n"; }
    void heuristic(Atom_t a, Heuristic_t t, int bias, unsigned prio, LitSpan const &cond) override {
        start(7) << " " << static_cast<unsigned>(t) << " " << a << " " << bias << " " << prio;
        add(cond);
        os_ << "\n";
    }
    void acycEdge(int s, int t, LitSpan const &cond) override {
        start(8) << " " << s << " " << t;
        add(cond);
        os_ << "\n";
    }
    void theoryTerm(Id_t id, int num) override { start(9) << " 0 " << id << " " << num << "\n"; }
    void theoryTerm(Id_t id, StringSpan const &name) override { start(9) << " 1 " << id; add(name); os_ << "\n"; }
    void theoryTerm(Id_t id, int cId, IdSpan const &args) override {
        start(9) << " 2 " << id << " " << cId;
        add(args);
        os_ << "\n";
    }
    void theoryElement(Id_t id, IdSpan const &terms, LitSpan const &cond) override {
        start(9) << " 4 " << id;
        add(terms);
        add(cond);
        os_ << "\n";
    }
    void theoryAtom(Id_t atom, Id_t term, IdSpan const &elems) override {
        start(9) << " 5 " << atom << " " << term;
        add(elems);
        os_ << "\n";
    }
    void theoryAtom(Id_t atom, Id_t term, IdSpan const &elems, Id_t op, Id_t rhs) override {
        start(9) << " 6 " << atom << " " << term;
        add(elems);
        os_ << " " << op << " " << rhs << "\n";
    }
    void endStep() override { os_ << "0\n"; }

  private:
    std::ostream &start(int d) { return os_ << d; }
    template <class T> void add(Span<T> const &s) {
        os_ << " " << s.size;
        for (std::size_t i = 0; i != s.size; ++i) { os_ << " " << s[i]; }
    }
    void add(WeightLitSpan const &s) {
        os_ << " " << s.size;
        for (std::size_t i = 0; i != s.size; ++i) { os_ << " " << s[i].lit << " " << s[i].weight; }
    }
    void add(StringSpan const &s) {
        os_ << " " << s.size << " ";
        os_.write(s.first, static_cast<std::streamsize>(s.size));
    }
    std::ostream &os_;
};

//! Reads an aspif program (all steps) into the given sink.
class AspifReader {
  public:
    AspifReader(std::istream &in, AbstractProgram &out) : in_(in), out_(out) {}
    void read() {
        std::string asp;
        in_ >> asp;
        check(asp == "asp");
        unsigned a, b, c;
        in_ >> a >> b >> c;
        check(bool(in_) && a == 1);
        std::string rest;
        std::getline(in_, rest);
        bool inc = rest.find("incremental") != std::string::npos;
        out_.initProgram(inc);
        bool open = false;
        for (int d; in_ >> d;) {
            if (!open) { out_.beginStep(); open = true; }
            if (d == 0) { out_.endStep(); open = false; continue; }
            step(d);
        }
        check(!open);
    }

  private:
    static void check(bool x) { if (!x) { throw std::runtime_error("aspif: parse error"); } }
    template <class T> T get() { T x; check(bool(in_ >> x)); return x; }
    template <class T> std::vector<T> vec() {
        std::vector<T> ret(get<std::size_t>());
        for (auto &x : ret) { x = get<T>(); }
        return ret;
    }
    std::vector<WeightLit_t> wvec() {
        std::vector<WeightLit_t> ret(get<std::size_t>());
        for (auto &x : ret) { x.lit = get<Lit_t>(); x.weight = get<Weight_t>(); }
        return ret;
    }
    std::string str() {
        auto n = get<std::size_t>();
        check(in_.get() == ' ');
        std::string s(n, ' ');
        in_.read(&s[0], static_cast<std::streamsize>(n));
        check(bool(in_));
        return s;
    }
    void step(int d) {
        switch (d) {
            case 1: {
                Head_t ht(get<unsigned>());
                auto head = vec<Atom_t>();
                if (get<int>() == 0) { auto body = vec<Lit_t>(); out_.rule(ht, toSpan(head), toSpan(body)); }
                else { auto bound = get<Weight_t>(); auto body = wvec(); out_.rule(ht, toSpan(head), bound, toSpan(body)); }
                break;
            }
            case 2: { auto p = get<Weight_t>(); auto w = wvec(); out_.minimize(p, toSpan(w)); break; }
            case 3: { auto a = vec<Atom_t>(); out_.project(toSpan(a)); break; }
            case 4: { auto s = str(); auto c = vec<Lit_t>(); out_.output(toSpan(s), toSpan(c)); break; }
            case 5: { auto a = get<Atom_t>(); out_.external(a, Value_t(get<unsigned>())); break; }
            case 6: { auto a = vec<Lit_t>(); out_.assume(toSpan(a)); break; }
            case 7: {
                Heuristic_t t(get<unsigned>());
                auto a = get<Atom_t>();
                auto b = get<int>();
                auto p = get<unsigned>();
                auto c = vec<Lit_t>();
                out_.heuristic(a, t, b, p, toSpan(c));
                break;
            }
            case 8: { auto s = get<int>(); auto t = get<int>(); auto c = vec<Lit_t>(); out_.acycEdge(s, t, toSpan(c)); break; }
            case 9: {
                auto t = get<int>();
                auto id = get<Id_t>();
                switch (t) {
                    case 0: out_.theoryTerm(id, get<int>()); break;
                    case 1: { auto s = str(); out_.theoryTerm(id, toSpan(s)); break; }
                    case 2: { auto c = get<int>(); auto v = vec<Id_t>(); out_.theoryTerm(id, c, toSpan(v)); break; }
                    case 4: { auto v = vec<Id_t>(); auto c = vec<Lit_t>(); out_.theoryElement(id, toSpan(v), toSpan(c)); break; }
                    case 5: { auto x = get<Id_t>(); auto v = vec<Id_t>(); out_.theoryAtom(id, x, toSpan(v)); break; }
                    case 6: {
                        auto x = get<Id_t>();
                        auto v = vec<Id_t>();
                        auto op = get<Id_t>();
                        auto rhs = get<Id_t>();
                        out_.theoryAtom(id, x, toSpan(v), op, rhs);
                        break;
                    }
                    default: check(false);
                }
                break;
            }
            case 10: { std::string s; std::getline(in_, s); break; }
            default: check(false);
        }
    }
    std::istream &in_;
    AbstractProgram &out_;
};
inline int readAspif(std::istream &in, AbstractProgram &out) { AspifReader(in, out).read(); return 0; }

} // namespace Potassco
