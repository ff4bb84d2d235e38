// Stand-in for clingo/clingocontrol.hh (which needs clasp's C++ headers): the
// grounding-only control of gringo_app.cc behind the C interface.
#pragma once
#include <clingo/astv2.hh>
#include <clingo/control.hh>
#include <clingo/gringo_options.hh>
#include <clingo/scripts.hh>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <gringo_app.cc>
#include <gringo/input/groundtermparser.hh>
#include <gringo/input/nongroundparser.hh>
#include <gringo/input/program.hh>
#include <gringo/input/programbuilder.hh>
#include <gringo/output/output.hh>
#include <mutex>
#include <sstream>

namespace Gringo {

struct VpHolder {
    GringoOptions opts_;
    bool incremental_opt_ = false;
    std::vector<std::string> files_{"/dev/null"};
    std::ostringstream stream_;
    Potassco::TheoryData data_;
    std::unique_ptr<Output::OutputBase> outbase_;

    static Sig parseSig(char const *s) {
        bool sign = *s == '-';
        std::string str(s + (sign ? 1 : 0));
        auto pos = str.find('/');
        return Sig(str.substr(0, pos).c_str(), static_cast<uint32_t>(atoi(str.c_str() + pos + 1)), sign);
    }
    VpHolder(int n, char const *const *args) {
        bool predActive = false;
        Output::OutputPredicates outPreds;
        for (int i = 0; i < n; ++i) {
            std::string a = args[i];
            auto starts = [&a](char const *p) { return a.compare(0, strlen(p), p) == 0; };
            auto val = [&a]() { return a.substr(a.find('=') + 1); };
            if (a == "--text" || a == "--output=text") opts_.outputFormat = Output::OutputFormat::TEXT;
            else if (a == "--output=reify") opts_.outputFormat = Output::OutputFormat::REIFY;
            else if (a == "--output=intermediate") opts_.outputFormat = Output::OutputFormat::INTERMEDIATE;
            else if (a == "--reify-sccs") opts_.outputOptions.reifySCCs = true;
            else if (a == "--reify-steps") opts_.outputOptions.reifySteps = true;
            else if (a == "--preserve-facts") opts_.outputOptions.preserveFacts = true;
            else if (a == "--keep-facts") opts_.keepFacts = true;
            else if (a == "--rewrite-minimize") opts_.rewriteMinimize = true;
            else if (a == "--incremental") incremental_opt_ = true;
            else if (a == "--output-debug=text") opts_.outputOptions.debug = Output::OutputDebug::TEXT;
            else if (a == "--output-debug=translate") opts_.outputOptions.debug = Output::OutputDebug::TRANSLATE;
            else if (a == "--output-debug=all") opts_.outputOptions.debug = Output::OutputDebug::ALL;
            else if (a == "--verbose") opts_.verbose = true;
            else if (a == "--warn=none") { opts_.wNoOperationUndefined = opts_.wNoAtomUndef = opts_.wNoFileIncluded = opts_.wNoGlobalVariable = opts_.wNoOther = true; }
            else if (starts("--const=")) opts_.defines.emplace_back(val());
            else if (starts("--show=")) { outPreds.add(Location("<cmd>", 1, 1, "<cmd>", 1, 1), parseSig(val().c_str()), false); }
            else if (a[0] != '-') files_.emplace_back(a);
            else throw std::runtime_error("unknown option: " + a);
        }
        (void)predActive;
        data_.update();
        outbase_.reset(new Output::OutputBase(data_, std::move(outPreds), stream_, opts_.outputFormat, opts_.outputOptions));
    }
};

// atoms of the ground program (iteration order: domain by domain)
struct VpAtoms : clingo_symbolic_atoms {
    Output::OutputBase &out;
    VpAtoms(Output::OutputBase &o) : out(o) {}
    static uint64_t mk(uint64_t d, uint64_t i) { return d << 32 | i; }
    uint64_t norm(uint64_t it, bool single) const {
        auto &doms = const_cast<Output::OutputBase &>(out).predDoms();
        uint64_t d = (it >> 32) & 0x7fffffff, i = it & 0xffffffff;
        while (d < doms.size()) {
            auto &dom = **doms.nth(d);
            while (i < dom.size() && !dom[i].defined()) ++i;
            if (i < dom.size() && !dom.sig().name().startsWith("#")) return (it & (1ull << 63)) | mk(d, i);
            if (single) break;
            ++d; i = 0;
        }
        return mk(0x7fffffff, 0);
    }
    Output::PredicateDomain::Iterator elem(uint64_t it) const {
        auto &doms = const_cast<Output::OutputBase &>(out).predDoms();
        return (*doms.nth((it >> 32) & 0x7fffffff))->begin() + (it & 0xffffffff);
    }
    Symbol atom(SymbolicAtomIter it) const override { return *elem(it); }
    Potassco::Lit_t literal(SymbolicAtomIter it) const override { auto e = elem(it); return e->hasUid() ? static_cast<Potassco::Lit_t>(e->uid()) : 0; }
    bool fact(SymbolicAtomIter it) const override { return elem(it)->fact(); }
    bool external(SymbolicAtomIter it) const override { return elem(it)->isExternal(); }
    SymbolicAtomIter next(SymbolicAtomIter it) const override { return norm(it + 1, it >> 63); }
    bool valid(SymbolicAtomIter it) const override { return it != mk(0x7fffffff, 0); }
    SymbolicAtomIter begin(Sig sig) const override {
        auto &doms = const_cast<Output::OutputBase &>(out).predDoms();
        for (uint64_t d = 0; d < doms.size(); ++d) if ((*doms.nth(d))->sig() == sig) return norm((1ull << 63) | mk(d, 0), true);
        return end();
    }
    SymbolicAtomIter begin() const override { return norm(0, false); }
    SymbolicAtomIter lookup(Symbol a) const override {
        if (a.hasSig()) {
            auto &doms = const_cast<Output::OutputBase &>(out).predDoms();
            for (uint64_t d = 0; d < doms.size(); ++d) {
                auto &dom = **doms.nth(d);
                if (dom.sig() == a.sig()) {
                    auto jt = dom.find(a);
                    if (jt != dom.end() && jt->defined()) return mk(d, static_cast<uint64_t>(jt - dom.begin()));
                }
            }
        }
        return end();
    }
    bool eq(SymbolicAtomIter a, SymbolicAtomIter b) const override { return (a << 1) == (b << 1); }
    SymbolicAtomIter end() const override { return mk(0x7fffffff, 0); }
    std::vector<Sig> signatures() const override {
        std::vector<Sig> ret;
        for (auto &d : const_cast<Output::OutputBase &>(out).predDoms()) if (!d->sig().name().startsWith("#")) ret.emplace_back(d->sig());
        return ret;
    }
    size_t length() const override { size_t n = 0; for (auto it = begin(); valid(it); it = next(it)) ++n; return n; }
};

struct ClingoLib : private VpHolder, public IncrementalControl {
    ClingoLib(Scripts &, int n, char const *const *args, Logger::Printer printer, unsigned limit)
        : VpHolder(n, args), IncrementalControl(*outbase_, files_, opts_), atoms_(*outbase_) {
        incremental_ = incremental_opt_;
        if (logger_.hasError()) { throw std::runtime_error("parsing failed"); }
        logger_ = Logger(std::move(printer), limit);
        logger_.enable(Warnings::OperationUndefined, !opts_.wNoOperationUndefined);
        logger_.enable(Warnings::AtomUndefined, !opts_.wNoAtomUndef);
        logger_.enable(Warnings::FileIncluded, !opts_.wNoFileIncluded);
        logger_.enable(Warnings::GlobalVariable, !opts_.wNoGlobalVariable);
        logger_.enable(Warnings::Other, !opts_.wNoOther);
    }
    SymbolicAtoms const &getDomain() const override { return atoms_; }
    std::string outputText() const { return VpHolder::stream_.str(); }
    bool incmodeFlag() const { return incmode; }
    VpAtoms atoms_;
};

class ClingoControl : public clingo_control {};
class ClingoApp;
class IClingoApp {
  public:
    virtual unsigned message_limit() const { return 20; }
    virtual char const *program_name() const { return "clingo"; }
    virtual char const *version() const { return "0"; }
    virtual bool has_main() const { return false; }
    virtual void main(ClingoControl &, std::vector<std::string> const &) {}
    virtual bool has_log() const { return false; }
    virtual void log(Gringo::Warnings, char const *) noexcept {}
    virtual bool has_printer() const { return false; }
    virtual void print_model(Model *, std::function<void()> printer) { printer(); }
    virtual void register_options(ClingoApp &) {}
    virtual void validate_options() {}
    virtual ~IClingoApp() = default;
};
using UIClingoApp = std::unique_ptr<IClingoApp>;
} // namespace Gringo
