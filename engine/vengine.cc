// Our side of the engine library: control.cc (the C interface) compiled over the
// grounding-only control, plus access to what the control wrote.
#include <control.cc>

namespace Gringo {
void registerOptions(Potassco::ProgramOptions::OptionGroup &, GringoOptions &, GringoOptions::AppType) {}
}

extern "C" bool vengine_output(clingo_control_t *ctl, char const **data, size_t *size) {
    static thread_local std::string buf;
    auto *c = dynamic_cast<Gringo::ClingoLib *>(ctl);
    if (!c) return false;
    buf = c->outputText();
    *data = buf.data();
    *size = buf.size();
    return true;
}
extern "C" bool vengine_incmode(clingo_control_t *ctl) {
    return dynamic_cast<Gringo::ClingoLib *>(ctl)->incmodeFlag();
}
extern "C" bool vengine_run_incmode(clingo_control_t *ctl) {
    GRINGO_CLINGO_TRY { Gringo::incmode(*ctl); }
    GRINGO_CLINGO_CATCH;
}
