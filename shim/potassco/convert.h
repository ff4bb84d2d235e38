#pragma once
#include <potassco/smodels.h>
namespace Potassco {
class SmodelsConvert : public AbstractProgram {
  public:
    SmodelsConvert(SmodelsOutput &, bool) {}
    void rule(Head_t, AtomSpan const &, LitSpan const &) override { na(); }
    void rule(Head_t, AtomSpan const &, Weight_t, WeightLitSpan const &) override { na(); }
    void minimize(Weight_t, WeightLitSpan const &) override { na(); }
    static void na() { throw std::logic_error("smodels output is not available in this build"); }
};
} // namespace Potassco
