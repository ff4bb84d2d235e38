#pragma once
#include <clingo/clingocontrol.hh>
namespace Gringo {
class ClingoApp {
  public:
    ClingoApp(UIClingoApp = nullptr) {}
    void addOption(char const *, char const *, char const *, std::function<bool(char const *)>, char const * = nullptr, bool = false) {}
    void addFlag(char const *, char const *, char const *, bool &) {}
    int main(int, char **) { return 1; }
};
} // namespace Gringo
