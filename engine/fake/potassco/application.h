// Stand-in, see program_opts/program_options.h
#pragma once
#include <climits>
#include <cstdio>
#include <potassco/program_opts/program_options.h>
#include <string>
#include <utility>
namespace Potassco {
class Application {
  public:
    typedef ProgramOptions::PosOption PosOption;
    typedef std::pair<char const *, unsigned> HelpOpt;
    virtual ~Application() {}
    virtual char const *getName() const = 0;
    virtual char const *getVersion() const = 0;
    virtual HelpOpt getHelpOption() const { return HelpOpt("", 1); }
    virtual void initOptions(ProgramOptions::OptionContext &) {}
    virtual void validateOptions(ProgramOptions::OptionContext const &, ProgramOptions::ParsedOptions const &,
                                 ProgramOptions::ParsedValues const &) {}
    virtual void setup() {}
    virtual ProgramOptions::PosOption getPositional() const { return nullptr; }
    virtual void printHelp(ProgramOptions::OptionContext const &) {}
    virtual void printUsage() {}
    virtual void printVersion() {}
    virtual void run() = 0;
    unsigned verbose() const { return 0; }
    int main(int, char **) { return 1; }
};
} // namespace Potassco
