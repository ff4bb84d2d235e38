// Stand-in: command line parsing is libpotassco's, options are set directly here.
#pragma once
#include <cstdio>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
namespace Potassco {
namespace ProgramOptions {
struct Dummy { Dummy *composing() { return this; } };
template <class T> inline Dummy *storeTo(T &) { static Dummy d; return &d; }
struct OptionInit {
    OptionInit &operator()(char const *, Dummy *, char const *) { return *this; }
};
struct OptionGroup {
    OptionGroup(char const * = "") {}
    OptionInit addOptions() { return {}; }
};
struct FileOut { FileOut(FILE *) {} };
struct OptionContext {
    OptionContext &add(OptionGroup const &) { return *this; }
    template <class T> void description(T &) const {}
};
struct ParsedOptions {};
struct ParsedValues {};
typedef std::function<bool(std::string const &, std::string &)> PosOption;
} // namespace ProgramOptions
} // namespace Potassco
