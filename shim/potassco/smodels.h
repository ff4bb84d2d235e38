// Stand-in: the smodels writer belongs to libpotassco, not to this repository.
#pragma once
#include <ostream>
#include <potassco/basic_types.h>
namespace Potassco {
class SmodelsOutput {
  public:
    SmodelsOutput(std::ostream &, bool, Atom_t) {}
};
} // namespace Potassco
