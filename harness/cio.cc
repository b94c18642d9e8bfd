// console output: no-ops
#include <ostream>
#include "kaminpar-common/console_io.h"
#include "kaminpar-shm/context_io.h"
namespace kaminpar::cio { void print_delimiter(const std::string &, char) {} void print_kaminpar_banner() {} void print_dkaminpar_banner() {} void print_build_identifier() {} }
namespace kaminpar::shm { void print(const Context &, std::ostream &) {} }
