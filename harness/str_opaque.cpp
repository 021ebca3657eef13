#include "strx.hpp"
namespace strx { Lines run_opaque(const Job& j, int what) { return Run<opaque::Str, opaque::Adaptor>().all(j, what); } }
