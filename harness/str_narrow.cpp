#include "strx.hpp"
namespace strx { Lines run_narrow(const Job& j, int what) { return Run<S, Arabica::default_string_adaptor<S> >().all(j, what); } }
