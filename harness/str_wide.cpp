#include "strx.hpp"
namespace strx { Lines run_wide(const Job& j, int what) { return Run<std::wstring, Arabica::default_string_adaptor<std::wstring> >().all(j, what); } }
