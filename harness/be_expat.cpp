#define NO_DEFAULT_PARSER
#include "be_reader.hpp"
#include <SAX/wrappers/saxexpat.hpp>
std::unique_ptr<be::AnyReader> be::expat() { return std::unique_ptr<AnyReader>(new Holder<Arabica::SAX::expat_wrapper<S> >()); }
