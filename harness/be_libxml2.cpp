#define NO_DEFAULT_PARSER
#include "be_reader.hpp"
#include <SAX/wrappers/saxlibxml2.hpp>
std::unique_ptr<be::AnyReader> be::libxml2() { return std::unique_ptr<AnyReader>(new Holder<Arabica::SAX::libxml2_wrapper<S> >()); }
