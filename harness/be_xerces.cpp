#define NO_DEFAULT_PARSER
#include "be_reader.hpp"
#include <SAX/wrappers/saxxerces.hpp>
std::unique_ptr<be::AnyReader> be::xerces() { return std::unique_ptr<AnyReader>(new Holder<Arabica::SAX::xerces_wrapper<S> >()); }
