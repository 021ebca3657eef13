#include <SAX/ArabicaConfig.hpp>
#include "SAX/wrappers/saxxerces.cpp"
