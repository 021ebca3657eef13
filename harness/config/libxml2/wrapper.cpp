#include <SAX/ArabicaConfig.hpp>
#include "SAX/wrappers/saxlibxml2.cpp"
