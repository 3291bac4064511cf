#include <string>
#include <SAX/ArabicaConfig.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/wrappers/saxexpat.hpp>
#include "SAX/wrappers/saxexpat.cpp"
#include "SAX/helpers/InputSourceResolver.cpp"
void arx_use() { Arabica::SAX::expat_wrapper<std::string> r; (void)r; }
