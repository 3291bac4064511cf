#include <string>
#include <SAX/ArabicaConfig.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/wrappers/saxlibxml2.hpp>
#include "SAX/wrappers/saxlibxml2.cpp"

void arx_use() { Arabica::SAX::libxml2_wrapper<std::string> r; (void)r; }
