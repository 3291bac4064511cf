#include <string>
#include <SAX/ArabicaConfig.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/wrappers/saxxerces.hpp>
#include "SAX/wrappers/saxxerces.cpp"

void arx_use() { Arabica::SAX::xerces_wrapper<std::string> r; (void)r; }
