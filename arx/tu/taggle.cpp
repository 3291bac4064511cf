#include <string>
#include <iostream>
#include <Taggle/Taggle.hpp>
using namespace Arabica;
void arx_use() { SAX::Taggle<std::string> t; }
