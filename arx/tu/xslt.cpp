#include <string>
#include <iostream>
#include <SAX/XMLReader.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <XPath/XPath.hpp>
#include <XSLT/XSLT.hpp>
using namespace Arabica;
void arx_use()
{
  XSLT::StylesheetCompiler<std::string> c;
  SAX::InputSource<std::string> is;
  std::unique_ptr<XSLT::Stylesheet<std::string>> s = c.compile(is);
  DOM::Node<std::string> n;
  XSLT::StreamSink<std::string> ss(std::cout);
  (void)sizeof(XSLT::DOMSink<std::string>);
  s->set_output(ss);
  s->execute(n);
}
