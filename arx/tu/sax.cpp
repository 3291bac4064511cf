#include <string>
#include <iostream>
#include <SAX/XMLReader.hpp>
#include <SAX/XMLFilter.hpp>
#include <SAX/helpers/XMLFilterImpl.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/AttributeDefaults.hpp>
#include <SAX/helpers/AttributeTypes.hpp>
#include <SAX/helpers/NamespaceSupport.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <SAX/helpers/InputSourceResolver.hpp>
#include <SAX/helpers/XMLBaseSupport.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <XML/QName.hpp>
#include <XML/escaper.hpp>
#include <XML/strings.hpp>
#include <text/normalize_whitespace.hpp>
using namespace Arabica;
void arx_use()
{
  SAX::XMLReader<std::string> r;
  SAX::NamespaceTracker<std::string> nt;
  SAX::PYXWriter<std::string> pw(std::cout);
  SAX::TextCoalescer<std::string> tc;
  SAX::WhitespaceStripper<std::string> ws;
  SAX::Writer<std::string> wr(std::cout);
  SAX::XMLBaseTracker<std::string> xb;
  SAX::CatchErrorHandler<std::string> ceh;
  SAX::AttributesImpl<std::string> ai;
  SAX::XMLFilterImpl<std::string> fi;
  (void)sizeof(SAX::NamespaceSupport<std::string>);
  (void)sizeof(XML::QualifiedName<std::string>);
}
