#include <string>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/io/Stream.hpp>
#include <DOM/Document.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Events/DocumentEvent.hpp>
#include <DOM/Events/EventTarget.hpp>
#include <iostream>
using namespace Arabica;
// a reader of which nothing is known; the analysis supplies its events
class arx_reader : public SAX::XMLReaderInterface<std::string, default_string_adaptor<std::string> >
{
  typedef SAX::XMLReaderInterface<std::string, default_string_adaptor<std::string> > base;
public:
  arx_reader();
  virtual ~arx_reader();
  virtual bool getFeature(const std::string& name) const;
  virtual void setFeature(const std::string& name, bool value);
  virtual void setEntityResolver(base::EntityResolverT& resolver);
  virtual base::EntityResolverT* getEntityResolver() const;
  virtual void setDTDHandler(base::DTDHandlerT& handler);
  virtual base::DTDHandlerT* getDTDHandler() const;
  virtual void setContentHandler(base::ContentHandlerT& handler);
  virtual base::ContentHandlerT* getContentHandler() const;
  virtual void setErrorHandler(base::ErrorHandlerT& handler);
  virtual base::ErrorHandlerT* getErrorHandler() const;
  virtual void setDeclHandler(base::DeclHandlerT& handler);
  virtual base::DeclHandlerT* getDeclHandler() const;
  virtual void setLexicalHandler(base::LexicalHandlerT& handler);
  virtual base::LexicalHandlerT* getLexicalHandler() const;
  virtual void parse(base::InputSourceT& input);
};
typedef SAX2DOM::Parser<std::string, nil_t, arx_reader> arx_builder;
void arx_use(std::ostream& os)
{
  DOM::Document<std::string> d = SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocument("", "x", 0);
  DOM::Node<std::string> n(d);
  os << n;
  SAX2DOM::Parser<std::string> p;
  arx_builder b;
  SAX::InputSource<std::string> is;
  b.parse(is);
  b.parse(std::string());
  b.getDocument();
  b.reset();
  (void)sizeof(DOM::CDATASection<std::string>);
}
