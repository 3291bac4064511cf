#include <string>
#include <iostream>
#include <SAX/XMLReader.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <XPath/XPath.hpp>
using namespace Arabica;
// an expression whose value the analysis provides
struct arx_operand : XPath::XPathExpression_impl<std::string, default_string_adaptor<std::string> >
{
  typedef default_string_adaptor<std::string> A;
  virtual XPath::ValueType type() const;
  using XPath::XPathExpression_impl<std::string, A>::evaluate;
  virtual XPath::XPathValue<std::string, A> evaluate(const DOM::Node<std::string, A>&, const XPath::ExecutionContext<std::string, A>&) const;
};
void arx_use()
{
  XPath::XPath<std::string> p;
  DOM::Node<std::string> n;
  p.compile("x").evaluate(n);
  p.compile_expr("x"); p.compile_match("x"); p.compile_attribute_value_template("x");
  p.evaluate("x", n);
  arx_operand* o = 0; o->type(); XPath::ExecutionContext<std::string> c; o->evaluate(n, c);
  XPath::NodeSetValue<std::string>::createValue(XPath::NodeSet<std::string>()); XPath::StringValue<std::string>::createValue("x");
  XPath::BoolValue<std::string>::createValue(true); XPath::NumericValue<std::string>::createValue(1);
}
