#include <string>
#include <iostream>
#include <io/uri.hpp>
#include <io/convert_adaptor.hpp>
#include <io/convertstream.hpp>
#include <io/socket_stream.hpp>
#include <convert/base64codecvt.hpp>
#include <convert/rot13codecvt.hpp>
#include <convert/utf8ucs2codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf16utf8codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <convert/utf8iso88591codecvt.hpp>
#include "convert/base64codecvt.cpp"
#include "convert/rot13codecvt.cpp"
#include "convert/utf8ucs2codecvt.cpp"
#include "convert/ucs2utf8codecvt.cpp"
#include "convert/utf16utf8codecvt.cpp"
#include "convert/utf16beucs2codecvt.cpp"
#include "convert/utf16leucs2codecvt.cpp"
#include "convert/iso88591utf8codecvt.cpp"
#include "convert/utf8iso88591codecvt.cpp"
#include "convert/impl/ucs2_utf16.cpp"
#include "convert/impl/ucs2_utf8.cpp"
#include "io/uri.cpp"
#include "XML/XMLCharacterClasses.cpp"
#include "taggle/Schema.cpp"
#include <XML/QName.hpp>
#include <XML/escaper.hpp>
#include <XML/strings.hpp>
#include <text/normalize_whitespace.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <iterator>
using namespace Arabica;
typedef Arabica::io::iconvert_adaptor<wchar_t, std::char_traits<wchar_t>, char> ica;
typedef Arabica::io::oconvert_adaptor<wchar_t, std::char_traits<wchar_t>, char> oca;
template class Arabica::io::convert_bufadaptor<wchar_t, std::char_traits<wchar_t>, char, std::char_traits<char>>;
template class Arabica::io::basic_socketbuf<char, std::char_traits<char>>;
void arx_use() {
  std::string s; std::wstring w;
  typedef default_string_adaptor<std::string> SA;
  typedef default_string_adaptor<std::wstring> WSA;
  XML::is_ncname<SA>(s); XML::is_qname<SA>(s);
  XML::is_ncname<WSA>(w); XML::is_qname<WSA>(w);
  XML::text_escaper<char> te(std::cout); te('c');
  XML::attribute_escaper<char> ae(std::cout); ae('c');
  XML::text_escaper<wchar_t> wte(std::wcout); wte(L'c');
  XML::attribute_escaper<wchar_t> wae(std::wcout); wae(L'c');
  (void)sizeof(XML::QualifiedName<std::string>);
  text::normalize_whitespace<std::string, SA>(s);
  (void)sizeof(ica); (void)sizeof(oca);
}
