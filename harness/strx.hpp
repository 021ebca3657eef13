#pragma once
// W01: the same work done with std::string, std::wstring and a string class
// that has nothing in common with them gives the same result.
#include "saxscript.hpp"
#include "xsltref.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/helpers/NamespaceSupport.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/io/Stream.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <XSLT/XSLT.hpp>
#include <XML/QName.hpp>
#include <text/normalize_whitespace.hpp>

// ---------------------------------------------------------------- a string class of its own
namespace opaque {
class Str
{
  std::string s_; friend struct Adaptor;
public:
  Str() { } Str(const Str& o) : s_(o.s_) { } Str& operator=(const Str& o) { s_ = o.s_; return *this; }
  bool operator==(const Str& o) const { return s_ == o.s_; } bool operator!=(const Str& o) const { return s_ != o.s_; }
  friend bool operator<(const Str& a, const Str& b) { return a.s_ < b.s_; } friend bool operator>(const Str& a, const Str& b) { return b.s_ < a.s_; }
};
struct Adaptor : Arabica::string_adaptor_tag
{
  typedef Str string_type; typedef std::string::const_iterator const_iterator; typedef std::string::iterator mutable_iterator; typedef std::string::iterator iterator; typedef std::string::const_reverse_iterator const_reverse_iterator; typedef char value_type; typedef std::string::size_type size_type;
  static size_type npos() { return std::string::npos; }
  static const Str& empty_string() { static Str e; return e; }
  static Str make(const std::string& s) { Str r; r.s_ = s; return r; }
  template<class I> static Str construct(I f, I t) { return make(std::string(f, t)); }
  static Str construct(const char* s) { return make(s ? s : ""); }
  static Str construct(const std::string& s) { return make(s); }
  static char convert_from_utf8(char c) { return c; }
  static Str construct_from_utf8(const char* s) { return make(s ? s : ""); }
  static Str construct_from_utf8(const char* s, int n) { return make(s ? std::string(s, n) : std::string()); }
  static Str construct_from_utf16(const wchar_t* s) { return make(Arabica::default_string_adaptor<std::string>::construct_from_utf16(s)); }
  static Str construct_from_utf16(const wchar_t* s, int n) { return make(Arabica::default_string_adaptor<std::string>::construct_from_utf16(s, n)); }
  static bool empty(const Str& s) { return s.s_.empty(); }
  static size_type find(const Str& s, const Str& w) { return s.s_.find(w.s_); }
  static size_type find(const Str& s, char c) { return s.s_.find(c); }
  static size_type find(const Str& s, const Str& w, size_type f) { return s.s_.find(w.s_, f); }
  static size_type find(const Str& s, char c, size_type f) { return s.s_.find(c, f); }
  static Str substr(const Str& s, const size_type& o) { return make(s.s_.substr(o)); }
  static Str substr(const Str& s, const size_type& o, const size_type& n) { return make(s.s_.substr(o, n)); }
  static size_type length(const Str& s) { return s.s_.length(); }
  static void append(Str& s, const Str& a) { s.s_ += a.s_; }
  static void append(Str& s, const char& a) { s.s_ += a; }
  static Str concat(const Str& s, const Str& a) { return make(s.s_ + a.s_); }
  static Str concat(const Str& s, const char& a) { return make(s.s_ + a); }
  static void insert(Str& s, size_type o, const Str& a) { s.s_.insert(o, a.s_); }
  static void replace(Str& s, size_type o, size_type n, const Str& a) { s.s_.replace(o, n, a.s_); }
  static const_iterator begin(const Str& s) { return s.s_.begin(); } static mutable_iterator begin(Str& s) { return s.s_.begin(); }
  static const_iterator end(const Str& s) { return s.s_.end(); } static mutable_iterator end(Str& s) { return s.s_.end(); }
  static const_reverse_iterator rbegin(const Str& s) { return s.s_.rbegin(); }
  static std::string asStdString(const Str& s) { return s.s_; }
  static std::wstring asStdWString(const Str& s) { return Arabica::default_string_adaptor<std::string>::asStdWString(s.s_); }
};
template<class C, class T> std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& o, const Str& s) { return o << Adaptor::asStdString(s); }
}
namespace std { template<> struct less<opaque::Str> { bool operator()(const opaque::Str& a, const opaque::Str& b) const { return a < b; } }; }

namespace strx {
typedef std::string S; typedef std::vector<S> Lines;
// conversions that are not the library's
inline S n(const S& s) { return s; }
inline S n(const opaque::Str& s) { return opaque::Adaptor::asStdString(s); }
inline S n(const std::wstring& w)
{
  S r; for(wchar_t ch : w) { unsigned long u = static_cast<unsigned long>(ch);
    if(u < 0x80) r += static_cast<char>(u); else if(u < 0x800) { r += static_cast<char>(0xC0 | u >> 6); r += static_cast<char>(0x80 | (u & 0x3F)); }
    else if(u < 0x10000) { r += static_cast<char>(0xE0 | u >> 12); r += static_cast<char>(0x80 | (u >> 6 & 0x3F)); r += static_cast<char>(0x80 | (u & 0x3F)); }
    else { r += static_cast<char>(0xF0 | u >> 18); r += static_cast<char>(0x80 | (u >> 12 & 0x3F)); r += static_cast<char>(0x80 | (u >> 6 & 0x3F)); r += static_cast<char>(0x80 | (u & 0x3F)); } }
  return r;
}
inline std::wstring widen(const S& s)
{
  std::wstring r; for(size_t i = 0; i < s.size(); ) { unsigned char b = s[i++]; unsigned long u = b; int k = 0; if(b >= 0xF0) { u = b & 7; k = 3; } else if(b >= 0xE0) { u = b & 15; k = 2; } else if(b >= 0xC0) { u = b & 31; k = 1; } while(k-- && i < s.size()) u = u << 6 | (s[i++] & 0x3F); r += static_cast<wchar_t>(u); } return r;
}
template<class T> struct Make;
template<> struct Make<S> { static S of(const S& s) { return s; } };
template<> struct Make<std::wstring> { static std::wstring of(const S& s) { return widen(s); } };
template<> struct Make<opaque::Str> { static opaque::Str of(const S& s) { return opaque::Adaptor::make(s); } };

struct Op { int k; int i, j, n; S a, b, c; };
struct Job
{
  S xml; std::map<S, S> ext; saxx::Features f; bool dom = false, filters = false; Lines exprs; std::vector<Op> ops; S sheet, params, html; int indent = 2; S encoding; Lines strings; bool external = false;
};

Lines run_narrow(const Job&, int what); Lines run_wide(const Job&, int what); Lines run_opaque(const Job&, int what); Lines run_html(const Job&, bool wide);

template<class T, class A> struct Run
{
  typedef std::basic_ostringstream<typename A::value_type> Out;
  static T m(const S& s) { return Make<T>::of(s); }
  Lines out; void put(const S& s) { out.push_back(s); }

  struct Log : Arabica::SAX::DefaultHandler<T, A>
  {
    Lines& out; const Arabica::SAX::Locator<T, A>* loc = 0; bool text = false, html = false; const std::map<S, S>* ext = 0; std::vector<std::unique_ptr<std::istringstream> > streams;
    explicit Log(Lines& o) : out(o) { }
    void put(const S& s, std::initializer_list<T> a) { S r = s; for(auto& x : a) r += "|" + n(x); if(loc && s != "fatal") r += " @" + std::to_string(loc->getLineNumber()); out.push_back(r); text = false; }
    void setDocumentLocator(const Arabica::SAX::Locator<T, A>& l) override { if(html) return; loc = &l; put("locator", { l.getSystemId(), l.getPublicId() }); }
    void startDocument() override { put("startDocument", {}); }
    void endDocument() override { put("endDocument", {}); }
    void startPrefixMapping(const T& p, const T& u) override { put("map", { p, u }); }
    void endPrefixMapping(const T& p) override { put("unmap", { p }); }
    void startElement(const T& u, const T& l, const T& q, const Arabica::SAX::Attributes<T, A>& a) override
    {
      S t; for(int i = 0; i < a.getLength(); ++i) { t += " {" + n(a.getURI(i)) + "}" + n(a.getLocalName(i)) + "|" + n(a.getQName(i)) + "|" + n(a.getType(i)) + "=" + n(a.getValue(i)); if(a.getIndex(a.getQName(i)) != i) t += " (not found by name)"; }
      put("start", { u, l, q }); out.back() += t;
    }
    void endElement(const T& u, const T& l, const T& q) override { put("end", { u, l, q }); }
    void characters(const T& s) override { if(text) out.back() += n(s); else { out.push_back("characters|" + n(s)); text = true; } }
    void ignorableWhitespace(const T& s) override { put("ignorable", { s }); }
    void processingInstruction(const T& t, const T& d) override { put("pi", { t, d }); }
    void skippedEntity(const T& x) override { put("skipped", { x }); }
    void startDTD(const T& x, const T& p, const T& s) override { put("startDTD", { x, p, s }); }
    void endDTD() override { put("endDTD", {}); }
    void startEntity(const T& x) override { put("startEntity", { x }); }
    void endEntity(const T& x) override { put("endEntity", { x }); }
    void startCDATA() override { put("startCDATA", {}); }
    void endCDATA() override { put("endCDATA", {}); }
    void comment(const T& t) override { put("comment", { t }); }
    void elementDecl(const T& x, const T& mo) override { put("elementDecl", { x, mo }); }
    void attributeDecl(const T& e, const T& a, const T& t, const T& d, const T& v) override { put("attributeDecl", { e, a, t, d, v }); }
    void internalEntityDecl(const T& x, const T& v) override { put("internalEntityDecl", { x, v }); }
    void externalEntityDecl(const T& x, const T& p, const T& s) override { put("externalEntityDecl", { x, p, s }); }
    void notationDecl(const T& x, const T& p, const T& s) override { put("notationDecl", { x, p, s }); }
    void unparsedEntityDecl(const T& x, const T& p, const T& s, const T& nn) override { put("unparsedEntityDecl", { x, p, s, nn }); }
    void warning(const Arabica::SAX::SAXParseException<T, A>& e) override { put("warning", {}); out.back() += e.what(); }
    void error(const Arabica::SAX::SAXParseException<T, A>& e) override { put("error", {}); out.back() += e.what(); }
    void fatalError(const Arabica::SAX::SAXParseException<T, A>& e) override { put("fatal", {}); out.back() += e.what(); }
    Arabica::SAX::InputSource<T, A> resolveEntity(const T& p, const T& s) override
    {
      put("resolve", { p, s }); if(!ext) return Arabica::SAX::InputSource<T, A>(); auto g = ext->find(n(s)); if(g == ext->end()) return Arabica::SAX::InputSource<T, A>();
      streams.emplace_back(new std::istringstream(g->second)); Arabica::SAX::InputSource<T, A> is(*streams.back()); is.setSystemId(s); return is;
    }
    template<class R> void attach(R& r) { r.setContentHandler(*this); r.setErrorHandler(*this); r.setLexicalHandler(*this); r.setDeclHandler(*this); r.setDTDHandler(*this); r.setEntityResolver(*this); }
  };
  template<class R> void parse(R& r, const S& xml)
  {
    std::istringstream ss(xml); Arabica::SAX::InputSource<T, A> is(ss); is.setSystemId(m("http://sys/id"));
    try { r.parse(is); } catch(const std::exception& e) { put(S("exception ") + e.what()); }
  }
  void features(Arabica::SAX::XMLReaderInterface<T, A>& r, const Job& j)
  {
    Arabica::SAX::FeatureNames<T, A> fn; r.setFeature(fn.namespaces, j.f.ns); r.setFeature(fn.namespace_prefixes, j.f.prefixes); r.setFeature(fn.external_general, j.f.external); r.setFeature(fn.external_parameter, j.f.external);
  }
  void sax(const Job& j)
  {
    Arabica::SAX::XMLReader<T, A> r; features(r, j); Log l(out); l.ext = &j.ext; l.attach(r); parse(r, j.xml);
    try { r.getFeature(m("http://no/such")); } catch(const std::exception& e) { put(e.what()); }
  }
  // the writer works with standard strings only
  void write(const Job& j, std::true_type) { Lines r = run_narrow(j, 7); out.insert(out.end(), r.begin(), r.end()); }
  void write(const Job& j, std::false_type)
  {
    { Out o; Arabica::SAX::XMLReader<T, A> r; features(r, j); Log l(out); Arabica::SAX::Writer<T, A> w(o, r, m(j.encoding), j.indent); l.ext = &j.ext; w.setErrorHandler(l); w.setEntityResolver(l); w.setContentHandler(l); parse(w, j.xml); put("written " + n(o.str())); }
  }
  void filters(const Job& j)
  {
    write(j, std::is_same<T, opaque::Str>());
    { Out o; Arabica::SAX::XMLReader<T, A> r; features(r, j); Log l(out); Arabica::SAX::WhitespaceStripper<T, A> ws; Arabica::SAX::TextCoalescer<T, A> tc; Arabica::SAX::XMLBaseTracker<T, A> xb; Arabica::SAX::PYXWriter<T, A> p(o); ws.setParent(r); tc.setParent(ws); xb.setParent(tc); p.setParent(xb); l.ext = &j.ext; p.setErrorHandler(l); p.setEntityResolver(l); p.setContentHandler(l); parse(p, j.xml); put("pyx " + n(o.str())); }
  }

  typedef Arabica::DOM::Node<T, A> Node; typedef Arabica::DOM::Element<T, A> Element; typedef Arabica::DOM::Document<T, A> Document;
  void walk(const Node& x, int depth)
  {
    if(x == 0) { put("null"); return; }
    S r(depth, ' '); r += std::to_string(x.getNodeType()) + " " + n(x.getNodeName()) + "|" + n(x.getNamespaceURI()) + "|" + n(x.getPrefix()) + "|" + n(x.getLocalName()) + "|" + (x.getNodeType() == Node::ATTRIBUTE_NODE ? n(x.getNodeValue()) : x.hasChildNodes() ? S() : n(x.getNodeValue()));
    if(x.getNodeType() == Node::ELEMENT_NODE) { std::multiset<S> as; Arabica::DOM::NamedNodeMap<T, A> a = x.getAttributes(); for(unsigned i = 0; i < a.getLength(); ++i) { Node t = a.item(i); as.insert(" @" + n(t.getNodeName()) + "|" + n(t.getNamespaceURI()) + "|" + n(t.getLocalName()) + "=" + n(t.getNodeValue())); } for(auto& s : as) r += s; }
    put(r);
    if(x.getNodeType() == Node::DOCUMENT_TYPE_NODE) { Arabica::DOM::DocumentType<T, A> d(x); put(n(d.getPublicId()) + "|" + n(d.getSystemId()) + "|" + n(d.getInternalSubset()) + "|" + std::to_string(d.getEntities().getLength()) + "|" + std::to_string(d.getNotations().getLength())); }
    for(Node k = x.getFirstChild(); k != 0; k = k.getNextSibling()) walk(k, depth + 1);
  }
  Document load(const S& xml, const Job* j = 0)
  {
    Arabica::SAX2DOM::Parser<T, A> p; Log l(out); if(j) l.ext = &j->ext; p.setErrorHandler(l); p.setEntityResolver(l); parse(p, xml); return p.getDocument();
  }
  void collect(Node x, std::vector<Node>& v) { v.push_back(x); for(Node k = x.getFirstChild(); k != 0; k = k.getNextSibling()) collect(k, v); }
  void edit(Document d, const Op& o)
  {
    std::vector<Node> v; collect(d, v); Node x = v[o.i % v.size()], y = v[o.j % v.size()]; typedef typename Node::Type Ty; (void)sizeof(Ty); int t = x.getNodeType();
    bool el = t == Node::ELEMENT_NODE, ch = t == Node::TEXT_NODE || t == Node::CDATA_SECTION_NODE || t == Node::COMMENT_NODE;
    switch(o.k)
    {
      case 0: if(el) Element(x).setAttribute(m(o.a), m(o.b)); break;
      case 1: if(el) Element(x).setAttributeNS(m(o.c), m(o.a), m(o.b)); break;
      case 2: if(el) { Element(x).removeAttribute(m(o.a)); } break;
      case 3: if(el) put("attribute " + n(Element(x).getAttribute(m(o.a))) + "|" + n(Element(x).getAttributeNS(m(o.c), m(o.a)))); break;
      case 4: x.appendChild(d.createElementNS(m(o.c), m(o.a))); break;
      case 5: x.appendChild(d.createTextNode(m(o.b))); break;
      case 6: x.appendChild(d.createComment(m(o.b))); break;
      case 7: x.appendChild(d.createProcessingInstruction(m(o.a), m(o.b))); break;
      case 8: x.appendChild(d.createCDATASection(m(o.b))); break;
      case 9: if(ch) { Arabica::DOM::CharacterData<T, A> cd(x); cd.insertData(o.n, m(o.b)); put("length " + std::to_string(cd.getLength())); } break;
      case 10: if(ch) Arabica::DOM::CharacterData<T, A>(x).deleteData(o.n, o.j % 4); break;
      case 11: if(ch) Arabica::DOM::CharacterData<T, A>(x).replaceData(o.n, o.j % 4, m(o.b)); break;
      case 12: if(ch) put("substring " + n(Arabica::DOM::CharacterData<T, A>(x).substringData(o.n, o.j % 4))); break;
      case 13: if(t == Node::TEXT_NODE) Arabica::DOM::Text<T, A>(x).splitText(o.n); break;
      case 14: d.normalize(); break;
      case 15: x.appendChild(y.cloneNode(o.n % 2)); break;
      case 16: x.setPrefix(m(o.a)); break;
      case 17: x.setNodeValue(m(o.b)); break;
      case 18: put("found " + std::to_string(d.getElementsByTagName(m(o.a)).getLength()) + " " + std::to_string(d.getElementsByTagNameNS(m(o.c), m(o.a)).getLength())); break;
      case 19: put("supported " + std::to_string(d.getImplementation().hasFeature(m(o.a), m(o.b)))); break;
      case 20: x.appendChild(d.createEntityReference(m(o.a))); break;
      case 21: if(x != d) x.getParentNode().removeChild(x); break;
      case 22: { Element e = d.getElementById(m(o.b)); put(e == 0 ? S("no such id") : "id " + n(e.getNodeName())); break; }
      default: x.insertBefore(y, Node()); break;
    }
  }
  void dom(const Job& j)
  {
    Document d = load(j.xml, &j); if(d == 0) { put("no document"); return; }
    walk(d, 0);
    for(auto& o : j.ops) { try { edit(d, o); } catch(const Arabica::DOM::DOMException& e) { put("DOMException " + std::to_string(e.code()) + " " + e.what()); } }
    if(!j.ops.empty()) walk(d, 0);
    Out o; try { o << static_cast<Node>(d); put("streamed " + n(o.str())); } catch(const std::exception& e) { put(S("not streamed: ") + e.what()); }
  }
  void xpath(const Job& j)
  {
    Document d = load(j.xml); if(d == 0) return; Arabica::XPath::XPath<T, A> x; Arabica::XPath::StandardNamespaceContext<T, A> nc;
    for(auto& b : xw::std_bindings()) nc.addNamespaceDeclaration(m(b.second), m(b.first));
    x.setNamespaceContext(nc);
    for(auto& e : j.exprs)
    {
      try
      {
        Arabica::XPath::XPathValue<T, A> v = x.evaluate(m(e), d); S r = std::to_string(static_cast<int>(v.type())) + " " + n(v.asString()) + " " + std::to_string(v.asNumber()) + (v.asBool() ? " true" : " false");
        if(v.type() == Arabica::XPath::NODE_SET) { const Arabica::XPath::NodeSet<T, A>& ns = v.asNodeSet(); r += " " + std::to_string(ns.size()); for(size_t i = 0; i < ns.size(); ++i) r += " " + n(ns[i].getNodeName()) + "=" + n(ns[i].getNodeValue()); }
        put(r);
      }
      catch(const std::exception& ex) { put(S("refused: ") + ex.what()); }
      try { auto mt = x.compile_match(m(e)); S r = "match"; Arabica::XPath::ExecutionContext<T, A> xc; std::vector<Node> v; collect(d, v); for(auto& k : v) { bool any = false; for(auto& t : mt) any = any || t.evaluate(k, xc); r += any ? "1" : "0"; } r += " "; for(auto& t : mt) r += " " + std::to_string(t.priority()); put(r); } catch(const std::exception&) { put("not a pattern"); }
      try { auto t = x.compile_attribute_value_template(m("-{" + e + "}-")); put("avt " + n(t.evaluateAsString(d))); } catch(const std::exception&) { put("not a template"); }
    }
  }
  void xslt(const Job& j)
  {
    Document d = load(j.xml); if(d == 0) return; Arabica::XSLT::StylesheetCompiler<T, A> comp; std::istringstream in(j.sheet); Arabica::SAX::InputSource<T, A> is(in);
    std::unique_ptr<Arabica::XSLT::Stylesheet<T, A> > s = comp.compile(is);
    if(!s) { put("refused: " + comp.error()); return; }
    typedef Arabica::XSLT::StylesheetConstant<T, A> SC; (void)sizeof(SC);
    for(int k = 0; k < 2; ++k)
    {
      Out o, err; Arabica::XSLT::DOMSink<T, A> ds; Arabica::XSLT::StreamSink<T, A> ss(o); if(k) s->set_output(ss); else s->set_output(ds); s->set_error_output(err);
      if(!j.params.empty()) s->set_parameter(m("prm"), m(j.params));
      try { s->execute(d); } catch(const std::exception& e) { put(S("stopped: ") + e.what()); }
      if(k) put("output " + n(o.str())); else if(ds.node() != 0) walk(ds.node(), 0); else put("nothing");
      put("messages " + n(err.str()));
    }
  }
  // and so does the HTML parser, which has a locator for std::string only; its header can be included only once in a program
  void html(const Job& j) { Lines r = run_html(j, std::is_same<T, std::wstring>()); out.insert(out.end(), r.begin(), r.end()); }
  void helpers(const Job& j)
  {
    Arabica::SAX::NamespaceSupport<T, A> ns; int k = 0;
    for(auto& s : j.strings)
    {
      T t = m(s); put(n(Arabica::text::normalize_whitespace<T, A>(t)));
      if(n(A::construct_from_utf8(s.c_str())) != s || n(A::construct_from_utf8(s.c_str(), static_cast<int>(s.size()))) != s) put("construct_from_utf8"); if(A::asStdString(t) != s) put("asStdString"); if(A::asStdWString(t) != widen(s)) put("asStdWString"); if(n(A::construct_from_utf16(widen(s).c_str())) != s) put("construct_from_utf16"); if(n(A::construct_from_utf16(widen(s).c_str(), static_cast<int>(widen(s).size()))) != s) put("construct_from_utf16 with a length");
      if(k++ % 3 == 0) ns.pushContext(); S p = s.substr(0, s.find(':')); if(!p.empty()) { bool ok = ns.declarePrefix(m(p), t); put(ok ? "declared" : "not declared"); put(n(ns.getURI(m(p)))); bool letters = true; for(wchar_t ch : widen(s)) letters = letters && (ch < 0x80 || ch == 0xE9 || ch == 0x100 || ch == 0x4E2D);   // every byte counts as a letter in a narrow string
        if(letters) try { auto nm = ns.processName(t, k % 2); put(n(nm.namespaceUri()) + "|" + n(nm.localName()) + "|" + n(nm.rawName())); } catch(const std::exception& e) { put(e.what()); } }
      auto nm = ns.processName(m("a"), false); put(n(nm.namespaceUri()) + "|" + n(nm.localName()));
    }
  }
  Lines all(const Job& j, int what) { switch(what) { case 0: sax(j); break; case 1: filters(j); break; case 2: dom(j); break; case 3: xpath(j); break; case 4: xslt(j); break; case 7: write(j, std::is_same<T, opaque::Str>()); break; case 5: html(j); break; default: helpers(j); } return out; }
};

} // namespace strx
