// A reader that plays a list of events, and scripts of arbitrary but properly nested ones.
#pragma once
#include "saxx.hpp"
#include <SAX/helpers/AttributesImpl.hpp>

namespace saxx {

enum EvKind { E_SDOC, E_EDOC, E_MAP, E_UNMAP, E_START, E_END, E_CHARS, E_IGN, E_PI, E_SKIP, E_SDTD, E_EDTD, E_SENT, E_EENT, E_SCD, E_ECD, E_COMMENT,
              E_ELDECL, E_ATTDECL, E_INTDECL, E_EXTDECL, E_NOT, E_UNP, E_WARN, E_ERR, E_RESOLVE };
struct Ev { EvKind k; std::vector<S> a; Arabica::SAX::AttributesImpl<S> atts; };

// one line per call, nothing merged
class Log : public Arabica::SAX::DefaultHandler<S>
{
  void put(const S& s, std::initializer_list<S> a) { S r = s; for(auto& x : a) r += "|" + x; lines.push_back(r); if(after) after(); }
public:
  std::vector<S> lines; std::function<void()> after; S locator_id;
  void setDocumentLocator(const Arabica::SAX::Locator<S>& l) override { locator_id = l.getSystemId(); put("locator", { locator_id }); }
  void startDocument() override { put("startDocument", {}); }
  void endDocument() override { put("endDocument", {}); }
  void startPrefixMapping(const S& p, const S& u) override { put("map", { p, u }); }
  void endPrefixMapping(const S& p) override { put("unmap", { p }); }
  void startElement(const S& u, const S& l, const S& q, const Attributes& a) override
  { S t; for(int i = 0; i < a.getLength(); ++i) t += " {" + a.getURI(i) + "}" + a.getLocalName(i) + "|" + a.getQName(i) + "|" + a.getType(i) + "=" + a.getValue(i); put("start", { u, l, q, t }); }
  void endElement(const S& u, const S& l, const S& q) override { put("end", { u, l, q }); }
  void characters(const S& s) override { put("characters", { s }); }
  void ignorableWhitespace(const S& s) override { put("ignorable", { s }); }
  void processingInstruction(const S& t, const S& d) override { put("pi", { t, d }); }
  void skippedEntity(const S& n) override { put("skipped", { n }); }
  void startDTD(const S& n, const S& p, const S& s) override { put("startDTD", { n, p, s }); }
  void endDTD() override { put("endDTD", {}); }
  void startEntity(const S& n) override { put("startEntity", { n }); }
  void endEntity(const S& n) override { put("endEntity", { n }); }
  void startCDATA() override { put("startCDATA", {}); }
  void endCDATA() override { put("endCDATA", {}); }
  void comment(const S& t) override { put("comment", { t }); }
  void elementDecl(const S& n, const S& m) override { put("elementDecl", { n, m }); }
  void attributeDecl(const S& e, const S& a, const S& t, const S& d, const S& v) override { put("attributeDecl", { e, a, t, d, v }); }
  void internalEntityDecl(const S& n, const S& v) override { put("internalEntityDecl", { n, v }); }
  void externalEntityDecl(const S& n, const S& p, const S& s) override { put("externalEntityDecl", { n, p, s }); }
  void notationDecl(const S& n, const S& p, const S& s) override { put("notationDecl", { n, p, s }); }
  void unparsedEntityDecl(const S& n, const S& p, const S& s, const S& nn) override { put("unparsedEntityDecl", { n, p, s, nn }); }
  void warning(const Arabica::SAX::SAXParseException<S>& e) override { put("warning", { e.what() }); }
  void error(const Arabica::SAX::SAXParseException<S>& e) override { put("error", { e.what() }); }
  void fatalError(const Arabica::SAX::SAXParseException<S>& e) override { put("fatal", { e.what() }); }
  InputSource resolveEntity(const S& p, const S& s) override { put("resolve", { p, s }); return InputSource("resolved:" + s); }
  template<class R> void attach(R& r)
  { r.setContentHandler(*this); r.setErrorHandler(*this); r.setLexicalHandler(*this); r.setDeclHandler(*this); r.setDTDHandler(*this); r.setEntityResolver(*this); }
};

struct Loc : Arabica::SAX::Locator<S>
{
  S sys; S getPublicId() const override { return ""; } S getSystemId() const override { return sys; } size_t getLineNumber() const override { return 1; } size_t getColumnNumber() const override { return 1; }
};

class ScriptReader : public Arabica::SAX::XMLReaderInterface<S, Arabica::default_string_adaptor<S> >
{
  EntityResolverT* er = 0; DTDHandlerT* dh = 0; ContentHandlerT* ch = 0; ErrorHandlerT* eh = 0; DeclHandlerT* kh = 0; LexicalHandlerT* lh = 0;
public:
  std::vector<Ev> script; std::map<S, bool> features; size_t stop_at = size_t(-1); Loc loc; S parsed; S resolved; S sys;
  bool getFeature(const S& n) const override { auto f = features.find(n); if(f == features.end()) throw Arabica::SAX::SAXNotRecognizedException(n); return f->second; }
  void setFeature(const S& n, bool v) override { if(n == "bad") throw Arabica::SAX::SAXNotSupportedException(n); features[n] = v; }
  void setEntityResolver(EntityResolverT& h) override { er = &h; }
  EntityResolverT* getEntityResolver() const override { return er; }
  void setDTDHandler(DTDHandlerT& h) override { dh = &h; }
  DTDHandlerT* getDTDHandler() const override { return dh; }
  void setContentHandler(ContentHandlerT& h) override { ch = &h; }
  ContentHandlerT* getContentHandler() const override { return ch; }
  void setErrorHandler(ErrorHandlerT& h) override { eh = &h; }
  ErrorHandlerT* getErrorHandler() const override { return eh; }
  void setDeclHandler(DeclHandlerT& h) override { kh = &h; }
  DeclHandlerT* getDeclHandler() const override { return kh; }
  void setLexicalHandler(LexicalHandlerT& h) override { lh = &h; }
  LexicalHandlerT* getLexicalHandler() const override { return lh; }
  void parse(InputSource& is) override
  {
    parsed = is.getSystemId(); loc.sys = sys;
    if(ch) ch->setDocumentLocator(loc);
    for(size_t i = 0; i < script.size(); ++i) { if(i == stop_at) throw Thrown(); play(script[i]); }
  }
  void play(const Ev& e)
  {
    const std::vector<S>& a = e.a; typedef Arabica::SAX::SAXParseException<S> X;
    switch(e.k)
    {
      case E_SDOC: if(ch) ch->startDocument(); break; case E_EDOC: if(ch) ch->endDocument(); break;
      case E_MAP: if(ch) ch->startPrefixMapping(a[0], a[1]); break; case E_UNMAP: if(ch) ch->endPrefixMapping(a[0]); break;
      case E_START: if(ch) ch->startElement(a[0], a[1], a[2], e.atts); break; case E_END: if(ch) ch->endElement(a[0], a[1], a[2]); break;
      case E_CHARS: if(ch) ch->characters(a[0]); break; case E_IGN: if(ch) ch->ignorableWhitespace(a[0]); break;
      case E_PI: if(ch) ch->processingInstruction(a[0], a[1]); break; case E_SKIP: if(ch) ch->skippedEntity(a[0]); break;
      case E_SDTD: if(lh) lh->startDTD(a[0], a[1], a[2]); break; case E_EDTD: if(lh) lh->endDTD(); break;
      case E_SENT: if(lh) lh->startEntity(a[0]); break; case E_EENT: if(lh) lh->endEntity(a[0]); break;
      case E_SCD: if(lh) lh->startCDATA(); break; case E_ECD: if(lh) lh->endCDATA(); break; case E_COMMENT: if(lh) lh->comment(a[0]); break;
      case E_ELDECL: if(kh) kh->elementDecl(a[0], a[1]); break; case E_ATTDECL: if(kh) kh->attributeDecl(a[0], a[1], a[2], a[3], a[4]); break;
      case E_INTDECL: if(kh) kh->internalEntityDecl(a[0], a[1]); break; case E_EXTDECL: if(kh) kh->externalEntityDecl(a[0], a[1], a[2]); break;
      case E_NOT: if(dh) dh->notationDecl(a[0], a[1], a[2]); break; case E_UNP: if(dh) dh->unparsedEntityDecl(a[0], a[1], a[2], a[3]); break;
      case E_WARN: if(eh) eh->warning(X(a[0], "p", "s", 3, 4)); break; case E_ERR: if(eh) eh->error(X(a[0], "p", "s", 3, 4)); break;
      case E_RESOLVE: if(er) resolved = er->resolveEntity(a[0], a[1]).getSystemId(); break;
    }
  }
};

// turns a model document into calls, text in arbitrary pieces
struct Scripter
{
  pbt::Ctx& c; std::vector<Ev>& out; bool xmlns_atts, ignorable, extras, split_cdata = true;
  Scripter(pbt::Ctx& c_, std::vector<Ev>& o) : c(c_), out(o), xmlns_atts(false), ignorable(false), extras(false) { }
  void ev(EvKind k, std::vector<S> a = {}) { Ev e; e.k = k; e.a = a; out.push_back(e); }
  void text(const S& s)
  {
    size_t at = 0;
    while(at < s.size())
    {
      size_t n = c.chance(1, 2) ? s.size() - at : 1 + c.below(s.size() - at);
      while(at + n < s.size() && (static_cast<unsigned char>(s[at+n]) & 0xC0) == 0x80) ++n;
      S p = s.substr(at, n); at += n;
      if(extras && c.chance(1, 10)) ev(E_CHARS, { "" });
      if(ignorable && p.find_first_not_of(" \t\r\n") == S::npos && c.flip()) ev(E_IGN, { p }); else ev(E_CHARS, { p });
    }
  }
  void node(const model::Node& n)
  {
    if(extras && c.chance(1, 15)) switch(c.below(5)) { case 0: ev(E_SKIP, { "skip" }); break; case 1: ev(E_WARN, { "warn" }); break; case 2: ev(E_ERR, { "err" }); break; case 3: ev(E_RESOLVE, { "pub", "sys" }); break; default: ev(E_SENT, { "ent" }); ev(E_EENT, { "ent" }); }
    switch(n.kind)
    {
      case model::TEXT: text(n.value); break;
      case model::CDATA: ev(E_SCD); text(n.value); ev(E_ECD); break;
      case model::COMMENT: ev(E_COMMENT, { n.value }); break;
      case model::PI: ev(E_PI, { n.local, n.value }); break;
      case model::ELEM:
      {
        for(auto& d : n.ns) ev(E_MAP, { d.first, d.second });
        Ev e; e.k = E_START; e.a = { n.uri, n.local, n.qname() };
        if(xmlns_atts) for(auto& d : n.ns) e.atts.addAttribute("", "", d.first.empty() ? S("xmlns") : "xmlns:" + d.first, "CDATA", d.second);
        for(auto& a : n.attrs) e.atts.addAttribute(a.uri, a.local, a.qname(), "CDATA", a.value);
        out.push_back(e);
        for(auto& k : n.kids) node(*k);
        ev(E_END, { n.uri, n.local, n.qname() });
        for(size_t i = n.ns.size(); i--; ) ev(E_UNMAP, { n.ns[i].first });
        break;
      }
      default: for(auto& k : n.kids) node(*k);
    }
  }
  void doc(const model::Node& m) { ev(E_SDOC); if(extras && c.chance(1, 4)) dtd(m); for(auto& k : m.kids) node(*k); ev(E_EDOC); }
  void dtd(const model::Node& m)
  {
    ev(E_SDTD, { m.root_elem()->qname(), c.pick({ "", "pub" }), c.pick({ "", "sys" }) });
    c.list(0, 4, [&](int) {
      switch(c.below(8)) {
        case 0: ev(E_ELDECL, { "a", "ANY" }); break; case 1: ev(E_ATTDECL, { "a", "b", "CDATA", "#IMPLIED", "" }); break; case 2: ev(E_INTDECL, { "e", "v" }); break;
        case 3: ev(E_EXTDECL, { "x", "p", "s" }); break; case 4: ev(E_NOT, { "n", "p", "s" }); break; case 5: ev(E_UNP, { "u", "p", "s", "n" }); break; case 6: ev(E_COMMENT, { "c" }); break;
        default: ev(E_SENT, { "[dtd]" }); ev(E_ELDECL, { "b", "EMPTY" }); ev(E_EENT, { "[dtd]" }); } });
    ev(E_EDTD);
  }
};

} // namespace saxx
