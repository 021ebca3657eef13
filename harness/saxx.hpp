// Recording SAX events, and generating documents together with the events they stand for.
#pragma once
#include "model.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <SAX/InputSource.hpp>
#include <SAX/SAXParseException.hpp>
#include <sstream>
#include <stdexcept>

namespace saxx {

typedef std::string S;
typedef Arabica::SAX::Attributes<S> Attributes;
typedef Arabica::SAX::InputSource<S> InputSource;

struct Thrown : std::runtime_error { Thrown() : std::runtime_error("thrown by a handler") { } };

inline S esc(const S& s) { return pbt::esc(s); }

// how attributes are written down, wherever they come from
inline S attr_line(const S& uri, const S& local, const S& q, const S& v) { return "{" + uri + "}" + local + "|" + q + "=" + v; }

class Recorder : public Arabica::SAX::DefaultHandler<S>
{
public:
  std::vector<S> ev;                 // adjacent character data merged, runs of prefix mappings sorted
  std::vector<S> bad;                // breaches of nesting, inconsistent attribute look-ups
  int errors = 0, fatals = 0; std::vector<size_t> fatal_lines, element_lines; S messages;
  int throw_at = -1, seen = 0; bool keep_types = false;
  bool keep_cdata = true;
  std::map<S, S> entities;           // what the entity resolver knows
  std::vector<S> raw;                // one entry per call, nothing merged
  size_t fatal_at = 0;
private:
  const Arabica::SAX::Locator<S>* loc_ = 0;
  std::vector<S> open_; std::vector<std::vector<S> > scopes_; std::vector<S> pending_, ending_;
  int state_ = 0; bool cdata_ = false, dtd_ = false, root_ = false; std::vector<S> ent_;
  bool chars_ = false;
  void tick() { if(throw_at >= 0 && seen++ == throw_at) throw Thrown(); }
  void oops(const S& s) { bad.push_back(s); }
  void mark(const S& s, bool is_end_mapping = false)
  {
    tick(); raw.push_back(s);
    if(state_ != 1) oops("event outside startDocument/endDocument: " + s);
    if(!ending_.empty() && !is_end_mapping) flush_ending();
  }
  void flush_ending()
  {
    // the mappings ended are those the element ended had started
    std::sort(ending_.begin(), ending_.end()); std::vector<S> want; if(!scopes_.empty()) { want = scopes_.back(); scopes_.pop_back(); }
    std::sort(want.begin(), want.end()); if(want != ending_) oops("endPrefixMapping does not match startPrefixMapping");
    for(auto& p : ending_) ev.push_back("unmap " + p);
    ending_.clear();
  }
  void put(const S& s) { ev.push_back(s); chars_ = false; }
public:
  const Arabica::SAX::Locator<S>* locator() const { return loc_; }
  void setDocumentLocator(const Arabica::SAX::Locator<S>& l) override { loc_ = &l; if(state_ == 1) oops("setDocumentLocator late"); }
  void startDocument() override { if(state_ != 0) oops("startDocument twice"); state_ = 1; tick(); raw.push_back("startDocument"); put("startDocument"); }
  void endDocument() override
  {
    tick(); raw.push_back("endDocument"); if(state_ != 1) oops("endDocument out of turn"); if(!ending_.empty()) flush_ending(); state_ = 2; put("endDocument");
  }
  void startPrefixMapping(const S& p, const S& u) override
  { mark("map " + p); for(auto& q : pending_) if(q == p) oops("prefix mapped twice: " + p); pending_.push_back(p);
    put("map " + p + "=" + u); size_t n = pending_.size(); std::sort(ev.end() - n, ev.end()); }
  void endPrefixMapping(const S& p) override { mark("unmap " + p, true); ending_.push_back(p); chars_ = false; }
  bool plain_xmlns = false, qnames_only = false;   // the expanded names of declarations, or of all attributes, are left aside
  S atts(const Attributes& a) const
  {
    std::vector<S> v; for(int i = 0; i < a.getLength(); ++i) { S q = a.getQName(i); bool decl = qnames_only || plain_xmlns && (q == "xmlns" || q.compare(0, 6, "xmlns:") == 0); v.push_back(attr_line(decl ? S() : a.getURI(i), decl ? S() : a.getLocalName(i), q, a.getValue(i))); }
    std::sort(v.begin(), v.end()); S r; for(auto& s : v) r += " " + s; return r;
  }
  void startElement(const S& u, const S& l, const S& q, const Attributes& a) override
  {
    mark("start " + q);
    if(open_.empty() && root_) oops("second root element"); root_ = true;
    if(cdata_) oops("element in a CDATA section");
    if(dtd_) oops("element in the DTD");
    for(int i = 0; i < a.getLength(); ++i)
    {
      if(a.getValue(a.getQName(i)) != a.getValue(i) || a.getIndex(a.getQName(i)) != i) oops("attribute not found by its qualified name " + a.getQName(i));
      if(!errors && !a.getLocalName(i).empty() && (a.getIndex(a.getURI(i), a.getLocalName(i)) != i || a.getValue(a.getURI(i), a.getLocalName(i)) != a.getValue(i))) oops("attribute not found by its name " + a.getQName(i));
      for(int j = 0; j < i; ++j) if(a.getQName(i) == a.getQName(j)) oops("attribute twice: " + a.getQName(i));
    }
    if(loc_) element_lines.push_back(loc_->getLineNumber());
    open_.push_back("{" + u + "}" + l + "|" + q); if(!pending_.empty() || true) { if(!pending_.empty()) { scopes_.push_back(pending_); open_.back() += "\x01"; } pending_.clear(); }
    put("start {" + u + "}" + l + "|" + q + atts(a));
  }
  void endElement(const S& u, const S& l, const S& q) override
  {
    mark("end " + q); S n = "{" + u + "}" + l + "|" + q;
    if(open_.empty()) oops("end without start " + n);
    else
    {
      bool mapped = open_.back().back() == '\x01'; S top = mapped ? open_.back().substr(0, open_.back().size() - 1) : open_.back();
      if(top != n) oops("end of " + n + " closes " + top);
      open_.pop_back(); if(cdata_) oops("end of element in a CDATA section"); (void)mapped;
    }
    put("end " + n);
  }
  void characters(const S& s) override
  {
    mark("characters " + s);
    if(open_.empty()) oops("characters outside the root element: " + esc(s));
    if(s.empty()) return;
    if(chars_) ev.back() += s; else { ev.push_back("characters " + s); chars_ = true; }
  }
  void ignorableWhitespace(const S& s) override { mark("ignorable " + s); put("ignorable " + s); }
  void processingInstruction(const S& t, const S& d) override { mark("pi " + t); if(cdata_) oops("instruction in CDATA"); put("pi " + t + "|" + d); }
  void skippedEntity(const S& n) override { mark("skipped " + n); put("skipped " + n); }
  void startDTD(const S& n, const S& p, const S& s) override { mark("startDTD"); if(dtd_ || root_) oops("DTD out of place"); dtd_ = true; put("startDTD " + n + "|" + p + "|" + s); }
  void endDTD() override { mark("endDTD"); if(!dtd_) oops("endDTD"); dtd_ = false; put("endDTD"); }
  void startEntity(const S& n) override { mark("startEntity " + n); ent_.push_back(n); put("startEntity " + n); }
  void endEntity(const S& n) override { mark("endEntity " + n); if(ent_.empty() || ent_.back() != n) oops("endEntity " + n); else ent_.pop_back(); put("endEntity " + n); }
  void startCDATA() override { mark("startCDATA"); if(cdata_) oops("startCDATA twice"); cdata_ = true; if(keep_cdata) put("startCDATA"); }
  void endCDATA() override { mark("endCDATA"); if(!cdata_) oops("endCDATA"); cdata_ = false; if(keep_cdata) put("endCDATA"); }
  void comment(const S& t) override { mark("comment"); if(cdata_) oops("comment in CDATA"); put("comment " + t); }
  void elementDecl(const S& n, const S& m) override { mark("elementDecl"); put("elementDecl " + n + " " + m); }
  void attributeDecl(const S& e, const S& a, const S& t, const S& d, const S& v) override { mark("attributeDecl"); put("attributeDecl " + e + " " + a + " " + t + " " + d + " " + v); }
  void internalEntityDecl(const S& n, const S& v) override { mark("internalEntityDecl"); put("internalEntityDecl " + n + " " + v); }
  void externalEntityDecl(const S& n, const S& p, const S& s) override { mark("externalEntityDecl"); put("externalEntityDecl " + n + " " + p + "|" + s); }
  void notationDecl(const S& n, const S& p, const S& s) override { mark("notationDecl"); put("notationDecl " + n + " " + p + "|" + s); }
  void unparsedEntityDecl(const S& n, const S& p, const S& s, const S& nn) override { mark("unparsedEntityDecl"); put("unparsedEntityDecl " + n + " " + p + "|" + s + " " + nn); }
  void warning(const Arabica::SAX::SAXParseException<S>&) override { }
  void error(const Arabica::SAX::SAXParseException<S>& e) override { tick(); ++errors; messages += S("error: ") + e.what() + "\n"; }
  void fatalError(const Arabica::SAX::SAXParseException<S>& e) override
  { tick(); ++fatals; fatal_lines.push_back(e.getLineNumber()); if(fatals == 1) fatal_at = ev.size();
    std::ostringstream os; os << "fatal: " << e.what() << " at " << e.getLineNumber() << "\n"; messages += os.str(); }
  InputSource resolveEntity(const S& p, const S& s) override
  {
    auto f = entities.find(s); if(f == entities.end()) return InputSource();
    std::unique_ptr<std::istream> is(new std::istringstream(f->second));
    InputSource r(std::move(is)); r.setPublicId(p); r.setSystemId(s); return r;
  }
  // what is wrong with the stream as nesting goes; complete when the document was well-formed
  S check(bool complete)
  {
    if(!bad.empty()) return bad[0];
    if(complete) { if(state_ != 2) return "no endDocument"; if(!open_.empty()) return "elements left open"; if(!scopes_.empty()) return "prefix mappings left open"; if(dtd_ || cdata_ || !ent_.empty()) return "sections left open"; if(!root_) return "no root element"; }
    return "";
  }
  S text() const { S r; for(auto& e : ev) r += e + "\n"; return r; }
  template<class R> void attach(R& r)
  { r.setContentHandler(*this); r.setErrorHandler(*this); r.setLexicalHandler(*this); r.setDeclHandler(*this); r.setDTDHandler(*this); r.setEntityResolver(*this); }
};

// the first difference between two event lists, with a little context
inline S diff(const std::vector<S>& got, const std::vector<S>& want)
{
  size_t i = 0; while(i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  if(i == got.size() && i == want.size()) return "";
  std::ostringstream os; os << "event " << i << ": got " << (i < got.size() ? esc(got[i]) : S("nothing")) << ", wanted " << (i < want.size() ? esc(want[i]) : S("nothing"));
  if(i) os << " (after " << esc(want[i-1]) << ")";
  return os.str();
}

struct Features { bool ns = true, prefixes = true, external = false; };
inline Features gen_features(pbt::Ctx& c)
{
  Features f; switch(c.weighted({ 4, 2, 2 })) { case 1: f.prefixes = false; break; case 2: f.ns = false; break; default:; }
  return f;
}
template<class R> void set(R& r, const Features& f)
{
  Arabica::SAX::FeatureNames<S> n;
  r.setFeature(n.namespaces, f.ns); r.setFeature(n.namespace_prefixes, f.prefixes);
  r.setFeature(n.external_general, f.external);
}

inline void text_event(std::vector<S>& ev, const S& s)
{
  if(s.empty()) return;
  if(!ev.empty() && ev.back().compare(0, 11, "characters ") == 0) ev.back() += s; else ev.push_back("characters " + s);
}
inline void sorted_maps(std::vector<S>& ev, const model::Node& n, bool start)
{
  std::vector<S> v; for(auto& d : n.ns) if(d.first != "xml") v.push_back(start ? "map " + d.first + "=" + d.second : "unmap " + d.first);
  std::sort(v.begin(), v.end()); for(auto& s : v) ev.push_back(s);
}
inline S start_event(const model::Node& n, const Features& f)
{
  std::vector<S> as;
  for(auto& d : n.ns) { S q = d.first.empty() ? S("xmlns") : "xmlns:" + d.first; if(f.prefixes) as.push_back(attr_line("", "", q, d.second)); }
  for(auto& a : n.attrs) as.push_back(f.ns ? attr_line(a.uri, a.local, a.qname(), a.value) : attr_line("", "", a.qname(), a.value));
  std::sort(as.begin(), as.end());
  S r = f.ns ? "start {" + n.uri + "}" + n.local + "|" + n.qname() : "start {}|" + n.qname();
  for(auto& a : as) r += " " + a; return r;
}
inline void node_events(const model::Node& n, const Features& f, std::vector<S>& ev)
{
  switch(n.kind)
  {
    case model::DOC: case model::FRAG: for(auto& k : n.kids) node_events(*k, f, ev); break;
    case model::TEXT: text_event(ev, n.value); break;
    case model::CDATA: ev.push_back("startCDATA"); text_event(ev, n.value); ev.push_back("endCDATA"); break;
    case model::COMMENT: ev.push_back("comment " + n.value); break;
    case model::PI: ev.push_back("pi " + n.local + "|" + n.value); break;
    case model::ELEM:
      if(f.ns) sorted_maps(ev, n, true);
      ev.push_back(start_event(n, f));
      for(auto& k : n.kids) node_events(*k, f, ev);
      ev.push_back(f.ns ? "end {" + n.uri + "}" + n.local + "|" + n.qname() : "end {}|" + n.qname());
      if(f.ns) sorted_maps(ev, n, false);
  }
}

// a document, with its DTD, and the events it stands for
struct Doc { S xml; std::vector<S> ev; std::map<S, S> ext; std::vector<size_t> lines; bool line_ok = true; bool dtd = false; int decls = 0; bool entities = false; };

struct DocMaker
{
  pbt::Ctx& c; const Features& f; model::Opts o; Doc d;
  struct Ent { S name, text; const model::Node* subtree; };
  std::map<S, S> texts;                       // internal entities standing for text
  std::map<S, std::map<S, S> > dflt;          // element -> attribute -> default
  std::map<S, S> dflt_ns;                     // element -> default for xmlns:z
  std::map<const model::Node*, S> markup;     // subtrees that come from internal entities
  std::map<const model::Node*, S> external;   // and from external ones
  std::set<const model::Node*> inside; bool id = false, skipping = false; std::vector<S> dev; S subset, root;
  int extn = 0;
  DocMaker(pbt::Ctx& c_, const Features& f_) : c(c_), f(f_) { }

  void defaults(model::Node& n)
  {
    if(n.kind == model::ELEM)
    {
      if(id && n.qname() == "a") for(auto& a : n.attrs) if(a.qname() == "id") a.value = tokens(a.value);
      auto g = dflt.find(n.qname()); if(g != dflt.end())
        for(auto& p : g->second) { bool have = false; for(auto& a : n.attrs) have = have || a.qname() == p.first; if(!have) { model::Attr a; a.local = p.first; a.value = p.second; n.attrs.push_back(a); } }
      auto h = dflt_ns.find(n.qname()); if(h != dflt_ns.end()) n.ns.push_back(std::make_pair("z", h->second));
    }
    for(auto& k : n.kids) defaults(*k);
  }
  static S tokens(const S& s)
  { S r; for(char ch : s) if(ch != ' ' || (!r.empty() && r.back() != ' ')) r += ch; if(!r.empty() && r.back() == ' ') r.erase(r.size() - 1); return r; }
  void ser(const model::Node& n, S& r, bool top)
  {
    if(top || true)
    {
      auto m = markup.find(&n); if(m != markup.end()) { r += "&" + m->second + ";"; d.line_ok = false; return; }
      auto x = external.find(&n); if(x != external.end()) { r += "&" + x->second + ";"; d.line_ok = false; return; }
    }
    if(n.kind == model::ELEM)
    {
      if(top) d.lines.push_back(r.size());
      r += "<" + n.qname();
      bool first = c.flip();
      for(int pass = 0; pass < 2; ++pass)
        if((pass == 0) == first) { for(auto& p : n.ns) if(p.first != "z") r += model::ws(&c, true) + (p.first.empty() ? S("xmlns") : "xmlns:" + p.first) + model::ws(&c, false) + "=" + model::esc_attr(&c, p.second); }
        else for(auto& a : n.attrs) r += model::ws(&c, true) + a.qname() + "=" + model::ws(&c, false) + attr_value(a.value);
      r += model::ws(&c, false);
      if(n.kids.empty() && c.flip()) { r += "/>"; return; }
      r += ">"; for(auto& k : n.kids) ser(*k, r, top); r += "</" + n.qname() + model::ws(&c, false) + ">"; return;
    }
    if(n.kind == model::TEXT)
    {
      for(auto& e : texts) if(!e.second.empty() && e.second == n.value && c.chance(3, 4)) { r += "&" + e.first + ";"; d.entities = true; return; }
    }
    model::ser(&c, n, r);
  }
  S attr_value(const S& v)
  {
    for(auto& e : texts) if(!e.second.empty() && e.second == v && v.find_first_of("<\n\t\r") == S::npos && c.flip()) { d.entities = true; return "'&" + e.first + ";'"; }
    return model::esc_attr(&c, v);
  }
  static S ent_lit(const S& t) { S r; for(char ch : t) { if(ch == '&') r += "&#38;"; else if(ch == '%') r += "&#37;"; else if(ch == '"') r += "&#34;"; else if(ch == '\r') r += "&#13;"; else r += ch; } return "\"" + r + "\""; }
  S sp() { return c.chance(1, 10) ? c.pick({ "\n", "  ", "\t" }) : S(" "); }
  S content_model(S& norm, int depth)
  {
    // a choice, a sequence or a name, perhaps with a quantifier
    S r; static const std::vector<S> q = { "", "?", "*", "+" };
    int n = c.range(1, 3); bool alt = c.flip(); r = "("; norm = "(";
    for(int i = 0; i < n; ++i)
    {
      if(i) { S sep = alt ? "|" : ","; r += (c.chance(1, 4) ? " " : "") + sep + (c.chance(1, 4) ? " " : ""); norm += sep; }
      if(depth < 2 && c.chance(1, 4)) { S m; r += content_model(m, depth + 1); norm += m; }
      else { S m = c.pick(o.names) + c.pick(q); r += m; norm += m; }
    }
    S qq = c.pick(q); r += ")" + qq; norm += ")" + qq; return r;
  }
  void extid(S& text, S& pub, S& sys, const S& s, bool notation = false)
  {
    sys = s; pub = "";
    switch(c.weighted({ 3, 2, notation ? 1 : 0 }))
    {
      case 0: text += sp() + "SYSTEM" + sp() + "'" + sys + "'"; break;
      case 1: pub = c.pick({ "pub", "-//X//Y Z//EN", "" }); text += sp() + "PUBLIC" + sp() + "'" + pub + "'" + sp() + "\"" + sys + "\""; break;
      default: pub = c.pick({ "pub", "-//N" }); sys = ""; text += sp() + "PUBLIC" + sp() + "'" + pub + "'";
    }
  }
  std::set<S> declared_elems, notes;
  int n_ent = 0, n_pe = 0;
  void decl(S& out, bool pe_ok)
  {
    switch(c.weighted({ 3, 3, 3, 2, 1, 2, 2, f.external && pe_ok ? 2 : 0, notes.empty() ? 0 : 2, 1, 1 }))
    {
      case 0: { // an internal entity for text that occurs
        S n = "t" + std::to_string(n_ent++), v = o.texts.empty() ? model::gen_chars(c, o, 3, true) : c.pick(o.texts), t;
        if(v.find_first_of("<&\r") != S::npos) { model::Node tmp(model::TEXT); tmp.value = v; S e = model::esc_text(0, v); t = e; } else t = v;
        texts[n] = v; out += "<!ENTITY" + sp() + n + sp() + ent_lit(t) + ">"; dev.push_back("internalEntityDecl " + n + " " + t); break; }
      case 1: { // element declaration
        S n = c.pick(o.names); if(!declared_elems.insert(n).second) return; S m, norm;
        switch(c.weighted({ 1, 1, 1, 2, 3 }))
        {
          case 0: m = norm = "EMPTY"; break; case 1: m = norm = "ANY"; break; case 2: m = c.pick({ "(#PCDATA)", "( #PCDATA )" }); norm = "(#PCDATA)"; break;
          case 3: m = c.pick({ "(#PCDATA|x|y)*", "(#PCDATA | x| y)*" }); norm = "(#PCDATA|x|y)*"; break;
          default: m = content_model(norm, 0);
        }
        out += "<!ELEMENT" + sp() + n + sp() + m + ">"; dev.push_back("elementDecl " + n + " " + norm); break; }
      case 2: { // attribute defaults that matter
        S el = c.pick(o.names), at = c.pick({ "dd", "ee", "name" }); if(dflt[el].count(at)) return;
        S v = c.pick({ "dv", "a b", "", "<", "\"'" }); bool fixed = c.chance(1, 4); dflt[el][at] = v;
        out += "<!ATTLIST" + sp() + el + sp() + at + sp() + "CDATA" + sp() + (fixed ? "#FIXED " : "") + model::esc_attr(&c, v) + ">";
        dev.push_back("attributeDecl " + el + " " + at + " CDATA " + (fixed ? "#FIXED" : "") + " " + v); break; }
      case 3: { // and ones of other types, several in one declaration
        S el = c.pick(o.names); int n = c.range(1, 3); S body;
        for(int i = 0; i < n; ++i)
        {
          S at = "zz" + std::to_string(n_ent++), t, norm;
          switch(c.below(notes.empty() ? 7 : 8))
          { case 0: t = norm = "CDATA"; break; case 1: t = norm = "IDREF"; break; case 2: t = norm = "IDREFS"; break; case 3: t = norm = "NMTOKEN"; break; case 4: t = norm = "NMTOKENS"; break;
            case 5: t = c.pick({ "(x|y)", "( x | y )" }); norm = "(x|y)"; break; case 6: t = norm = "ENTITY"; break;
            default: t = "NOTATION (" + *notes.begin() + ")"; norm = t; }
          bool req = c.flip(); body += sp() + at + sp() + t + sp() + (req ? "#REQUIRED" : "#IMPLIED");
          dev.push_back("attributeDecl " + el + " " + at + " " + norm + " " + (req ? "#REQUIRED" : "#IMPLIED") + " ");
        }
        out += "<!ATTLIST" + sp() + el + body + ">"; break; }
      case 4: if(id) return; id = true; out += "<!ATTLIST a id ID #IMPLIED>"; dev.push_back("attributeDecl a id ID #IMPLIED "); break;
      case 5: { S n = "n" + std::to_string(n_ent++), t = "<!NOTATION" + sp() + n, p, s; extid(t, p, s, "http://x/n", true); out += t + ">"; notes.insert(n); dev.push_back("notationDecl " + n + " " + p + "|" + s); break; }
      case 6: { // comments and instructions
        if(c.flip()) { S t = model::gen_comment(c, o); out += "<!--" + t + "-->"; dev.push_back("comment " + t); }
        else { S t = model::gen_pi(c, o); out += "<?sub" + (t.empty() ? t : " " + t) + "?>"; dev.push_back("pi sub|" + t); }
        break; }
      case 7: { // a parameter entity holding further declarations
        S n = "pe" + std::to_string(n_pe++), body; std::vector<S> keep; keep.swap(dev); S in;
        c.list(1, 2, [&](int) { decl(in, false); }); std::vector<S> held; held.swap(dev); dev.swap(keep);
        out += "<!ENTITY % " + n + " " + ent_lit(in) + ">"; dev.push_back("internalEntityDecl %" + n + " " + in);
        out += "%" + n + ";"; for(auto& e : held) dev.push_back(e); break; }
      case 8: { S n = "u" + std::to_string(n_ent++), t = "<!ENTITY " + n, p, s; extid(t, p, s, "http://x/u"); S nn = *notes.begin(); out += t + " NDATA " + nn + ">"; dev.push_back("unparsedEntityDecl " + n + " " + p + "|" + s + " " + nn); break; }
      case 9: { S el = c.pick(o.names); if(dflt_ns.count(el)) return; S u = c.pick({ "urn:z", "urn:a" }); dflt_ns[el] = u; out += "<!ATTLIST " + el + " xmlns:z CDATA '" + u + "'>"; dev.push_back("attributeDecl " + el + " xmlns:z CDATA  " + u); break; }
      case 10: { S n = "x" + std::to_string(n_ent++), t = "<!ENTITY " + n, p, s; extid(t, p, s, "http://never/" + n); out += t + ">"; dev.push_back("externalEntityDecl " + n + " " + p + "|" + s); break; }
    }
  }
  void collect(model::Node& n, std::vector<model::Node*>& v) { for(auto& k : n.kids) { if(n.kind != model::DOC && k->kind == model::ELEM) v.push_back(k.get()); collect(*k, v); } }
  void skip_markers(model::Node& n) { for(auto& k : n.kids) skip_markers(*k); }

  void events(const model::Node& n, std::vector<S>& ev)
  {
    auto x = external.find(&n);
    if(x != external.end() && !f.external) { ev.push_back("skipped " + x->second); return; }
    if(x != external.end()) ev.push_back("startEntity " + x->second);
    switch(n.kind)
    {
      case model::ELEM:
        if(f.ns) sorted_maps(ev, n, true);
        ev.push_back(start_event(n, f));
        for(auto& k : n.kids) events(*k, ev);
        ev.push_back(f.ns ? "end {" + n.uri + "}" + n.local + "|" + n.qname() : "end {}|" + n.qname());
        if(f.ns) sorted_maps(ev, n, false);
        break;
      case model::DOC: for(auto& k : n.kids) events(*k, ev); break;
      default: node_events(n, f, ev);
    }
    if(x != external.end()) ev.push_back("endEntity " + x->second);
  }
  static void utf16(const S& u, S& r, bool le)
  {
    auto put = [&](unsigned v) { char hi = char(v >> 8), lo = char(v); if(le) { r += lo; r += hi; } else { r += hi; r += lo; } };
    put(0xFEFF);
    for(size_t i = 0; i < u.size();)
    {
      unsigned ch = static_cast<unsigned char>(u[i]), n = ch < 0x80 ? 1 : ch < 0xE0 ? 2 : ch < 0xF0 ? 3 : 4; unsigned v = n == 1 ? ch : ch & (0xFF >> (n + 1));
      for(unsigned k = 1; k < n; ++k) v = (v << 6) | (static_cast<unsigned char>(u[i+k]) & 0x3F);
      i += n; if(v >= 0x10000) { v -= 0x10000; put(0xD800 | (v >> 10)); put(0xDC00 | (v & 0x3FF)); } else put(v);
    }
  }
  Doc make()
  {
    d.dtd = c.chance(3, 5); bool standalone = false; S pub, sys; bool ext_subset = false;
    if(d.dtd && c.chance(1, 2)) { o.texts = { "one", "two words", "\xc3\xa9", "a&b", "<", "3", "x\ny" }; }
    model::NodeP m = model::gen_doc(c, o); root = m->root_elem()->qname();
    S doctype, pre; std::vector<S> dtd_events;
    if(d.dtd)
    {
      switch(c.weighted({ 3, 1, 1 })) { case 0: break; case 1: sys = "http://x.org/x.dtd"; break; default: pub = "-//X//Y"; sys = "http://x.org/y.dtd"; }
      S ext; std::vector<S> ext_dev;
      c.list(0, 6, [&](int) { decl(subset, sys.empty() || true); if(c.chance(1, 4)) subset += "\n"; });
      // markup entities: subtrees written once, as entities
      std::vector<model::Node*> el; collect(*m, el);
      if(!el.empty()) c.list(0, 2, [&](int) {
        model::Node* n = el[c.below(el.size())];
        for(model::Node* p = n; p; p = p->parent) if(markup.count(p) || external.count(p)) return;
        for(auto& g : markup) for(const model::Node* p = g.first; p; p = p->parent) if(p == n) return;
        for(auto& g : external) for(const model::Node* p = g.first; p; p = p->parent) if(p == n) return;
        d.entities = true;
        if(c.flip())
        {
          S nm = "m" + std::to_string(markup.size()), t; ser(*n, t, false); markup[n] = nm;
          subset += "<!ENTITY " + nm + " " + ent_lit(t) + ">"; dev.push_back("internalEntityDecl " + nm + " " + t);
        }
        else
        {
          S nm = "ext" + std::to_string(external.size()), t, p, s; ser(*n, t, false); external[n] = nm; S dcl = "<!ENTITY " + nm; extid(dcl, p, s, "http://ext/" + nm);
          if(c.chance(1, 4)) t = "<?xml version='1.0' encoding='UTF-8'?>" + t;
          d.ext[s] = t; subset += dcl + ">"; dev.push_back("externalEntityDecl " + nm + " " + p + "|" + s);
        } });
      if(f.external && !sys.empty())
      {
        std::vector<S> keep; keep.swap(dev); c.list(0, 3, [&](int) { decl(ext, false); }); ext_dev.swap(dev); dev.swap(keep);
        d.ext[sys] = ext; ext_subset = true;
      }
      doctype = "<!DOCTYPE" + sp() + root + (pub.empty() ? sys.empty() ? "" : " SYSTEM '" + sys + "'" : " PUBLIC '" + pub + "' '" + sys + "'") + (subset.empty() && c.flip() ? "" : (c.flip() ? " [" : "[") + subset + "]") + ">";
      dtd_events.push_back("startDTD " + root + "|" + pub + "|" + sys);
      for(auto& e : dev) dtd_events.push_back(e);
      if(ext_subset) { dtd_events.push_back("startEntity [dtd]"); for(auto& e : ext_dev) dtd_events.push_back(e); dtd_events.push_back("endEntity [dtd]"); }
      dtd_events.push_back("endDTD"); d.decls = dtd_events.size() - 2;
    }
    bool decl_ = c.chance(1, 3); int enc = c.weighted({ 12, 1, 1, 1, 1 });   // as is, BOM, UTF-16 LE, BE, Latin 1
    if(enc == 4) decl_ = false;
    if(decl_) pre = c.pick({ "<?xml version='1.0'?>", "<?xml version=\"1.0\" ?>\n", "<?xml version='1.0' standalone=\"no\" ?>" });
    bool placed = false;
    // serialise before the defaults are added to the model; the events afterwards
    std::vector<int> kinds; int at = -1, i = 0;
    for(auto& k : m->kids) { if(!placed && d.dtd && (k->kind == model::ELEM || c.flip())) { pre += doctype; placed = true; at = i; } if(c.chance(1, 6)) pre += "\n"; ser(*k, pre, true); ++i; }
    defaults(*m);
    d.ev.push_back("startDocument"); i = 0;
    for(auto& k : m->kids) { if(i++ == at) d.ev.insert(d.ev.end(), dtd_events.begin(), dtd_events.end()); events(*k, d.ev); }
    d.ev.push_back("endDocument");
    for(auto& l : d.lines) l = 1 + std::count(pre.begin(), pre.begin() + l, '\n');
    d.xml = pre; (void)standalone; (void)skipping;
    if(enc == 1) d.xml = "\xEF\xBB\xBF" + pre;
    if(enc == 2 || enc == 3) { d.xml = ""; utf16(pre, d.xml, enc == 2); }
    if(enc == 4)
    {
      S l; bool ok = true; for(size_t k = 0; k < pre.size() && ok; ++k)
      { unsigned char a = pre[k]; if(a < 0x80) l += a; else if(a < 0xC4 && a >= 0xC2) { l += char(((a & 3) << 6) | (pre[k+1] & 0x3F)); ++k; } else ok = false; }
      if(ok) d.xml = "<?xml version='1.0' encoding='ISO-8859-1'?>" + l;
    }
    return d;
  }
};

// delivers the text in pieces of the given sizes, over and over
class Chunks : public std::streambuf
{
  S text_; std::vector<int> sizes_; size_t at_ = 0, k_ = 0; S piece_;
protected:
  int_type underflow() override
  {
    if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if(at_ >= text_.size()) return traits_type::eof();
    size_t n = sizes_.empty() ? text_.size() : sizes_[k_++ % sizes_.size()];
    piece_ = text_.substr(at_, n); at_ += piece_.size();
    setg(&piece_[0], &piece_[0], &piece_[0] + piece_.size());
    return traits_type::to_int_type(*gptr());
  }
public:
  Chunks(const S& t, const std::vector<int>& s) : text_(t), sizes_(s) { }
};

} // namespace saxx
