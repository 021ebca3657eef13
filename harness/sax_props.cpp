// S01-S03: what the (Expat) reader reports
#include "saxx.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/SAXException.hpp>
#include <expat.h>
#include <fstream>
#include <unistd.h>

using namespace saxx;
typedef Arabica::SAX::XMLReader<S> Reader;

PBT_PROPERTY(S01, "a document of at least four events besides its ends that declares something in a DTD or declares a namespace")
{
  Features f = gen_features(c); f.external = c.chance(1, 3);
  Doc d = DocMaker(c, f).make();
  c << (f.ns ? "namespaces " : "") << (f.prefixes ? "prefixes " : "") << (f.external ? "external " : "") << esc(d.xml) << "\n";
  for(auto& e : d.ext) c << "  " << e.first << ": " << esc(e.second) << "\n";
  Reader r; set(r, f); Recorder rec; rec.attach(r); rec.entities = d.ext;
  std::istringstream ss(d.xml); InputSource is(ss); bool named = c.flip(); if(named) { is.setSystemId("http://sys/id"); is.setPublicId("pubid"); }
  r.parse(is);
  pbt::require_eq(rec.messages, S(), "errors reported for " + esc(d.xml));
  S df = diff(rec.ev, d.ev); pbt::require(df.empty(), df, "\n in ", esc(d.xml));
  S ck = rec.check(true); pbt::require(ck.empty(), ck, " in ", esc(d.xml));
  if(d.line_ok && (d.ext.empty() || !f.external)) pbt::require(rec.element_lines == d.lines, "elements reported on the wrong lines in ", esc(d.xml));
  if(named) { pbt::require_eq(rec.locator()->getSystemId(), S("http://sys/id"), "system id of the locator"); pbt::require_eq(rec.locator()->getPublicId(), S("pubid"), "public id of the locator"); }
  c.nontrivial(d.ev.size() > 6 && (d.decls > 0 || d.xml.find("xmlns") != S::npos));
  if(d.decls) c.label("dtd"); if(d.entities) c.label("entities"); if(!f.ns) c.label("no namespaces"); if(f.external) c.label("external");
}

// ---------------------------------------------------------------- errors
namespace {
// what expat itself says, with our own idea of namespaces
struct Oracle
{
  bool fatal = false; size_t line = 0; int ns_errors = 0; bool not_qname = false, odd = false; int elements = 0;
  std::vector<std::map<S, S> > scope;
  static bool qname(const S& q) { size_t p = q.find(':'); return p == S::npos || (p != 0 && p + 1 < q.size() && q.find(':', p + 1) == S::npos && (isalpha(static_cast<unsigned char>(q[p+1])) || q[p+1] == '_' || (q[p+1] & 0x80))); }
  void name(const S& q)
  {
    if(not_qname) return;
    if(!qname(q)) { not_qname = true; return; }
    size_t p = q.find(':'); if(p == S::npos) return; if(q[p+1] & 0x80) odd = true; S pre = q.substr(0, p);
    if(pre == "xml") return;
    if(pre == "xmlns") { odd = true; return; }
    for(size_t i = scope.size(); i--; ) { auto g = scope[i].find(pre); if(g != scope[i].end()) { if(g->second.empty()) odd = true; return; } }
    ++ns_errors;
  }
  void start(const char* n, const char** a)
  {
    ++elements; scope.push_back(std::map<S, S>());
    for(const char** p = a; *p; p += 2)
    {
      S q(p[0]), v(p[1]); if(q.compare(0, 5, "xmlns") != 0) continue;
      if(q == "xmlns") { scope.back()[""] = v; if(v == model::XML_URI || v == model::XMLNS_URI) odd = true; }
      else if(q[5] == ':')
      {
        S pre = q.substr(6); if(!qname(q)) { odd = true; continue; }
        if(pre == "xml" || pre == "xmlns" || v.empty() || v == model::XML_URI || v == model::XMLNS_URI) odd = true;
        scope.back()[pre] = v;
      }
    }
    for(const char** p = a; *p; p += 2) { S q(p[0]); if(q == "xmlns" || q.compare(0, 6, "xmlns:") == 0) continue; name(q); }
    name(n);
    // an expanded name given twice: not namespace-well-formed, and not something the reader promises to notice
    std::set<std::pair<S, S> > seen;
    for(const char** p = a; *p; p += 2)
    {
      S q(p[0]); size_t k = q.find(':'); if(k == S::npos || q.compare(0, 5, "xmlns") == 0) continue; S u;
      for(size_t i = scope.size(); i--; ) { auto g = scope[i].find(q.substr(0, k)); if(g != scope[i].end()) { u = g->second; break; } }
      if(!seen.insert(std::make_pair(u, q.substr(k + 1))).second) odd = true;
    }
  }
  static void XMLCALL on_start(void* u, const char* n, const char** a) { static_cast<Oracle*>(u)->start(n, a); }
  static void XMLCALL on_end(void* u, const char*) { static_cast<Oracle*>(u)->scope.pop_back(); }
  Oracle(const S& xml)
  {
    XML_Parser p = XML_ParserCreate(0); XML_SetUserData(p, this); XML_SetElementHandler(p, on_start, on_end);
    if(XML_Parse(p, xml.data(), int(xml.size()), 1) == 0) { fatal = true; line = XML_GetCurrentLineNumber(p); }
    XML_ParserFree(p);
  }
};

S mutate(pbt::Ctx& c, S x)
{
  static const std::vector<S> bits = { "<", ">", "&", "'", "\"", "/", "?", "!", "[", "]", "-", "--", "]]>", "<!--", "-->", "<![CDATA[", "<?", "?>", "<!DOCTYPE a>", "<!ENTITY x 'y'>", "&x;", "&#0;", "&#xD800;", "&#65;", "%pe;",
    "\xff", "\xc3", "\xe2\x82", std::string(1, '\0'), "\x01", "\xef\xbf\xbf", " ", "\n", "=", ":", ";", "xmlns:p='urn:p'", " xmlns='u'", " p:a='1'", "<p:a/>", "<a", "</a>", "</", "<a/>", " a='1'", "nope:", "xml", "<?xml version='1.0'?>",
    "<?xml version='1.0' encoding='nope'?>", " xml:lang='x'", "<!ELEMENT a ANY>", "<!NOTATION n SYSTEM ''>", "<!ATTLIST a b CDATA #IMPLIED>", "INCLUDE", "SYSTEM 'x'", "{", "\xef\xbb\xbf", "e" };
  int n = c.weighted({ 2, 6, 3, 2, 1 });
  for(int i = 0; i < n; ++i)
  {
    size_t at = x.empty() ? 0 : c.below(x.size() + 1);
    switch(c.weighted({ 4, 3, 2, 2, 2, 1, 1 }))
    {
      case 0: x.insert(at, c.pick(bits)); break;
      case 1: x.erase(at, 1 + c.below(3)); break;
      case 2: if(at < x.size()) x.erase(at); break;                               // cut short
      case 3: if(at < x.size()) x[at] = char(c.below(256)); break;
      case 4: { size_t b = c.below(x.size() + 1), l = 1 + c.below(12); x.insert(at, x.substr(b, l)); break; }
      case 5: { size_t b = x.find('<', at); if(b != S::npos) { size_t e = x.find('>', b); if(e != S::npos) x.erase(b, e + 1 - b); } break; }
      default: x = x.substr(0, at) + c.pick(bits) + x.substr(at); x += c.pick(bits);
    }
  }
  return x;
}
S any_text(pbt::Ctx& c)
{
  S x; c.list(0, 40, [&](int) { x += c.weighted({ 1, 3 }) ? c.pick({ "<a>", "</a>", "<b ", "x='y'", ">", "/>", "text", "&amp;", "<!--c-->", "<?pi d?>", "\n", "<![CDATA[", "]]>", "<!DOCTYPE a [", "<!ENTITY e 'v'>", "]>", "&e;" }) : S(1, char(c.below(256))); });
  return x;
}
}

PBT_PROPERTY(S02, "the document has an element and has been changed so that it is malformed, or uses an undeclared prefix")
{
  Features f; f.prefixes = c.chance(2, 3);
  S x; bool any = c.chance(1, 8);
  if(any) x = any_text(c);
  else { f.ns = true; x = mutate(c, DocMaker(c, f).make().xml); }
  f.ns = c.chance(4, 5); if(!f.ns) f.prefixes = true;
  c << (f.ns ? "" : "(no namespaces) ") << "document " << esc(x) << "\n";
  Oracle o(x);
  if(!f.ns) { o.not_qname = false; o.ns_errors = 0; o.odd = false; }
  Reader r; Recorder rec; rec.attach(r); set(r, f); 
  std::istringstream ss(x); InputSource is(ss); bool threw = false;
  try { r.parse(is); } catch(const Arabica::SAX::SAXException& e) { threw = true; c << "threw " << e.what() << "\n"; }
  if(threw) { pbt::require(f.ns && (o.not_qname || o.odd), "exception out of parse of ", esc(x)); return; }
  if(o.not_qname && f.ns) pbt::require(o.odd || rec.errors + rec.fatals > 0, "a name that is not a QName is accepted in ", esc(x));
  if(!(o.not_qname && f.ns))
  {
    pbt::require_eq(rec.fatals > 0, o.fatal, "fatal error reported for " + esc(x));
    pbt::require(rec.fatals <= 1, "several fatal errors for ", esc(x));
    if(o.fatal) pbt::require_eq(rec.fatal_lines[0], o.line, "line of the error in " + esc(x));
    if(f.ns && !o.odd) pbt::require_eq(rec.errors > 0, o.ns_errors > 0, "undeclared prefix reported for " + esc(x));
    if(!f.ns) pbt::require_eq(rec.errors, 0, "errors reported for " + esc(x));
  }
  if(!(f.ns && (o.odd || o.not_qname)))
  {
    S ck = rec.check(!o.fatal);
    pbt::require(ck.empty(), ck, " in ", esc(x));
    if(o.fatal) for(size_t i = rec.fatal_at; i < rec.ev.size(); ++i) pbt::require(rec.ev[i] == "endDocument" || rec.ev[i].compare(0, 5, "unmap") == 0, "event after the fatal error: ", rec.ev[i], " in ", esc(x));
  }
  c.nontrivial(o.elements > 0 && (o.fatal || o.ns_errors));
  if(o.fatal) c.label("malformed"); else c.label("well-formed"); if(o.ns_errors) c.label("undeclared prefix"); if(any) c.label("any text");
}

// ---------------------------------------------------------------- independence
namespace {
struct Scratch
{
  S dir; Scratch() { char t[] = "/tmp/pbtsaxXXXXXX"; dir = mkdtemp(t); }
  ~Scratch() { S f = dir + "/doc.xml"; unlink(f.c_str()); rmdir(dir.c_str()); }
  S file(const S& text) { S f = dir + "/doc.xml"; std::ofstream o(f.c_str(), std::ios::binary); o << text; return f; }
};
S run(Reader& r, Recorder& rec, InputSource& is)
{
  S out; try { r.parse(is); } catch(const Thrown&) { out = "handler threw\n"; } catch(const Arabica::SAX::SAXException& e) { out = S("threw ") + e.what() + "\n"; }
  return out;
}
}

PBT_PROPERTY(S03, "a document of at least four events is parsed by a parser that has met a failure before, or arrives in several pieces")
{
  static Scratch scratch;
  Reader r; Features f; bool nt = false; bool failed_before = false; Recorder kept; bool keep_handlers = c.chance(1, 3);
  c.list(1, 1 + 4 * c.size() / 100, [&](int) {
    if(c.chance(1, 2)) { f = gen_features(c); f.external = c.chance(1, 2); set(r, f); }
    Doc d = DocMaker(c, f).make(); S x = d.xml; int throw_at = -1;
    if(c.chance(1, 3)) x = mutate(c, x); else if(c.chance(1, 4)) throw_at = c.below(d.ev.size() + 2);
    else if(c.chance(1, 12) && !d.ext.empty()) d.ext.begin()->second += "<oops";
    if(c.chance(1, 10))
    {
      // longer than any buffer: make a comment or a run of text at its end, or its start, long
      int n = c.pick(std::vector<int>({ 5000, 10200, 10239, 10240, 10241, 20480, 33000 })); int which = c.below(3);
      if(which == 0) x += "<!--" + S(n, 'c') + "-->"; else if(which == 1) { size_t at = x.rfind("</"); if(at != S::npos) { S pad; for(int k = 0; k < n; ++k) pad += k % 80 ? char('a' + k % 7) : '\n'; x.insert(at, pad); } }
      else x += S(n - std::min<int>(n, x.size()), '\n');
    }
    std::vector<int> sizes; int how = c.weighted({ 3, 4, 1 });
    if(how == 1) c.list(1, 5, [&](int) { sizes.push_back(c.weighted({ 1, 1 }) ? c.range(1, 12) : c.pick(std::vector<int>({ 1, 2, 3, 7, 100, 4096, 10240, 10239 }))); });
    c << (f.ns ? "namespaces " : "") << (f.prefixes ? "prefixes " : "") << (f.external ? "external " : "") << (how == 0 ? "stream " : how == 1 ? "pieces " : "file ");
    for(int s : sizes) c << s << ","; if(throw_at >= 0) c << " handler throws at " << throw_at; c << " " << esc(x.size() > 3000 ? x.substr(0, 400) + "..." + x.substr(x.size() - 200) : x) << "\n";
    // afresh
    Reader fresh; set(fresh, f); Recorder want; want.attach(fresh); want.throw_at = throw_at; want.entities = d.ext;
    std::istringstream ss(x); InputSource wis(ss); S wout = run(fresh, want, wis);
    // and by the parser that has been about
    Recorder local; Recorder& rec = keep_handlers ? kept : local; if(keep_handlers) { kept.~Recorder(); new(&kept) Recorder(); }
    rec.attach(r); rec.throw_at = throw_at; rec.entities = d.ext; S out;
    if(how == 2) { InputSource is(scratch.file(x)); out = run(r, rec, is); }
    else if(how == 1) { Chunks b(x, sizes); std::istream st(&b); InputSource is(st); out = run(r, rec, is); }
    else if(c.flip()) { std::unique_ptr<std::istream> st(new std::istringstream(x)); InputSource is(std::move(st)); out = run(r, rec, is); }
    else { std::istringstream st(x); InputSource is(st); out = run(r, rec, is); }
    pbt::require_eq(out + rec.messages, wout + want.messages, "errors reported for " + esc(x.substr(0, 400)));
    S df = diff(rec.ev, want.ev); pbt::require(df.empty(), df, "\n in ", esc(x.substr(0, 600)));
    pbt::require_eq(rec.errors, want.errors, "errors"); pbt::require(rec.fatal_lines == want.fatal_lines && rec.element_lines == want.element_lines, "line numbers differ in ", esc(x.substr(0, 600)));
    if(want.ev.size() > 6 && (failed_before || how == 1)) nt = true;
    if(!wout.empty() || want.fatals) failed_before = true;
  });
  c.nontrivial(nt);
}
