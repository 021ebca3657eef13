// G01 - G02: Taggle, the HTML parser.
#include "saxx.hpp"
#include "domx.hpp"
#include <Taggle/Taggle.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <convert/utf8ucs2codecvt.hpp>
#include <functional>
#include <set>

using namespace saxx;
typedef Arabica::SAX::Taggle<S> Taggle;
typedef Arabica::SAX::Writer<S> Writer;

namespace {

const std::vector<S> known = { "html", "head", "body", "title", "p", "div", "b", "i", "em", "a", "ul", "li", "table", "tr", "td", "th", "tbody", "thead", "caption", "col", "br", "hr", "img", "input", "form", "select", "option",
  "script", "style", "pre", "h1", "dl", "dt", "dd", "span", "font", "frameset", "frame", "noframes", "object", "param", "meta", "link", "base", "map", "area", "textarea", "button", "fieldset", "legend", "label", "iframe", "ins", "del", "noscript", "optgroup", "center", "address", "tfoot", "colgroup", "q", "applet", "isindex", "comment" };

struct Soup
{
  pbt::Ctx& c; bool utf8 = true;
  S word() { return c.pick({ "x", "foo", " ", "\n", "a b", "  ", "\t", "]", "]]>", "--", ">", "=", "'", "\"", "/", ";", "&", "\r\n", "\r", "1", "-", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "?", "!", "#" }); }
  S ref()
  {
    return c.pick({ "&amp;", "&lt;", "&gt;", "&quot;", "&nbsp;", "&eacute;", "&yuml;", "&bogus;", "&amp", "&lt", "&", "&;", "&#", "&#;", "&#x;", "&#65;", "&#x41;", "&#65", "&#x4g", "&#0;", "&#1;", "&#9;", "&#10;", "&#13;", "&#31;",
      "&#127;", "&#128;", "&#150;", "&#159;", "&#233;", "&#8364;", "&#x20AC;", "&#xD800;", "&#xDFFF;", "&#xFFFE;", "&#xFFFF;", "&#x10000;", "&#x1F600;", "&#x10FFFF;", "&#x110000;", "&#99999999;", "&#4294967361;", "&#99999999999999999999;", "&#-1;", "&AMP;", "&aacute", "&a&amp;b;" });
  }
  S text() { S r; for(int n = c.range(1, 4); n > 0; --n) r += c.chance(1, 4) ? ref() : word(); return r; }
  S name()
  {
    if(c.chance(5, 6)) { S n = c.pick(known); if(c.chance(1, 6)) for(auto& ch : n) ch = toupper(ch); if(c.chance(1, 20)) n += c.pick({ "x", ":", "1", "-", "<", "\xc3\xa9", "." }); return n; }
    return c.pick({ "bogus", "o:p", "svg", "a:b:c", ":", ":a", "a:", "1", "-", "x.y", "_", "\xc3\xa9", "xml:x", "xmlns:q", "foo", "bar", "X", "p1", "n:table", "html:p", "x:1", "z:-", "xmlns", "<pcdata>", "<root>", "a\"b", "a'", "?", "!x", "&amp;" });
  }
  S attname() { return c.pick({ "class", "id", "href", "title", "name", "checked", "clear", "xmlns", "xmlns:x", "xml:lang", "x:a", "x:b", "o:a", "o:p", "a", "A", "1", ":", "a:", "a:b:c", "-", "\xc3\xa9", "shape", "type", "CLASS", "a!", "=", "\"", "'", "lang", "xmlns:xml", "xml:base", "xlink:href", "html:x" }); }
  S attval() { S r; for(int n = c.range(0, 3); n > 0; --n) r += c.chance(1, 3) ? ref() : c.pick({ "x", "1", " ", "  y ", "\n", "a/b", "<", ">", "'", "\"", "\xc3\xa9", "/", "&" }); return r; }
  S tag()
  {
    S r = "<" + name();
    for(int n = c.weighted({ 5, 3, 2, 1 }); n > 0; --n)
    {
      r += c.pick({ " ", "\n", "  ", "\t", " /", "" }); r += attname();
      switch(c.below(6))
      {
        case 0: break;
        case 1: r += "="; r += c.pick({ "x", "1", "/", "a/b", "y'", "&amp;z", "" }); break;
        case 2: r += c.pick({ "='", " = '" }) + attval() + "'"; break;
        default: r += c.pick({ "=\"", " =\"", "= \"" }) + attval() + "\"";
      }
    }
    r += c.pick({ ">", ">", ">", ">", ">", " >", "/>", " />", "", "//>", "/ >" });
    return r;
  }
  S piece()
  {
    switch(c.weighted({ 8, 10, 7, 1, 1, 1, 1, 1, 1 }))
    {
      case 0: return text();
      case 1: return tag();
      case 2: return "</" + (c.chance(1, 15) ? S("") : name()) + c.pick({ ">", ">", ">", " >", " x>", "" });
      case 3: return c.pick({ "<!--x-->", "<!---->", "<!-->", "<!--->", "<!--a--b-->", "<!--a---->", "<!--a--->", "<!-a-->", "<!--a--!>", "<!--a", "<!-- -- -->", "<!------>", "<!--->-->", "<!--\n&amp;-->", "<!--a-", "<!--a--" });
      case 4: return c.pick({ "<!DOCTYPE html>", "<!doctype html>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\">", "<!DOCTYPE", "<!DOCTYPE>", "<!DOCTYPE html SYSTEM 'x'>", "<!DOCTYPE html PUBLIC 'x y'>", "<!DOCTYPE a [<!ENTITY b 'c'>]>", "<!DOCTYPE html SYSTEM \"a b>", "<!>", "<!x>", "<!ELEMENT a>" });
      case 5: return c.pick({ "<?php a ?>", "<?xml version='1.0'?>", "<?a>", "<?>", "<??>", "<?a:b c>", "<?1 x", "<?XML x?>", "<?a b??>", "<? a>" });
      case 6: return c.pick({ "<![CDATA[x]]>", "<![CDATA[<b>&amp;]]>", "<![CDATA[a]]]>", "<![CDATA[a", "<![CDATA]]>", "<![CDAT", "<![endif]>", "<![CDATA[]]>", "<![CDATA[a]b]]>", "<![CDATA[a]]", "<![if IE]>" });
      case 7: return S(c.pick({ "<script>", "<style>", "<SCRIPT>" })) + c.pick({ "a<b", "</b>", "<!-- x -->", "if(a&&b)", "&amp;", "</scrip", "</ script", "</script x", "x </script", "" }) + c.pick({ "</script>", "</style>", "", "</SCRIPT>", "</script >" });
      default: { utf8 = utf8 && true; S r; for(int n = c.range(1, 4); n > 0; --n) { char ch = static_cast<char>(c.below(256)); if(ch & 0x80) utf8 = false; r += ch; } return r; }
    }
  }
  S operator()()
  {
    S r; int n = c.range(0, c.chance(1, 12) ? 60 : 14);
    for(int i = 0; i < n; ++i) r += piece();
    if(c.chance(1, 20)) { S t = c.pick({ "<b>", "<p>", "x", "<i><u>", "<li>", "<table>", "&eacute;", "\xc3\xa9", "<ul><li>", "&" }); for(int k = c.range(20, 120); k > 0; --k) r += t; }
    if(c.chance(1, 10) && !r.empty()) r.resize(c.below(r.size()));              // may cut a character
    return r;
  }
};

bool well_encoded(const S& s)
{
  for(size_t i = 0; i < s.size(); )
  {
    unsigned char a = s[i]; int n = a < 0x80 ? 0 : a < 0xC2 ? -1 : a < 0xE0 ? 1 : a < 0xF0 ? 2 : a < 0xF5 ? 3 : -1;
    if(n < 0 || i + n >= s.size()) return false;
    for(int k = 1; k <= n; ++k) if((static_cast<unsigned char>(s[i + k]) & 0xC0) != 0x80) return false;
    unsigned char b = n ? s[i + 1] : 0;
    if((a == 0xE0 && b < 0xA0) || (a == 0xED && b >= 0xA0) || (a == 0xF0 && b < 0x90) || (a == 0xF4 && b >= 0x90)) return false;
    if(a == 0xEF && b == 0xBF && static_cast<unsigned char>(s[i + 2]) >= 0xBE) return false;
    i += n + 1;
  }
  return true;
}
bool xml_text(const S& s) { for(unsigned char ch : s) if(ch < 0x20 && ch != '\t' && ch != '\n' && ch != '\r') return false; return well_encoded(s); }
bool ncname(const S& s)
{ if(s.empty() || !(isalpha(static_cast<unsigned char>(s[0])) || s[0] == '_')) return false; for(unsigned char ch : s) if(!isalnum(ch) && ch != '_' && ch != '-' && ch != '.') return false; return true; }
bool qname(const S& s) { size_t k = s.find(':'); return k == S::npos ? ncname(s) : ncname(s.substr(0, k)) && ncname(s.substr(k + 1)); }

// further invariants of what the handlers are given
class Checker : public Recorder
{
public:
  bool ns = true, utf8 = true; int elements = 0, doctypes = 0; std::string root; S all_text;
  void check_text(const S& what, const S& s) { if(utf8 ? !xml_text(s) : [&] { for(unsigned char ch : s) if(ch < 0x20 && ch != '\t' && ch != '\n' && ch != '\r') return true; return false; }()) bad.push_back("illegal character in " + what + ": " + esc(s)); }
  void startElement(const S& u, const S& l, const S& q, const Attributes& a) override
  {
    if(!qname(q)) bad.push_back("illegal element name " + esc(q));
    if(ns) { size_t k = q.find(':'); if(l != (k == S::npos ? q : q.substr(k + 1))) bad.push_back("local name " + l + " of " + q); if(u.empty()) bad.push_back("element without a namespace " + q); if(k == S::npos && u != "http://www.w3.org/1999/xhtml") bad.push_back("namespace of " + q); }
    else if(!l.empty() || !u.empty()) bad.push_back("namespace of " + q);
    for(int i = 0; i < a.getLength(); ++i)
    {
      if(!qname(a.getQName(i))) bad.push_back("illegal attribute name " + esc(a.getQName(i)));
      if(a.getQName(i) == "xmlns" || a.getQName(i).compare(0, 6, "xmlns:") == 0) bad.push_back("declaration as an attribute");
      check_text("attribute", a.getValue(i));
    }
    if(!elements++) root = q;
    Recorder::startElement(u, l, q, a);
  }
  void characters(const S& s) override { if(!s.empty() && !utf8) check_text("text", s); all_text += s; Recorder::characters(s); }
  void ignorableWhitespace(const S& s) override { if(!elements) bad.push_back("ignorable white space before the root element"); Recorder::ignorableWhitespace(s); }
  void comment(const S& s) override { check_text("comment", s); if(s.find("--") != S::npos || (!s.empty() && s.back() == '-')) bad.push_back("illegal comment " + esc(s)); Recorder::comment(s); }
  void processingInstruction(const S& t, const S& d) override
  { if(!ncname(t)) bad.push_back("illegal target " + esc(t)); check_text("instruction", d); if(d.find("?>") != S::npos) bad.push_back("illegal instruction " + esc(d)); S l = t; for(auto& ch : l) ch = tolower(ch); if(l == "xml") bad.push_back("instruction " + t); Recorder::processingInstruction(t, d); }
  void startDTD(const S& n, const S& p, const S& s) override { ++doctypes; Recorder::startDTD(n, p, s); }
  void finish() { if(utf8 && !xml_text(all_text)) bad.push_back("illegal character in the text: " + esc(all_text)); }
};

template<class T> void plug(T& t, Recorder& r) { t.setContentHandler(r); t.setLexicalHandler(r); t.setErrorHandler(r); t.setDTDHandler(r); }
typedef std::vector<std::pair<S, bool> > Flags;
Flags gen_flags(pbt::Ctx& c)
{
  Flags f; if(c.chance(1, 2)) return f;
  auto put = [&](const S& n) { if(c.chance(1, 4)) f.push_back(std::make_pair(n, c.flip())); };
  put(Taggle::namespacesFeature); put(Taggle::ignoreBogonsFeature); put(Taggle::bogonsEmptyFeature); put(Taggle::rootBogonsFeature); put(Taggle::defaultAttributesFeature);
  put(Taggle::translateColonsFeature); put(Taggle::restartElementsFeature); put(Taggle::ignorableWhitespaceFeature); put(Taggle::CDATAElementsFeature);
  return f;
}
bool flag(const Flags& f, const S& n, bool d) { for(auto& x : f) if(x.first == n) d = x.second; return d; }
void apply(Taggle& t, const Flags& f) { for(auto& x : f) t.setFeature(x.first, x.second); }
S brief(const S& s) { return s.substr(s.rfind('/') + 1); }

void run(Taggle& t, std::istream& in, const S& sys = "") { InputSource is(in); if(!sys.empty()) is.setSystemId(sys); t.parse(is); }
void run(Taggle& t, const S& text, const S& sys = "") { std::istringstream in(text); run(t, in, sys); }
// Errors from the parser itself, other than those we throw, are failures.
void must_run(Taggle& t, const S& text, const S& what) { try { run(t, text); } catch(const Thrown&) { throw; } catch(const std::exception& e) { pbt::fail(what, " failed: ", e.what()); } }

// a wide parser's events, passed on narrow
class Narrow : public Arabica::SAX::DefaultHandler<std::wstring>
{
  typedef std::wstring W; typedef Arabica::default_string_adaptor<W> A;
  Recorder& r_; static S n(const W& w) { return A::asStdString(w); }
public:
  Narrow(Recorder& r) : r_(r) { }
  void startDocument() override { r_.startDocument(); }
  void endDocument() override { r_.endDocument(); }
  void startPrefixMapping(const W& p, const W& u) override { r_.startPrefixMapping(n(p), n(u)); }
  void endPrefixMapping(const W& p) override { r_.endPrefixMapping(n(p)); }
  void startElement(const W& u, const W& l, const W& q, const Arabica::SAX::Attributes<W>& a) override
  {
    Arabica::SAX::AttributesImpl<S> b; for(int i = 0; i < a.getLength(); ++i) b.addAttribute(n(a.getURI(i)), n(a.getLocalName(i)), n(a.getQName(i)), n(a.getType(i)), n(a.getValue(i)));
    r_.startElement(n(u), n(l), n(q), b);
  }
  void endElement(const W& u, const W& l, const W& q) override { r_.endElement(n(u), n(l), n(q)); }
  void characters(const W& s) override { r_.characters(n(s)); }
  void ignorableWhitespace(const W& s) override { r_.ignorableWhitespace(n(s)); }
  void processingInstruction(const W& t, const W& d) override { r_.processingInstruction(n(t), n(d)); }
  void comment(const W& s) override { r_.comment(n(s)); }
  void startDTD(const W& a, const W& p, const W& s) override { r_.startDTD(n(a), n(p), n(s)); }
  void endDTD() override { r_.endDTD(); }
};

// do the tags of the text match up?
bool repaired(const S& t)
{
  std::vector<S> open;
  for(size_t i = 0; i < t.size(); ++i) if(t[i] == '<')
  {
    size_t e = t.find('>', i); if(e == S::npos) return true;
    bool close = i + 1 < t.size() && t[i + 1] == '/'; size_t b = i + (close ? 2 : 1), k = b; while(k < e && isalnum(static_cast<unsigned char>(t[k]))) ++k;
    S n = t.substr(b, k - b); if(n.empty()) { i = e; continue; }
    if(close) { if(open.empty() || open.back() != n) return true; open.pop_back(); } else if(t[e - 1] != '/') open.push_back(n);
    i = e;
  }
  return !open.empty();
}

} // namespace

PBT_PROPERTY(G01, "at least 3 elements were reported from tags that do not match up")
{
  Soup soup{ c }; S text = soup();
  bool utf8 = well_encoded(text);
  Flags f = gen_flags(c);
  c << "text " << esc(text) << "\n"; for(auto& x : f) c << "  " << brief(x.first) << " " << x.second << "\n";
  Taggle fresh; apply(fresh, f);
  Checker r; r.utf8 = utf8; r.ns = flag(f, Taggle::namespacesFeature, true); plug(fresh, r);
  must_run(fresh, text, "parse"); r.finish();
  for(auto& e : r.ev) c << "  " << esc(e) << "\n";
  if(!r.bad.empty()) pbt::fail(r.bad[0]);
  if(r.errors || r.fatals) pbt::fail("errors reported: ", r.messages);
  if(!r.elements) pbt::fail("no root element");
  if(r.ev.back() != "endDocument") pbt::fail("no endDocument");
  if(r.doctypes > 1) pbt::fail("several doctypes");
  // what was reported can be written down
  if(utf8 && r.ns && !r.doctypes)
  {
    Taggle t; apply(t, f); std::ostringstream out; Writer w(out, t);
    std::istringstream in(text); InputSource is(in); w.parse(is);
    std::string err; auto d = domx::parse(out.str(), &err);
    if(!err.empty() || d == 0) pbt::fail("written down it is not well-formed: ", err, "\n ", esc(out.str()));
  }
  // delivery of the text does not matter
  if(c.flip())
  {
    std::vector<int> sizes; for(int n = c.range(1, 4); n > 0; --n) sizes.push_back(c.range(1, c.flip() ? 3 : 40));
    Chunks buf(text, sizes); std::istream in(&buf); Taggle t; apply(t, f); Checker q; q.utf8 = utf8; q.ns = r.ns; plug(t, q);
    try { run(t, in); } catch(const std::exception& e) { pbt::fail("parse in pieces failed: ", e.what()); }
    if(q.ev != r.ev) pbt::fail("read in pieces: ", diff(q.ev, r.ev));
  }
  // nor the string type
  if(utf8 && c.chance(1, 4))
  {
    typedef std::wstring W; typedef Arabica::SAX::Taggle<W> WT;
    WT t; for(auto& x : f) t.setFeature(W(x.first.begin(), x.first.end()), x.second);
    Checker q; q.utf8 = utf8; q.ns = r.ns; Narrow h(q); t.setContentHandler(h); t.setLexicalHandler(h);
    std::istringstream in(text); Arabica::SAX::InputSource<W> is(in);
    try { t.parse(is); } catch(const std::exception& e) { pbt::fail("parse into wide strings failed: ", e.what()); }
    if(q.ev != r.ev) pbt::fail("as wide strings: ", diff(q.ev, r.ev));
    c.label("wide strings");
  }
  // nor does what the parser did before
  if(c.flip())
  {
    Taggle t; int n = c.range(1, 2);
    for(int i = 0; i < n; ++i)
    {
      S other = soup(); Flags g = gen_flags(c); Recorder x; if(c.chance(1, 3)) x.throw_at = c.below(10);
      c << "before: " << esc(other) << (x.throw_at >= 0 ? " thrown out of" : "") << "\n";
      for(auto& y : g) t.setFeature(y.first, y.second);
      plug(t, x); try { must_run(t, other, "earlier parse"); } catch(const Thrown&) { }
    }
    Taggle def;
    for(auto& n : { Taggle::namespacesFeature, Taggle::ignoreBogonsFeature, Taggle::bogonsEmptyFeature, Taggle::rootBogonsFeature, Taggle::defaultAttributesFeature, Taggle::translateColonsFeature, Taggle::restartElementsFeature, Taggle::ignorableWhitespaceFeature, Taggle::CDATAElementsFeature })
    { t.setFeature(n, def.getFeature(n)); if(t.getFeature(n) != def.getFeature(n)) pbt::fail("feature ", n, " not set"); }
    apply(t, f); Checker q; q.utf8 = utf8; q.ns = r.ns; plug(t, q); must_run(t, text, "parse by a used parser");
    if(q.ev != r.ev) pbt::fail("a used parser: ", diff(q.ev, r.ev));
    c.label("used parser");
  }
  // something had to be repaired: the text does not close what it opens, in order
  c.nontrivial(r.elements >= 3 && repaired(text));
}

// ---------------------------------------------------------------- G02
namespace {

// The schema: what an element may contain, and what it counts as.  I in line, N in line but not a link, B block, T text, l list item, D definition, t part of a table, r row, C cell, c column,
// O options, G legend, P parameter, A area, H head, F form, p paragraph, b table
struct El { const char* name; const char* holds; const char* is; };
const El schema[] = {
  { "a", "TNB", "I" }, { "abbr", "TI", "IN" }, { "acronym", "TI", "IN" }, { "address", "TIp", "B" }, { "applet", "TPIB", "IN" }, { "area", "", "A" }, { "b", "TI", "IN" }, { "base", "", "H" }, { "basefont", "", "IN" }, { "bdo", "TI", "IN" },
  { "big", "TI", "IN" }, { "blockquote", "TIB", "B" }, { "br", "", "IN" }, { "button", "TIB", "IN" }, { "canvas", "TI", "IN" }, { "caption", "TI", "t" }, { "center", "TIB", "B" }, { "cite", "TI", "IN" }, { "code", "TI", "IN" },
  { "col", "", "ct" }, { "colgroup", "c", "t" }, { "dd", "TIB", "D" }, { "del", "TIB", "IB" }, { "dfn", "TI", "IN" }, { "dir", "l", "B" }, { "div", "TIB", "B" }, { "dl", "D", "B" }, { "dt", "TI", "D" }, { "em", "TI", "IN" },
  { "fieldset", "TGIB", "B" }, { "font", "TI", "IN" }, { "form", "TINBrC", "BF" }, { "h1", "TI", "B" }, { "h2", "TI", "B" }, { "h6", "TI", "B" }, { "hr", "", "B" }, { "i", "TI", "IN" }, { "iframe", "TIB", "IN" }, { "img", "", "IN" },
  { "input", "", "IN" }, { "ins", "TIB", "IB" }, { "kbd", "TI", "IN" }, { "label", "TI", "IN" }, { "legend", "TI", "G" }, { "li", "TIB", "l" }, { "link", "", "HI" }, { "listing", "TI", "B" }, { "map", "BA", "I" }, { "menu", "l", "B" },
  { "meta", "", "H" }, { "nobr", "TI", "IN" }, { "noscript", "TIB", "B" }, { "object", "TPIB", "HIN" }, { "ol", "l", "B" }, { "optgroup", "O", "O" }, { "option", "T", "O" }, { "p", "TIb", "Bp" }, { "param", "", "P" }, { "pre", "TI", "B" },
  { "q", "TI", "IN" }, { "rb", "TI", "IN" }, { "rp", "TI", "IN" }, { "rt", "TI", "IN" }, { "ruby", "TI", "IN" }, { "s", "TI", "IN" }, { "samp", "TI", "IN" }, { "script", "*", "any" }, { "select", "O", "I" }, { "small", "TI", "IN" },
  { "span", "TI", "IN" }, { "strike", "TI", "IN" }, { "strong", "TI", "IN" }, { "style", "*", "HI" }, { "sub", "TI", "IN" }, { "sup", "TI", "IN" }, { "table", "Ft", "Bb" }, { "tbody", "r", "t" }, { "td", "TIB", "C" }, { "textarea", "T", "I" },
  { "tfoot", "rFC", "t" }, { "th", "TIB", "C" }, { "thead", "rFC", "t" }, { "title", "T", "H" }, { "tr", "FC", "rt" }, { "tt", "TI", "IN" }, { "u", "TI", "IN" }, { "ul", "l", "B" }, { "var", "TI", "IN" }, { "wbr", "", "IN" }, { "xmp", "TI", "B" } };
bool fits(const char* holds, const El& e) { if(e.is == S("any")) return true; for(const char* p = e.is; *p; ++p) if(strchr(holds, *p)) return true; return false; }
S lower(S s) { for(auto& ch : s) ch = tolower(ch); return s; }

struct Nested
{
  pbt::Ctx& c; Flags f; S out; std::vector<S> ev; int budget = 25, elements = 0, implied = 0; bool chars = false, started = false, ns, colons, defaults, ignorable, no_bogons;
  std::set<S> open_prefixes;
  Nested(pbt::Ctx& cc, const Flags& fl) : c(cc), f(fl)
  {
    ns = flag(f, Taggle::namespacesFeature, true); colons = flag(f, Taggle::translateColonsFeature, false); defaults = flag(f, Taggle::defaultAttributesFeature, true);
    ignorable = flag(f, Taggle::ignorableWhitespaceFeature, false); no_bogons = flag(f, Taggle::ignoreBogonsFeature, false);
  }
  void put(const S& e) { ev.push_back(e); chars = false; }
  void text(const S& s) { if(s.empty()) return; if(chars) ev.back() += s; else { ev.push_back("characters " + s); chars = true; } }
  S mixed(S n) { if(c.chance(1, 6)) for(auto& ch : n) if(c.flip()) ch = toupper(ch); return n; }

  // a reference, as written and as meant
  std::pair<S, S> ref()
  {
    typedef std::pair<S, S> R;
    if(c.chance(1, 3)) return c.pick(std::vector<R>{ R("&amp;", "&"), R("&lt;", "<"), R("&gt;", ">"), R("&quot;", "\""), R("&nbsp;", "\xc2\xa0"), R("&copy;", "\xc2\xa9"), R("&eacute;", "\xc3\xa9"), R("&Eacute;", "\xc3\x89"), R("&yuml;", "\xc3\xbf"),
      R("&szlig;", "\xc3\x9f"), R("&times;", "\xc3\x97"), R("&divide;", "\xc3\xb7"), R("&thorn;", "\xc3\xbe"), R("&frac12;", "\xc2\xbd"), R("&iexcl;", "\xc2\xa1"), R("&Aring;", "\xc3\x85"), R("&para;", "\xc2\xb6"), R("&apos;", "'") });
    if(c.chance(1, 6)) { S n = c.pick({ "&nosuch;", "&x1;", "&AMPER;", "&zz9;" }); return R(n, n); }
    int cp; switch(c.below(4)) { case 0: cp = c.range(0x21, 0x7E); break; case 1: cp = c.range(0xA0, 0x7FF); break; case 2: cp = c.range(0x800, 0xD7FF); break; default: cp = c.range(0x10000, 0x10FFFF); }
    char b[32]; snprintf(b, sizeof b, c.flip() ? "&#%d;" : c.flip() ? "&#x%x;" : "&#x%04X;", cp); return R(b, utf8(cp));
  }
  static S utf8(int cp)
  {
    S r; if(cp < 0x80) r += static_cast<char>(cp); else if(cp < 0x800) { r += static_cast<char>(0xC0 | cp >> 6); r += static_cast<char>(0x80 | (cp & 63)); }
    else if(cp < 0x10000) { r += static_cast<char>(0xE0 | cp >> 12); r += static_cast<char>(0x80 | (cp >> 6 & 63)); r += static_cast<char>(0x80 | (cp & 63)); }
    else { r += static_cast<char>(0xF0 | cp >> 18); r += static_cast<char>(0x80 | (cp >> 12 & 63)); r += static_cast<char>(0x80 | (cp >> 6 & 63)); r += static_cast<char>(0x80 | (cp & 63)); }
    return r;
  }
  S gen_text(bool solid)        // writes it and reports what it means
  {
    S m; if(solid) { S w = c.pick({ "x", "Word", "9", "\xc3\xa9t\xc3\xa9" }); out += w; m += w; }
    for(int n = c.range(1, c.chance(1, 30) ? 80 : 3); n > 0; --n)
      if(c.chance(1, 3)) { auto r = ref(); out += r.first; m += r.second; }
      else { S w = c.pick({ "x", "foo", "a b", " ", "\n", "\t", "  z", "]]>", "--", ">", "=", "'", "\"", "/", "& ", "&& ", "< ", "-", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "?", "!", "#", "/>", "1 < 2", "a & b" }); out += w; m += w; }
    if(!out.empty() && out.back() == '<') { out += ' '; m += ' '; }
    return m;
  }
  void white()
  { S w = c.pick({ " ", "\n", "  \n ", "\t" }); out += w; if(ignorable && started) put("ignorable " + w); }
  void misc()
  {
    if(c.chance(2, 3)) { S t = c.pick({ "", " x ", "a - b", "&amp;", "<b>", "\n", "caf\xc3\xa9", "?>", "x>y" }); out += "<!--" + t + "-->"; put("comment " + t); }
    else { S t = c.pick({ "php", "x", "my-pi" }), d = c.pick({ "", "a", "a b", "x='1' &amp;", "<b" }); out += "<?" + t + (d.empty() ? S() : " " + d) + c.pick({ "?>", ">" }); put("pi " + t + "|" + d); }
  }
  // attributes, written; what they are is returned
  S gen_attrs(const S& el, std::set<S>& prefixes, bool bogon, bool& unquoted)
  {
    static const std::vector<std::pair<S, std::vector<std::pair<S, S> > > > dflt = {
      { "a", { { "shape", "rect" } } }, { "area", { { "shape", "rect" } } }, { "br", { { "clear", "none" } } }, { "button", { { "type", "submit" } } }, { "col", { { "span", "1" } } }, { "colgroup", { { "span", "1" } } },
      { "form", { { "method", "get" }, { "enctype", "application/x-www-form-urlencoded" } } }, { "input", { { "type", "text" } } }, { "td", { { "colspan", "1" }, { "rowspan", "1" } } }, { "th", { { "colspan", "1" }, { "rowspan", "1" } } },
      { "param", { { "valuetype", "data" } } }, { "iframe", { { "frameborder", "1" }, { "scrolling", "auto" } } }, { "rt", { { "rbspan", "1" } } } };
    std::map<S, S> have;
    if(defaults && !bogon) for(auto& d : dflt) if(d.first == el) for(auto& x : d.second) have[x.first] = x.second;
    std::set<S> used; unquoted = false;
    for(int n = c.weighted({ 6, 3, 2, 1 }); n > 0; --n)
    {
      bool token = c.chance(1, 3);
      S a = token ? c.pick({ "id", "class", "lang", "dir", "name", "checked", "value", "type" }) : c.pick({ "title", "href", "alt", "style", "onclick", "src", "data-x", "shape", "colspan", "xml:lang", "x:a", "y:b", "method", "clear" });
      if(!used.insert(a).second) continue;
      S written = mixed(a), v; out += c.pick({ " ", " ", "\n", "  ", "\t" }) + written; unquoted = false;
      switch(c.below(5))
      {
        case 0: v = a; if(colons && a.find(':') != S::npos) v[a.find(':')] = '_'; break;                                                   // minimised: the value is the name
        case 1: { S sp1 = c.pick({ "", "", " " }); out += sp1 + "=" + sp1; v = c.pick({ "x", "a1", "50", "a_b", "x-y" }); S w = v; if(!token && c.flip()) { w = v + c.pick({ "&amp;", "&eacute;" }); v = v + (w[w.size() - 2] == 'p' ? "&" : "\xc3\xa9"); } out += w; unquoted = true; break; }
        default:
        {
          char q = c.flip() ? '"' : '\''; out += c.pick({ "=", "=", " = ", "= ", " =" }); out += q;
          if(token) { v = c.pick({ "x", "en", "ltr", "a1" }); out += v; }
          else for(int k = c.range(0, 3); k > 0; --k)
            if(c.chance(1, 3)) { auto r = ref(); out += r.first; v += r.second; }
            else
            {
              S w = c.pick({ "x", "a b", " ", "\n", "\t", "<", ">", "/", "=", "&", "& ", "?a=1&b=2", "\xc3\xa9", "/>", "'", "\"", "<!--" });
              if(w.find(q) != S::npos) continue;
              out += w; for(auto& ch : w) if(ch == '\n' || ch == '\t') ch = ' '; v += w;
              if(w == "&" || w == "?a=1&b=2") { out += " "; v += " "; }
            }
          out += q;
        }
      }
      if(v.empty()) c.label("empty attribute value");
      if(a.find(':') != S::npos && colons) { size_t k = a.find(':'); S b = a; b[k] = '_'; have[b] = v; }
      else have[a] = v;
    }
    std::vector<S> v;
    for(auto& h : have)
    {
      size_t k = h.first.find(':'); S p = k == S::npos ? S() : h.first.substr(0, k), u = p == "xml" ? S("http://www.w3.org/XML/1998/namespace") : p.empty() ? S() : "urn:x-prefix:" + p;
      if(!p.empty() && p != "xml") prefixes.insert(p);
      v.push_back(attr_line(u, h.first.substr(k == S::npos ? 0 : k + 1), h.first, h.second));
    }
    std::sort(v.begin(), v.end()); S r; for(auto& s : v) r += " " + s; return r;
  }
  S uri(const S& q) { size_t k = q.find(':'); return k == S::npos ? S("http://www.w3.org/1999/xhtml") : "urn:x-prefix:" + q.substr(0, k); }
  void start_event(const S& q, const S& atts, const std::set<S>& prefixes)
  {
    for(auto& p : prefixes) put("map " + p + "=urn:x-prefix:" + p);
    put(ns ? "start {" + uri(q) + "}" + q.substr(q.find(':') + 1) + "|" + q + atts : "start {}|" + q + atts); started = true; ++elements;
  }
  void end_event(const S& q, const std::set<S>& prefixes)
  {
    put(ns ? "end {" + uri(q) + "}" + q.substr(q.find(':') + 1) + "|" + q : "end {}|" + q);
    for(auto p = prefixes.rbegin(); p != prefixes.rend(); ++p) put("unmap " + *p);
  }
  void close(const S& n) { out += "</" + mixed(n) + c.pick({ "", "", "", " " }) + ">"; }
  void raw(const S& n)
  {
    S m; for(int k = c.range(0, 3); k > 0; --k) m += c.pick({ "a<b", "x", "&amp;", "if(a && b)", "<!-- x -->", "\n", "<p>", "'", "\"<\"", "--", "]]>", "é", "<", ">", "<br/>" });
    if(!m.empty() && m.back() == '<') m += " ";
    out += m; text(m); close(n);
  }
  void element(const El& e, bool bogon = false)
  {
    S n = e.name, q = n; bool void_ = !*e.holds && !bogon, cdata = e.holds == S("*"); std::set<S> prefixes; bool unquoted; if(bogon && colons) for(auto& ch : q) if(ch == ':') ch = '_';
    if(q.find(':') != S::npos) prefixes.insert(q.substr(0, q.find(':')));
    bool dropped = bogon && no_bogons;
    out += "<" + (bogon ? n : mixed(n)); S atts = gen_attrs(n, prefixes, bogon, unquoted);
    bool self = !cdata && c.chance(1, void_ ? 3 : 12);
    out += self ? (unquoted ? S(" />") : S(c.pick({ "/>", " />" }))) : S(c.pick({ ">", ">", ">", " >", "\n>" }));
    if(!dropped) start_event(q, atts, prefixes);
    if(self) c.label("empty element tag");
    if(cdata) raw(n);
    else if(!self && !void_) { content(e.holds, bogon); if(bogon) out += "</" + n + ">"; else close(n); }
    if(!dropped) end_event(q, prefixes);
  }
  void content(const char* holds, bool bogon = false)
  {
    bool may_text = strchr(holds, 'T') != 0, flow = strchr(holds, 'I') && strchr(holds, 'B') && may_text;
    std::vector<El> els; for(auto& e : schema) if(fits(holds, e) && (e.is != S("any") || c.chance(1, 12))) els.push_back(e);
    for(int n = c.range(0, 4); n > 0 && budget > 0; --n)
    {
      --budget;
      switch(c.weighted({ 6, 4, 1, 1, flow ? 1 : 0 }))
      {
        case 0: if(!els.empty()) { element(c.pick(els)); break; }
        case 1: if(may_text) text(gen_text(false)); else white(); break;
        case 2: misc(); break;
        case 3: if(may_text) { S m = c.pick({ "x", "<b>&amp;", "a]", "a]]b", "\xc3\xa9", "x>" }); out += "<![CDATA[" + m + "]]>"; text(m); } else white(); break;
        default: { El b = { c.pick({ "foo", "o:p", "w:x", "bar" }), "TIB", "" }; element(b, true); }
      }
    }
  }
  void head_content() { for(int n = c.range(0, 3); n > 0; --n) switch(c.below(4)) { case 0: white(); break; case 1: misc(); break; default: { std::vector<El> els; for(auto& e : schema) if(strchr(e.is, 'H') && S(e.name) != "object") els.push_back(e); element(c.pick(els)); } } }
  void document()
  {
    put("startDocument"); put("map html=http://www.w3.org/1999/xhtml");
    while(c.chance(1, 5)) { if(c.flip()) white(); else misc(); }
    if(c.chance(1, 3))
    {
      S p = c.pick({ "-//W3C//DTD HTML 4.01//EN", "-//X//Y", "ISO" }), s = c.pick({ "http://www.w3.org/TR/html4/strict.dtd", "about:legacy-compat", "x'y" }), k = c.pick({ "DOCTYPE", "doctype", "DocType" });
      char q = s.find('\'') != S::npos || c.flip() ? '"' : '\'';
      switch(c.below(4))
      {
        case 0: out += "<!" + k + " html>"; put("startDTD html||"); break;
        case 1: out += "<!" + k + " html PUBLIC \"" + p + "\" " + q + s + q + ">"; put("startDTD html|" + p + "|" + s); break;
        case 2: out += "<!" + k + "\nhtml\nPUBLIC \"" + p + "\">"; put("startDTD html|" + p + "|"); break;
        default: out += "<!" + k + " html SYSTEM " + q + s + q + " >"; put("startDTD html||" + s);
      }
      put("endDTD"); while(c.chance(1, 5)) { if(c.flip()) white(); else misc(); }
    }
    std::set<S> none, hp, bp, xp; bool u; S a;
    bool html = c.chance(2, 3), head = c.flip(), body = c.chance(2, 3);
    if(html) { out += "<" + mixed("html"); a = gen_attrs("html", xp, false, u); out += ">"; start_event("html", a, xp); while(c.chance(1, 4)) { if(c.flip()) white(); else misc(); } }
    else ++implied;
    if(head)
    {
      out += "<head"; a = gen_attrs("head", hp, false, u); out += ">"; if(!html) start_event("html", "", none); start_event("head", a, hp); head_content(); close("head"); end_event("head", hp);
      while(c.chance(1, 4)) { if(c.flip()) white(); else misc(); }
    }
    if(body)
    {
      out += "<" + mixed("body"); a = gen_attrs("body", bp, false, u); out += ">"; if(!html && !head) start_event("html", "", none); start_event("body", a, bp);
      content("TIB"); close("body"); end_event("body", bp);
    }
    else
    {
      ++implied; if(!html && !head) start_event("html", "", none); start_event("body", "", none);
      static const std::vector<S> first = { "p", "div", "h1", "ul", "b", "span", "blockquote", "table", "em", "dl", "pre", "br", "img", "hr" };
      S n = c.pick(first);
      if(c.chance(1, 3) && (out.empty() || !isspace(static_cast<unsigned char>(out.back())))) text(gen_text(true)); else for(auto& e : schema) if(e.name == n) element(e);
      content("TIB"); end_event("body", none);
    }
    if(html && body) { while(c.chance(1, 4)) { S w = c.pick({ " ", "\n" }); out += w; if(ignorable) put("ignorable " + w); } close("html"); while(c.chance(1, 4)) { S w = c.pick({ " ", "\n" }); out += w; if(ignorable) put("ignorable " + w); } }
    else if(html) close("html");
    end_event("html", html ? xp : none);
    put("unmap html"); put("endDocument");
    auto kind = [](const S& s) { return s.compare(0, 4, "map ") == 0 ? 1 : s.compare(0, 6, "unmap ") == 0 ? 2 : 0; };    // mappings may come in any order
    for(auto b = ev.begin(); b != ev.end(); ) { auto e = b + 1; if(int k = kind(*b)) while(e != ev.end() && kind(*e) == k) ++e; if(kind(*b)) std::sort(b, e); b = e; }
  }
};

} // namespace

PBT_PROPERTY(G02, "at least 4 elements, and attributes, references or implied elements")
{
  Flags f;
  auto maybe = [&](const S& n) { if(c.chance(1, 6)) f.push_back(std::make_pair(n, c.flip())); };
  maybe(Taggle::namespacesFeature); maybe(Taggle::ignoreBogonsFeature); maybe(Taggle::defaultAttributesFeature); maybe(Taggle::translateColonsFeature); maybe(Taggle::ignorableWhitespaceFeature); maybe(Taggle::restartElementsFeature);
  Nested d(c, f); d.document();
  c << "html " << esc(d.out) << "\n"; for(auto& x : f) c << "  " << brief(x.first) << " " << x.second << "\n";
  Taggle t; apply(t, f); Recorder r; r.keep_cdata = true; plug(t, r);
  must_run(t, d.out, "parse");
  for(auto& e : r.ev) c << "  " << esc(e) << "\n";
  if(!r.bad.empty()) pbt::fail(r.bad[0]);
  auto merged = [&](const std::vector<S>& v) { std::vector<S> m; for(auto& s : v) if(!d.ns && (s.compare(0, 4, "map ") == 0 || s.compare(0, 6, "unmap ") == 0)) continue; else if(s.compare(0, 10, "ignorable ") == 0 && !m.empty() && m.back().compare(0, 10, "ignorable ") == 0) m.back() += s.substr(10); else m.push_back(s);
    auto first = std::find_if(m.begin(), m.end(), [](const S& s) { return s.compare(0, 6, "start ") == 0; });             // the prefixes in force at the root, wherever they were mapped before it
    auto maps = std::stable_partition(m.begin(), first, [](const S& s) { return s.compare(0, 4, "map ") != 0; }); std::sort(maps, first); return m; };
  auto got = merged(r.ev), want = merged(d.ev);
  if(got != want) pbt::fail(diff(got, want));
  if(d.implied) c.label("implied elements");
  c.nontrivial(d.elements >= 4 && (d.implied || d.out.find('=') != S::npos || d.out.find('&') != S::npos));
}
