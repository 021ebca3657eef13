// S04: the readers built on Expat, libxml2 and Xerces report the same document
#include "be_reader.hpp"
#include <SAX/SAXException.hpp>
using namespace saxx;

namespace {
const char* const names[3] = { "expat", "libxml2", "xerces" };
std::unique_ptr<be::AnyReader> make(int i) { return i == 0 ? be::expat() : i == 1 ? be::libxml2() : be::xerces(); }

// only what all back ends promise: CDATA boundaries, entity boundaries and the like left aside
std::vector<S> common(const std::vector<S>& ev)
{
  std::vector<S> r; bool chars = false;
  for(auto& e : ev)
  {
    static const char* const skip[] = { "startCDATA", "endCDATA", "startDTD", "endDTD", "startEntity", "endEntity", "elementDecl", "attributeDecl", "internalEntityDecl", "externalEntityDecl", "notationDecl", "unparsedEntityDecl" };
    bool drop = false; for(auto s : skip) drop = drop || e.compare(0, strlen(s), s) == 0;
    if(drop) continue;
    bool ch = e.compare(0, 11, "characters ") == 0;
    if(ch && chars) r.back() += e.substr(11); else r.push_back(e);
    chars = ch;
  }
  return r;
}

// ways to spoil a well-formed document so that no parser may accept it
S spoil(pbt::Ctx& c, const S& x, S& how)
{
  auto find = [&](const S& what) { std::vector<size_t> v; for(size_t p = x.find(what); p != S::npos; p = x.find(what, p + 1)) v.push_back(p); return v; };
  size_t root = 0;   // the root element's start tag
  for(size_t p = 0; (p = x.find('<', p)) != S::npos; )
  { if(x.compare(p, 4, "<!--") == 0) { p = x.find("-->", p + 4); continue; } if(x.compare(p, 2, "<?") == 0) { p = x.find("?>", p); continue; } root = p; break; }
  size_t last = x.size(); { size_t p = root; int depth = 0; while(p < x.size())
    {
      if(x.compare(p, 4, "<!--") == 0) p = x.find("-->", p + 4) + 3;
      else if(x.compare(p, 9, "<![CDATA[") == 0) p = x.find("]]>", p) + 3;
      else if(x.compare(p, 2, "<?") == 0) p = x.find("?>", p) + 2;
      else if(x.compare(p, 2, "</") == 0) { size_t q = x.find('>', p); if(--depth == 0) { last = p; break; } p = q + 1; }
      else if(x[p] == '<') { char quote = 0; size_t q = p; for(; q < x.size(); ++q) { if(quote) { if(x[q] == quote) quote = 0; } else if(x[q] == '"' || x[q] == '\'') quote = x[q]; else if(x[q] == '>') break; }
        bool empty = x[q-1] == '/'; if(!empty) ++depth; else if(!depth) { last = S::npos; break; } p = q + 1; }
      else ++p;
    } }
  bool has_content = last != S::npos;
  size_t tag_name = root + 1; while(tag_name < x.size() && !strchr(" \t\r\n/>", x[tag_name])) ++tag_name;
  auto in_root = [&](const S& t) { return has_content ? x.substr(0, last) + t + x.substr(last) : x + t; };
  switch(c.below(16))
  {
    case 0: how = "cut short"; return x.substr(0, root + 1 + c.below((has_content ? last - root : 1)));
    case 1: how = "stray ampersand"; return in_root(c.pick({ "&", "& ", "&;", "&1;", "&a" }));
    case 2: how = "stray less-than"; return in_root(c.pick({ "<", "< ", "<1/>", "<>" }));
    case 3: how = "attribute twice"; return x.substr(0, tag_name) + " aa='1' aa='2'" + x.substr(tag_name);
    case 4: how = "text after the root"; return x + c.pick({ "x", "&#32;", "]]>", "<![CDATA[]]>" });
    case 5: how = "second root"; return x + "<a/>";
    case 6: how = "comment with --"; return in_root(c.pick({ "<!-- -- -->", "<!----->" }));
    case 7: how = "]]> in text"; return in_root("]]>");
    case 8: how = "unfinished section"; return in_root(c.pick({ "<!--", "<![CDATA[", "<?pi" }));
    case 9: how = "undefined entity"; return in_root("&nosuch;");
    case 10: how = "bad reference"; return in_root(c.pick({ "&#0;", "&#xD800;", "&#xFFFE;", "&#1;", "&#x110000;", "&#;" , "&#x;"}));
    case 11: how = "bad character"; { S b = c.pick({ "\x01", "\x0b", "\x1f", "\xff" , "\xc3", "\xef\xbf\xbf" }); return has_content ? in_root(b) : x + "<!--" + b + "-->"; }
    case 12: how = "attribute value"; return x.substr(0, tag_name) + c.pick({ " aa='<'", " aa", " aa=1", " aa='&'", " aa='1'bb='2'" }) + x.substr(tag_name);
    case 13: how = "wrong end tag"; return in_root(c.pick({ "<a></b>", "</nosuch>", "<a></a", "<a></ a>", "<a><b></a></b>" }));
    case 14: how = "reserved target"; return in_root("<?xml version='1.0'?>");
    default: how = "nothing"; return c.pick({ "", " ", "<!--c-->", "text", "<?pi?>" });
  }
  (void)find;
}
}

PBT_PROPERTY(S04, "a document of at least six events with a namespace declaration or characters beyond ASCII; or a malformed one")
{
  Features f = gen_features(c); if(!f.ns) f.prefixes = true;
  static std::unique_ptr<be::AnyReader> spare = be::xerces();   // the Xerces library is only started once
  bool reuse = c.chance(1, 2); int rounds = c.range(1, 3); bool nt = false;
  std::unique_ptr<be::AnyReader> local[3]; for(int b = 0; b < 3; ++b) local[b] = make(b);
  for(int round = 0; round < rounds; ++round)
  {
    model::Opts o; model::NodeP m = model::gen_doc(c, o); S x;
    if(c.chance(1, 4)) x = c.pick({ "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding='UTF-8' ?>\n" });
    bool bad = c.chance(1, 3), entity = !bad && c.chance(1, 3); S doctype;
    if(entity)
    {
      // an internal entity, standing for some text at the end of the root element
      model::Node* root = const_cast<model::Node*>(m->root_elem()); root->add(model::TEXT, "zqzqz");
      doctype = "<!DOCTYPE " + root->qname() + c.pick({ " [<!ENTITY e 'some &#38;#38; text'>]>", "[<!ENTITY e \"some &#38;#38; text\"> ]>" });
    }
    for(auto& k : m->kids) { if(c.chance(1, 6)) x += "\n"; if(entity && k->kind == model::ELEM) x += doctype; model::ser(&c, *k, x); }
    if(entity) { size_t p = x.find("zqzqz"); if(p != S::npos) x.replace(p, 5, "&e;"); else entity = false; const_cast<model::Node*>(m->root_elem())->kids.back()->value = entity ? "some & text" : "zqzqz"; }
    S how; if(bad) x = spoil(c, x, how);
    c << (f.ns ? "" : "(no namespaces) ") << (f.prefixes ? "" : "(no prefixes) ") << how << " " << esc(x) << "\n";
    std::vector<S> want; want.push_back("startDocument"); for(auto& k : m->kids) node_events(*k, f, want); want.push_back("endDocument"); want = common(want);
    for(int b = 0; b < 3; ++b)
    {
      be::AnyReader& r = *local[b]; if(!reuse) local[b] = make(b); be::AnyReader& rr = *local[b]; (void)r;
      Recorder rec; rec.plain_xmlns = true; rec.qnames_only = !f.ns; rr.set(f); rr.attach(rec);
      std::istringstream ss(x); InputSource is(ss); S threw;
      try { rr.parse(is); } catch(const Arabica::SAX::SAXException& e) { threw = e.what(); }
      if(bad) { if(!threw.empty()) continue; pbt::require(rec.errors + rec.fatals > 0, names[b], " reports no error for ", how, " in ", esc(x)); if(b != 1) pbt::require(rec.fatals > 0, names[b], " reports no fatal error for ", how, " in ", esc(x)); continue; }
      pbt::require_eq(threw, S(), S(names[b]) + " threw for " + esc(x));
      pbt::require_eq(rec.messages, S(), S("errors reported by ") + names[b] + " for " + esc(x));
      S df = diff(common(rec.ev), want); pbt::require(df.empty(), names[b], ": ", df, "\n in ", esc(x));
      S ck = rec.check(true); pbt::require(ck.empty(), names[b], ": ", ck, " in ", esc(x));
    }
    bool wide = false; for(char ch : x) wide = wide || (ch & 0x80);
    nt = nt || bad || (want.size() > 7 && (wide || x.find("xmlns") != S::npos));
    if(entity) c.label("internal entity"); if(bad) c.label("malformed"); else c.label("well-formed"); if(reuse && round) c.label("reader used before");
  }
  c.nontrivial(nt);
}
