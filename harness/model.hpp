// A small, independent XML tree model, with a generator and a serialiser.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace model {

enum Kind { DOC, ELEM, TEXT, CDATA, COMMENT, PI, FRAG };

static const char* const XMLNS_URI = "http://www.w3.org/2000/xmlns/";
static const char* const XML_URI = "http://www.w3.org/XML/1998/namespace";

struct Attr { std::string prefix, local, uri, value; std::string qname() const { return prefix.empty() ? local : prefix + ":" + local; } };

struct Node
{
  Kind kind = ELEM;
  std::string prefix, local, uri;      // ELEM; local is the target of a PI
  std::string value;                   // TEXT, CDATA, COMMENT, PI
  std::vector<std::pair<std::string, std::string> > ns;   // declarations, prefix -> uri ("" allowed for the default)
  std::vector<Attr> attrs;
  std::vector<std::unique_ptr<Node> > kids;
  Node* parent = 0;

  Node(Kind k = ELEM) : kind(k) { }
  std::string qname() const { return prefix.empty() ? local : prefix + ":" + local; }
  Node* add(std::unique_ptr<Node> n) { n->parent = this; kids.push_back(std::move(n)); return kids.back().get(); }
  Node* add(Kind k, const std::string& v = "") { std::unique_ptr<Node> n(new Node(k)); n->value = v; return add(std::move(n)); }
  const Node* root_elem() const { for(auto& k : kids) if(k->kind == ELEM) return k.get(); return 0; }
  bool lookup(const std::string& p, std::string& u) const
  {
    if(p == "xml") { u = XML_URI; return true; }
    for(const Node* n = this; n; n = n->parent)
      for(auto& d : n->ns) if(d.first == p) { u = d.second; return !(u.empty() && !p.empty()); }
    u = ""; return p.empty();
  }
  std::map<std::string, std::string> in_scope() const
  {
    std::map<std::string, std::string> m; std::set<std::string> seen;
    for(const Node* n = this; n; n = n->parent)
      for(auto& d : n->ns) if(seen.insert(d.first).second && !d.second.empty()) m[d.first] = d.second;
    m["xml"] = XML_URI;
    return m;
  }
  std::string text() const
  {
    if(kind == TEXT || kind == CDATA || kind == COMMENT || kind == PI) return value;
    std::string r; for(auto& k : kids) if(k->kind != COMMENT && k->kind != PI) r += k->text(); return r;
  }
};
typedef std::unique_ptr<Node> NodeP;

struct Opts
{
  int max_nodes = 30;
  int max_depth = 6;
  bool ns = true;            // use namespaces
  bool undeclare = true;     // xmlns=""
  bool attrs = true, xml_attrs = true;
  bool cdata = true, comments = true, pis = true, prolog = true;
  bool nonascii = true;
  bool nasty = true;         // markup characters, white space in values, ]]>
  std::vector<std::string> names = { "a", "b", "c", "d", "item" };
  std::vector<std::string> texts;   // when set, texts and attribute values come from here
};

inline std::string gen_chars(pbt::Ctx& c, const Opts& o, int maxlen, bool allow_empty)
{
  if(!o.texts.empty()) return c.pick(o.texts);
  static const std::vector<std::string> plain = { "x", "y", "1", "2", "10", " ", "foo", "Bar", "-", "." };
  static const std::vector<std::string> nasty = { "<", ">", "&", "\"", "'", "]]>", "]]", "\n", "\t", "\r", "\r\n", "  ", "&amp;", "&#65;", "<!--", "?>", "{", "}", "%", "]" };
  static const std::vector<std::string> high = { "\xc3\xa9", "\xc2\xa0", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x85", "\xef\xbf\xbd", "\xd7\x90" };
  std::string s;
  c.list(allow_empty ? 0 : 1, maxlen, [&](int) {
    int w = c.weighted({ 10, o.nasty ? 5 : 0, o.nonascii ? 2 : 0 });
    s += w == 0 ? c.pick(plain) : w == 1 ? c.pick(nasty) : c.pick(high);
  });
  return s;
}

inline std::string gen_comment(pbt::Ctx& c, const Opts& o)
{
  Opts p = o; p.nasty = o.nasty;
  std::string s = gen_chars(c, p, 4, true), r;
  for(char ch : s) { if(ch == '\r') continue; if(ch == '-' && !r.empty() && r.back() == '-') continue; r += ch; }
  if(!r.empty() && r.back() == '-') r += "x";
  size_t p2; while((p2 = r.find("--")) != std::string::npos) r.erase(p2, 1);
  return r;
}

inline std::string gen_pi(pbt::Ctx& c, const Opts& o)
{
  std::string s = gen_chars(c, o, 4, true), r;
  for(char ch : s) { if(ch == '\r') continue; if(ch == '>' && !r.empty() && r.back() == '?') continue; r += ch; }
  size_t b = r.find_first_not_of(" \t\n"); r = b == std::string::npos ? "" : r.substr(b);
  return r;
}

inline std::string gen_cdata(pbt::Ctx& c, const Opts& o)
{
  std::string s = gen_chars(c, o, 5, false), r;
  for(char ch : s) { if(ch == '\r') continue; r += ch; size_t n = r.size(); if(n >= 3 && r.compare(n - 3, 3, "]]>") == 0) r.erase(n - 1); }
  if(r.empty()) r = "x";
  return r;
}

static const std::vector<std::string>& prefixes() { static const std::vector<std::string> p = { "p", "q", "r" }; return p; }
static const std::vector<std::string>& uris() { static const std::vector<std::string> u = { "urn:a", "urn:b", "http://x.org/y" }; return u; }

struct Gen
{
  pbt::Ctx& c; const Opts& o; int budget;
  Gen(pbt::Ctx& c_, const Opts& o_) : c(c_), o(o_), budget(std::max(1, o_.max_nodes * c_.size() / 100)) { }

  void element(Node* n, int depth)
  {
    --budget;
    if(o.ns && c.chance(1, depth == 0 ? 2 : 4))
      c.list(1, 2, [&](int) {
        std::string p = c.chance(1, 3) ? "" : c.pick(prefixes());
        for(auto& d : n->ns) if(d.first == p) return;
        std::string u = c.pick(uris());
        if(p.empty() && o.undeclare && depth > 0 && c.chance(1, 3)) u = "";
        n->ns.push_back(std::make_pair(p, u));
      });
    std::vector<std::string> pre(1, "");
    if(o.ns) for(auto& m : n->in_scope()) if(m.first != "xml" && !m.first.empty()) pre.push_back(m.first);
    n->prefix = pre[c.below(pre.size())];
    n->local = c.pick(o.names);
    n->lookup(n->prefix, n->uri);
    if(o.attrs && c.chance(2, 5))
    {
      std::set<std::pair<std::string, std::string> > used;
      c.list(1, 3, [&](int) {
        Attr a;
        if(o.xml_attrs && c.chance(1, 12)) { a.prefix = "xml"; a.local = c.pick({ "lang", "space", "base", "id" }); a.uri = XML_URI; }
        else
        {
          a.prefix = pre[c.below(pre.size())]; a.local = c.pick(o.names);
          if(c.chance(1, 4)) a.local = c.pick({ "id", "name", "xmlnsx", "x-y" });
          if(!a.prefix.empty()) n->lookup(a.prefix, a.uri);
        }
        if(!used.insert(std::make_pair(a.uri, a.local)).second) return;
        a.value = a.local == "space" && a.prefix == "xml" ? c.pick({ "preserve", "default" }) : gen_chars(c, o, 4, true);
        n->attrs.push_back(a);
      });
      // now and then an element with a great many attributes
      if(c.chance(1, 20))
        for(int k = 0, ke = c.range(8, 30); k < ke; ++k)
        {
          Attr a; a.local = "b" + std::to_string(k); a.value = std::to_string(k % 5);
          n->attrs.push_back(a);
        }
    }
    bool last_text = false;
    while(budget > 0 && depth < o.max_depth && c.more(2, 3))
    {
      int w = c.weighted({ 6, last_text ? 0 : 4, o.cdata ? 1 : 0, o.comments ? 1 : 0, o.pis ? 1 : 0 });
      last_text = false;
      switch(w)
      {
        case 0: { Node* k = n->add(ELEM); element(k, depth + 1); break; }
        case 1: --budget; last_text = true; n->add(TEXT, gen_chars(c, o, 4, false)); break;
        case 2: --budget; n->add(CDATA, gen_cdata(c, o)); break;
        case 3: --budget; n->add(COMMENT, gen_comment(c, o)); break;
        case 4: misc_pi(n); break;
      }
    }
  }
  void misc_pi(Node* n)
  {
    --budget;
    Node* k = n->add(PI, gen_pi(c, o)); k->local = c.pick({ "pi", "php", "target", "a" });
  }
  void misc(Node* d)
  {
    if(o.prolog && c.chance(1, 4))
      c.list(1, 2, [&](int) { if(c.flip() && o.pis) misc_pi(d); else if(o.comments) d->add(COMMENT, gen_comment(c, o)); });
  }
};

inline NodeP gen_doc(pbt::Ctx& c, const Opts& o)
{
  NodeP d(new Node(DOC));
  Gen g(c, o);
  g.misc(d.get());
  g.element(d->add(ELEM), 0);
  g.misc(d.get());
  return d;
}

// ---------------------------------------------------------------- serialiser
inline std::string charref(pbt::Ctx* c, unsigned cp)
{
  char b[24];
  if(c && c->flip()) snprintf(b, sizeof b, "&#x%x;", cp); else snprintf(b, sizeof b, "&#%u;", cp);
  return b;
}

inline std::string esc_text(pbt::Ctx* c, const std::string& s)
{
  std::string r;
  for(size_t i = 0; i < s.size(); ++i)
    switch(s[i])
    {
      case '<': r += c && c->chance(1, 3) ? charref(c, '<') : "&lt;"; break;
      case '&': r += c && c->chance(1, 3) ? charref(c, '&') : "&amp;"; break;
      case '>': if((i >= 2 && s[i-1] == ']' && s[i-2] == ']') || !c || c->flip()) r += "&gt;"; else r += ">"; break;
      case '\r': r += charref(c, 13); break;
      default: if(c && static_cast<unsigned char>(s[i]) < 128 && s[i] != ']' && c->chance(1, 40)) r += charref(c, s[i]); else r += s[i];
    }
  return r;
}
inline std::string esc_attr(pbt::Ctx* c, const std::string& s)
{
  bool dq = !c || c->flip();
  std::string r(1, dq ? '"' : '\'');
  for(char ch : s)
    switch(ch)
    {
      case '<': r += "&lt;"; break;
      case '&': r += "&amp;"; break;
      case '\n': case '\t': case '\r': r += charref(c, ch); break;
      case '"': r += dq ? "&quot;" : "\""; break;
      case '\'': r += dq ? "'" : "&apos;"; break;
      default: if(c && static_cast<unsigned char>(ch) < 128 && c->chance(1, 40)) r += charref(c, ch); else r += ch;
    }
  r += dq ? '"' : '\'';
  return r;
}
inline std::string ws(pbt::Ctx* c, bool need)
{
  if(!c) return need ? " " : "";
  if(c->chance(9, 10)) return need ? " " : "";
  return c->pick({ " ", "\n", "\t", "  " });
}
inline void ser(pbt::Ctx* c, const Node& n, std::string& r)
{
  switch(n.kind)
  {
    case DOC: case FRAG: for(auto& k : n.kids) ser(c, *k, r); break;
    case TEXT: r += esc_text(c, n.value); break;
    case CDATA: r += "<![CDATA[" + n.value + "]]>"; break;
    case COMMENT: r += "<!--" + n.value + "-->"; break;
    case PI: r += "<?" + n.local + (n.value.empty() ? "" : " " + n.value) + "?>"; break;
    case ELEM:
    {
      r += "<" + n.qname();
      // declarations before or after the other attributes
      bool first = !c || c->flip();
      for(int pass = 0; pass < 2; ++pass)
        if((pass == 0) == first)
          for(auto& d : n.ns) r += ws(c, true) + (d.first.empty() ? std::string("xmlns") : "xmlns:" + d.first) + ws(c, false) + "=" + ws(c, false) + esc_attr(c, d.second);
        else
          for(auto& a : n.attrs) r += ws(c, true) + a.qname() + ws(c, false) + "=" + ws(c, false) + esc_attr(c, a.value);
      r += ws(c, false);
      if(n.kids.empty() && (!c || c->flip())) { r += "/>"; break; }
      r += ">";
      for(auto& k : n.kids) ser(c, *k, r);
      r += "</" + n.qname() + ws(c, false) + ">";
      break;
    }
  }
}
inline std::string to_xml(pbt::Ctx* c, const Node& n)
{
  std::string r;
  if(c && n.kind == DOC && c->chance(1, 4)) r += c->pick({ "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding='UTF-8'?>\n", "<?xml version=\"1.0\" standalone=\"yes\" ?>" });
  ser(c, n, r);
  return r;
}

inline int count(const Node& n) { int r = 1; for(auto& k : n.kids) r += count(*k); return r; }
inline int depth(const Node& n) { int r = 0; for(auto& k : n.kids) r = std::max(r, depth(*k)); return r + 1; }

inline NodeP clone(const Node& n)
{
  NodeP r(new Node(n.kind)); r->prefix = n.prefix; r->local = n.local; r->uri = n.uri; r->value = n.value; r->ns = n.ns; r->attrs = n.attrs;
  for(auto& k : n.kids) r->add(clone(*k));
  return r;
}

// a readable canonical dump used to compare trees
inline void dump(const Node& n, std::string& r, bool with_prefix = true, bool with_ns = true)
{
  switch(n.kind)
  {
    case DOC: r += "DOC("; break;
    case FRAG: r += "FRAG("; break;
    case TEXT: r += "T[" + n.value + "]"; return;
    case CDATA: r += "CD[" + n.value + "]"; return;
    case COMMENT: r += "C[" + n.value + "]"; return;
    case PI: r += "PI[" + n.local + "|" + n.value + "]"; return;
    case ELEM:
    {
      r += "E{" + n.uri + "}" + (with_prefix ? n.qname() : n.local);
      std::set<std::string> as;
      if(with_ns) for(auto& d : n.ns) as.insert("xmlns:" + d.first + "=" + d.second);
      for(auto& a : n.attrs) as.insert("{" + a.uri + "}" + (with_prefix ? a.qname() : a.local) + "=" + a.value);
      for(auto& a : as) r += " @" + a;
      r += "(";
    }
  }
  for(auto& k : n.kids) dump(*k, r, with_prefix, with_ns);
  r += ")";
}

} // namespace model
