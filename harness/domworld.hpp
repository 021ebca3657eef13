// An independent model of DOM Level 2 trees, run in step with Arabica's.
// Every operation is applied to both; afterwards every link of every node the
// model knows is compared.
#pragma once
#include "domx.hpp"
#include <memory>

namespace dw {

using namespace Arabica::DOM;
typedef Arabica::DOM::Node<std::string> N;
typedef Document<std::string> D;
typedef Element<std::string> E;
typedef Attr<std::string> A;
typedef NamedNodeMap<std::string> Map;
typedef DOMException X;

enum T { ELEM = 1, ATTR, TEXT, CDATA, ENTREF, ENTITY, PI, COMMENT, DOC, DOCTYPE, FRAG, NOTATION };

static const std::string XMLNS = "http://www.w3.org/2000/xmlns/", XMLURI = "http://www.w3.org/XML/1998/namespace";

struct M
{
  int id; T type; std::string name, prefix, local, uri, value; bool hasns = false;
  M* parent = 0; M* doc = 0; std::vector<M*> kids;
  std::vector<M*> attrs; M* owner = 0; bool specified = true;
  bool ro = false;
  bool purged = false;
  N h;
  std::map<std::string, std::map<std::string, std::string> > defaults;   // DOC: element name -> defaulted attributes
  std::set<std::string> ids;                                             // DOC: names of ID attributes
  M* root() { M* n = this; while(n->parent) n = n->parent; return n; }
  int index() const { for(size_t i = 0; i < parent->kids.size(); ++i) if(parent->kids[i] == this) return static_cast<int>(i); return -1; }
  bool has(const M* a) const { for(const M* n = a; n; n = n->parent) if(n == this) return true; return false; }
  M* sibling(int d) const { if(!parent || type == ATTR) return 0; int i = index() + d; return i < 0 || i >= static_cast<int>(parent->kids.size()) ? 0 : parent->kids[i]; }
  std::string val() const
  {
    if(type != ATTR) return value;
    return cat(kids);
  }
  static std::string cat(const std::vector<M*>& ks) { std::string r; for(M* k : ks) r += k->type == ENTREF ? cat(k->kids) : k->type == ELEM ? "" : k->value; return r; }
};

typedef std::set<int> Codes;

struct World
{
  pbt::Ctx& c;
  std::vector<std::unique_ptr<M> > all;
  std::map<const void*, M*> byimpl;
  std::vector<M*> docs;
  std::vector<std::string> names { "a", "b", "c" };
  int ok_ops = 0, refused = 0;
  std::string log_;

  World(pbt::Ctx& c_) : c(c_) { }

  // ------------------------------------------------------------ registration
  M* make(T t, M* doc) { all.emplace_back(new M); M* m = all.back().get(); m->id = static_cast<int>(all.size()) - 1; m->type = t; m->doc = doc; return m; }
  static const void* key(const N& h) { return dynamic_cast<const void*>(h.underlying_impl()); }
  M* reg(M* m, const N& h)
  {
    pbt::require(h != 0, "a null node was returned where #", m->id, " was expected");
    auto f = byimpl.find(key(h));
    pbt::require(f == byimpl.end(), "a new node was expected, but an existing one was returned, #", f == byimpl.end() ? -1 : f->second->id);
    m->h = h; byimpl[key(h)] = m; return m;
  }
  M* find(const N& h) { auto f = byimpl.find(key(h)); return f == byimpl.end() ? 0 : f->second; }
  std::string show(const M* m) const
  {
    if(!m) return "null";
    std::string r = "#" + std::to_string(m->id) + ":";
    static const char* const tn[] = { "", "elem ", "attr ", "text ", "cdata ", "entref ", "entity ", "pi ", "comment ", "doc", "doctype", "frag", "notation" };
    r += tn[m->type] + m->name + (m->type == ELEM && !m->uri.empty() ? "{" + m->uri + "}" : "");
    return r;
  }
  // takes a tree whose content is not in question into the model
  M* absorb(const N& h, M* doc, bool ro = false)
  {
    M* m = make(static_cast<T>(h.getNodeType()), doc); reg(m, h);
    m->name = h.getNodeName(); m->prefix = h.getPrefix(); m->local = h.getLocalName(); m->uri = h.getNamespaceURI(); m->hasns = h.hasNamespaceURI();
    m->value = h.getNodeValue(); m->ro = ro || m->type == ENTREF;
    if(m->type == DOC) m->doc = m;
    if(m->type == ELEM) { Map as = h.getAttributes(); for(unsigned i = 0; i < as.getLength(); ++i) { M* a = absorb(as.item(i), m->doc, m->ro); a->owner = m; a->specified = A(as.item(i)).getSpecified(); m->attrs.push_back(a); } }
    if(m->type != DOCTYPE)
      for(N k = h.getFirstChild(); k != 0; k = k.getNextSibling()) { M* km = absorb(k, m->doc, m->ro); km->parent = m; m->kids.push_back(km); }
    return m;
  }
  // pairs an expected tree with the one the library made
  void bind(M* m, const N& h)
  {
    reg(m, h);
    pbt::require(h.getNodeType() == static_cast<int>(m->type), "node ", show(m), " has type ", h.getNodeType());
    if(m->type == ATTR) { rekid(m); }
    else
    {
      N k = h.getFirstChild();
      for(M* km : m->kids) { pbt::require(k != 0, "child ", show(km), " of new node ", show(m), " is missing"); bind(km, k); k = k.getNextSibling(); }
      pbt::require(k == 0, "new node ", show(m), " has more children than expected");
    }
    if(m->type == ELEM)
    {
      Map as = h.getAttributes();
      pbt::require_eq(as.getLength(), m->attrs.size(), "number of attributes of new node " + show(m));
      std::vector<M*> left = m->attrs;
      for(unsigned i = 0; i < as.getLength(); ++i)
      {
        N a = as.item(i); bool ok = false;
        for(size_t j = 0; j < left.size() && !ok; ++j)
          if(left[j]->name == a.getNodeName() && left[j]->uri == a.getNamespaceURI()) { std::string want = left[j]->val(); bind(left[j], a); pbt::require_eq(left[j]->val(), want, "value of attribute " + show(left[j]) + " of new node " + show(m)); left.erase(left.begin() + j); ok = true; }
        pbt::require(ok, "new node ", show(m), " has an unexpected attribute ", a.getNodeName());
      }
    }
  }
  // the text children of an attribute are the library's business; their text is not
  void rekid(M* a)
  {
    for(M* k : a->kids) if(k->h != 0) { k->parent = 0; }
    else k->purged = true;
    a->kids.clear();
    for(N k = a->h.getFirstChild(); k != 0; k = k.getNextSibling())
    {
      M* km = find(k);
      if(!km) km = absorb(k, a->doc);
      km->parent = a; a->kids.push_back(km);
    }
  }

  // ------------------------------------------------------------ comparison
  void same(const N& h, const M* m, const char* what, const M* of)
  {
    if(!m) { pbt::require(h == 0, what, " of ", show(of), " is ", h == 0 ? "" : h.getNodeName(), " and not null"); return; }
    if(h == m->h) return;
    M* f = h == 0 ? 0 : find(h);
    pbt::fail(what, " of ", show(of), " is ", h == 0 ? "null" : f ? show(f) : "an unknown node " + h.getNodeName(), ", expected ", show(m));
  }
  void verify(M* m)
  {
    const N& h = m->h;
    pbt::require_eq(static_cast<int>(h.getNodeType()), static_cast<int>(m->type), "type of " + show(m));
    pbt::require_eq(h.getNodeName(), m->name, "name of " + show(m));
    pbt::require_eq(h.getNodeValue(), m->val(), "value of " + show(m));
    pbt::require_eq(h.getNamespaceURI(), m->uri, "namespace of " + show(m));
    pbt::require_eq(h.getPrefix(), m->prefix, "prefix of " + show(m));
    pbt::require_eq(h.getLocalName(), m->local, "local name of " + show(m));
    pbt::require_eq(h.hasNamespaceURI(), m->hasns, "hasNamespaceURI of " + show(m));
    pbt::require_eq(h.hasPrefix(), !m->prefix.empty(), "hasPrefix of " + show(m));
    same(h.getOwnerDocument(), m->type == DOC ? 0 : m->doc, "owner document", m);
    same(h.getParentNode(), m->type == ATTR ? 0 : m->parent, "parent", m);
    same(h.getPreviousSibling(), m->sibling(-1), "previous sibling", m);
    same(h.getNextSibling(), m->sibling(1), "next sibling", m);
    same(h.getFirstChild(), m->kids.empty() ? 0 : m->kids[0], "first child", m);
    same(h.getLastChild(), m->kids.empty() ? 0 : m->kids.back(), "last child", m);
    pbt::require_eq(h.hasChildNodes(), !m->kids.empty(), "hasChildNodes of " + show(m));
    NodeList<std::string> l = h.getChildNodes();
    if(l != 0)
    {
      pbt::require_eq(l.getLength(), m->kids.size(), "child list length of " + show(m));
      for(size_t i = 0; i < m->kids.size(); ++i) same(l.item(static_cast<unsigned>(i)), m->kids[i], "child list entry", m);
      pbt::require(l.item(l.getLength()) == 0, "child list of ", show(m), " has an item beyond its length");
    }
    else pbt::require(m->kids.empty(), show(m), " has no child list");
    if(m->type == DOC)
    {
      M *de = 0, *dt = 0; for(M* k : m->kids) { if(k->type == ELEM) de = k; if(k->type == DOCTYPE) dt = k; }
      same(D(h).getDocumentElement(), de, "document element", m);
      same(D(h).getDoctype(), dt, "document type", m);
    }
    if(m->type == ATTR)
    {
      same(A(h).getOwnerElement(), m->owner, "owner element", m);
      pbt::require_eq(A(h).getSpecified(), m->specified, "specified flag of " + show(m));
      pbt::require_eq(A(h).getName(), m->name, "attribute name of " + show(m));
      pbt::require_eq(A(h).getValue(), m->val(), "attribute value of " + show(m));
    }
    if(m->type == ELEM) verify_attrs(m);
    else pbt::require(!h.hasAttributes(), show(m), " has attributes");
  }
  void verify_attrs(M* m)
  {
    Map as = m->h.getAttributes();
    pbt::require_eq(as.getLength(), m->attrs.size(), "number of attributes of " + show(m));
    pbt::require_eq(m->h.hasAttributes(), !m->attrs.empty(), "hasAttributes of " + show(m));
    std::set<M*> seen;
    for(unsigned i = 0; i < as.getLength(); ++i)
    {
      M* a = find(as.item(i));
      pbt::require(a && a->owner == m, "item ", i, " in the attributes of ", show(m), " is ", show(a));
      pbt::require(seen.insert(a).second, "attribute ", show(a), " is twice in the attributes of ", show(m));
    }
    pbt::require(as.item(as.getLength()) == 0, "attributes of ", show(m), " have an item beyond their length");
  }
  void verify_all() { for(auto& m : all) if(m->h != 0 && !m->purged) verify(m.get()); }

  // ------------------------------------------------------------ rules
  static bool childless(T t) { return t == TEXT || t == CDATA || t == COMMENT || t == PI || t == DOCTYPE; }
  static bool allowed(T p, T k)
  {
    switch(p)
    {
      case DOC: return k == ELEM || k == PI || k == COMMENT || k == DOCTYPE;
      case ATTR: return k == TEXT || k == ENTREF;
      default: return k == ELEM || k == TEXT || k == COMMENT || k == PI || k == CDATA || k == ENTREF;
    }
  }
  // reasons to refuse making k a child of p, in place of old (which may be null)
  void can_add(M* p, M* k, M* old, Codes& r)
  {
    if(childless(p->type)) { r.insert(X::HIERARCHY_REQUEST_ERR); return; }
    if(p->ro) r.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    if(k->doc && k->doc != p->doc) r.insert(X::WRONG_DOCUMENT_ERR);
    if(k->has(p)) r.insert(X::HIERARCHY_REQUEST_ERR);
    if(k->parent && k->parent->ro) r.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    std::vector<M*> adding; if(k->type == FRAG) adding = k->kids; else adding.push_back(k);
    int elems = 0;
    for(M* a : adding) { if(!allowed(p->type, a->type)) r.insert(X::HIERARCHY_REQUEST_ERR); if(a->type == ELEM) ++elems; }
    if(p->type == DOC)
    {
      for(M* x : p->kids) if(x->type == ELEM && x != old && x != k) ++elems;
      if(elems > 1) r.insert(X::HIERARCHY_REQUEST_ERR);
      for(M* x : p->kids) if(x->type == DOCTYPE && (k->type == DOCTYPE || old == x)) r.insert(X::HIERARCHY_REQUEST_ERR);
    }
  }
  void detach(M* k) { if(k->parent) { k->parent->kids.erase(k->parent->kids.begin() + k->index()); k->parent = 0; } }
  void put(M* p, M* k, M* ref)
  {
    if(k == ref) return;
    std::vector<M*> adding; if(k->type == FRAG) adding = k->kids; else adding.push_back(k);
    for(M* a : adding)
    {
      detach(a);
      int at = ref ? ref->index() : static_cast<int>(p->kids.size());
      p->kids.insert(p->kids.begin() + at, a); a->parent = p;
      if(!a->doc) set_doc(a, p->doc);
    }
  }
  void set_doc(M* m, M* d) { m->doc = d; for(M* k : m->kids) set_doc(k, d); }

  // runs f; checks that it throws one of the codes exactly when there are any
  template<class F> bool attempt(const Codes& codes, bool optional, F f)
  {
    int got = 0; std::string text;
    try { f(); } catch(const X& e) { got = e.code(); text = e.what(); }
    if(got) { pbt::require(codes.count(got) != 0, "operation refused with ", text, codes.empty() ? ", though it is allowed" : ", which does not apply"); ++refused; return false; }
    pbt::require(codes.empty() || optional, "operation went through, though it must be refused");
    ++ok_ops; return true;
  }
  void say(const std::string& s) { c << s << "\n"; }

  // ------------------------------------------------------------ creation
  M* new_doc(bool dtd)
  {
    D d;
    if(!dtd) d = Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocument("", "", 0);
    else
    {
      d = domx::parse("<!DOCTYPE r [<!ENTITY e 'x<b/>y'><!ENTITY t 'txt'><!ELEMENT a ANY><!ATTLIST a id ID #IMPLIED d CDATA 'dv' f CDATA 'fv'><!ATTLIST b id ID #IMPLIED>]><r/>");
      pbt::require(d != 0 && d.getDocumentElement() != 0, "the DTD document was not built");
    }
    M* m = absorb(d, 0); docs.push_back(m);
    if(dtd) { m->defaults["a"]["d"] = "dv"; m->defaults["a"]["f"] = "fv"; m->ids.insert("id"); }
    say("doc" + std::to_string(docs.size() - 1) + (dtd ? " = document with DTD " : " = empty document ") + show(m));
    return m;
  }
  M* add_defaults(M* e)
  {
    auto f = e->doc->defaults.find(e->name);
    if(f == e->doc->defaults.end()) return e;
    for(auto& d : f->second)
    {
      bool have = false; for(M* a : e->attrs) if(a->name == d.first) have = true;
      if(have) continue;
      M* a = model_attr(e->doc, d.first, d.second); a->specified = false; a->owner = e; e->attrs.push_back(a);
    }
    return e;
  }
  M* model_attr(M* doc, const std::string& name, const std::string& value)
  {
    M* a = make(ATTR, doc); a->name = name;
    M* t = make(TEXT, doc); t->name = "#text"; t->value = value; t->parent = a; a->kids.push_back(t);
    return a;
  }
  // splits a qualified name and says why it may be refused
  static void qname(const std::string& uri, const std::string& q, bool attr, Codes& r, std::string& prefix, std::string& local, std::string& nsuri)
  {
    Codes bad = name_ok(q);
    size_t p = q.find(':');
    prefix = p == std::string::npos ? "" : q.substr(0, p); local = p == std::string::npos ? q : q.substr(p + 1); nsuri = uri;
    if(!bad.empty()) { r.insert(bad.begin(), bad.end()); r.insert(X::NAMESPACE_ERR); return; }
    if(p != std::string::npos && (prefix.empty() || local.empty() || local.find(':') != std::string::npos)) { r.insert(X::NAMESPACE_ERR); r.insert(X::INVALID_CHARACTER_ERR); return; }
    if(p != std::string::npos && !name_ok(local).empty()) { r.insert(X::INVALID_CHARACTER_ERR); r.insert(X::NAMESPACE_ERR); return; }
    if(attr && (q == "xmlns" || prefix == "xmlns")) { if(uri != XMLNS && !uri.empty()) r.insert(X::NAMESPACE_ERR); nsuri = XMLNS; return; }
    if(prefix == "xml") { if(uri != XMLURI) r.insert(X::NAMESPACE_ERR); return; }
    if(!prefix.empty() && uri.empty()) r.insert(X::NAMESPACE_ERR);
  }
  static Codes name_ok(const std::string& q)
  {
    bool ok = !q.empty() && (isalpha(static_cast<unsigned char>(q[0])) || q[0] == '_' || q[0] == ':' || (q[0] & 0x80));
    for(char ch : q) if(!(isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == '-' || ch == '.' || ch == ':' || (ch & 0x80))) ok = false;
    return ok ? Codes() : Codes{ X::INVALID_CHARACTER_ERR };
  }
  std::string gen_q() { return c.chance(1, 12) ? c.pick({ "1a", "", "a b", "a:", ":a", "a:b:c", "a<", "-x", "p:1" }) : c.chance(1, 5) ? c.pick({ "p:a", "q:b", "r:a", "xml:lang" }) : c.pick(names); }
  std::string gen_uri(const std::string& q)
  {
    if(c.chance(1, 15)) return c.pick({ "", "urn:x", "urn:p", "http://www.w3.org/2000/xmlns/" });
    size_t p = q.find(':');
    if(p == std::string::npos) return c.chance(1, 3) ? "urn:p" : "";
    std::string pre = q.substr(0, p);
    return pre == "xml" ? XMLURI : pre == "q" ? "urn:q" : "urn:p";
  }
  std::string gen_text() { return c.chance(1, 8) ? "" : c.pick({ "x", "yz", "hello", " ", "0123456789", "\xc3\xa9", "a&<b", "\xe2\x82\xac" "1" }); }

  // k: 0 elem 1 elemNS 2 text 3 comment 4 cdata 5 pi 6 frag 7 entref 8 attr 9 attrNS
  M* create(M* d, int k)
  {
    D doc(d->h); M* m = 0; N h; std::string q, uri, p, l, u; Codes r;
    switch(k)
    {
      case 0: q = gen_q(); r = name_ok(q); say("create element " + q + " in " + show(d));
        if(!attempt(r, false, [&] { h = doc.createElement(q); })) return 0;
        m = make(ELEM, d); m->name = q; add_defaults(m); break;
      case 1: q = gen_q(); uri = gen_uri(q); qname(uri, q, false, r, p, l, u); say("create element {" + uri + "}" + q + " in " + show(d));
        if(q.compare(0, 5, "xmlns") == 0) return 0;
        if(!attempt(r, false, [&] { h = doc.createElementNS(uri, q); })) return 0;
        m = make(ELEM, d); m->name = q; m->prefix = p; m->local = l; m->uri = u; m->hasns = !u.empty(); add_defaults(m); break;
      case 2: p = gen_text(); say("create text '" + pbt::esc(p) + "' in " + show(d)); h = doc.createTextNode(p); m = make(TEXT, d); m->name = "#text"; m->value = p; break;
      case 3: p = gen_text(); say("create comment '" + pbt::esc(p) + "' in " + show(d)); h = doc.createComment(p); m = make(COMMENT, d); m->name = "#comment"; m->value = p; break;
      case 4: p = gen_text(); say("create cdata '" + pbt::esc(p) + "' in " + show(d)); h = doc.createCDATASection(p); m = make(CDATA, d); m->name = "#cdata-section"; m->value = p; break;
      case 5: q = gen_q(); p = gen_text(); r = name_ok(q); say("create pi " + q + " in " + show(d));
        if(!attempt(r, false, [&] { h = doc.createProcessingInstruction(q, p); })) return 0;
        m = make(PI, d); m->name = q; m->value = p; break;
      case 6: say("create fragment in " + show(d)); h = doc.createDocumentFragment(); m = make(FRAG, d); m->name = "#document-fragment"; break;
      case 7: q = c.pick({ "e", "t", "zz" }); say("create reference to " + q + " in " + show(d)); h = doc.createEntityReference(q); return absorb(h, d);
      case 8: q = gen_q(); r = name_ok(q); say("create attribute " + q + " in " + show(d));
        if(!attempt(r, false, [&] { h = doc.createAttribute(q); })) return 0;
        m = make(ATTR, d); m->name = q; break;
      default: q = gen_q(); uri = q.find(':') == std::string::npos ? "" : gen_uri(q); qname(uri, q, true, r, p, l, u); say("create attribute {" + uri + "}" + q + " in " + show(d));
        if(!attempt(r, false, [&] { h = doc.createAttributeNS(uri, q); })) return 0;
        m = make(ATTR, d); m->name = q; m->prefix = p; m->local = l; m->uri = u; m->hasns = !u.empty();
    }
    bind(m, h);
    say("  -> " + show(m));
    return m;
  }
  M* any() { return all[c.below(all.size())].get(); }
  M* pick(std::initializer_list<int> types)
  {
    std::vector<M*> v; for(auto& m : all) if(m->h != 0 && !m->purged) for(int t : types) if(m->type == t) v.push_back(m.get());
    return v.empty() ? 0 : v[c.below(v.size())];
  }
  M* pick_node() { M* m = pick({ ELEM, TEXT, CDATA, ENTREF, PI, COMMENT, DOC, FRAG, ATTR, DOCTYPE }); return m; }

  // ------------------------------------------------------------ tree operations
  void op_insert(M* p, M* k, M* ref, bool append)
  {
    say((append ? "append " : "insert ") + show(k) + " into " + show(p) + (append ? "" : " before " + show(ref)));
    Codes r; can_add(p, k, 0, r);
    if(ref && ref->parent != p) r.insert(X::NOT_FOUND_ERR);
    if(ref && p->type == ATTR && ref->parent != p) r.insert(X::NOT_FOUND_ERR);
    N res;
    if(attempt(r, false, [&] { res = append ? p->h.appendChild(k->h) : p->h.insertBefore(k->h, ref ? ref->h : N()); }))
    { put(p, k, ref); same(res, k, "result of inserting", k); if(p->type == ATTR) fix_spec(p); }
  }
  void fix_spec(M*) { }
  void op_replace(M* p, M* k, M* old)
  {
    say("replace " + show(old) + " in " + show(p) + " by " + show(k));
    Codes r; can_add(p, k, old, r);
    if(old->parent != p) r.insert(X::NOT_FOUND_ERR);
    N res;
    if(attempt(r, false, [&] { res = p->h.replaceChild(k->h, old->h); }))
    {
      same(res, old, "result of replacing", old);
      if(k == old) return;
      M* ref = old->sibling(1); if(ref == k) ref = k->sibling(1);
      detach(old); put(p, k, ref);
    }
  }
  void op_remove(M* p, M* k)
  {
    say("remove " + show(k) + " from " + show(p));
    Codes r;
    if(p->ro) r.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    if(k->parent != p || childless(p->type)) { r.insert(X::NOT_FOUND_ERR); }
    else if(k->type == DOCTYPE) r.insert(X::HIERARCHY_REQUEST_ERR);
    N res;
    if(attempt(r, false, [&] { res = p->h.removeChild(k->h); })) { detach(k); same(res, k, "result of removing", k); }
  }
  void tree_op()
  {
    M* p = c.chance(1, 6) ? pick_node() : pick({ ELEM, FRAG, DOC });
    if(!p) return;
    M* k = c.chance(2, 3) ? pick({ ELEM, TEXT, COMMENT, CDATA, PI, FRAG }) : pick_node();
    if(!k) return;
    M* ref = 0;
    if(!p->kids.empty() && c.chance(7, 8)) ref = p->kids[c.below(p->kids.size())];
    else if(c.chance(1, 3)) ref = pick_node();
    switch(c.weighted({ 4, 3, 2, 2 }))
    {
      case 0: op_insert(p, k, 0, true); break;
      case 1: op_insert(p, k, ref, false); break;
      case 2: op_remove(p, c.chance(5, 6) && ref ? ref : k); break;
      default: if(ref) op_replace(p, k, ref); else op_insert(p, k, 0, false);
    }
  }
};

} // namespace dw
