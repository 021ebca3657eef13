// An Arabica tree together with the reference data model of the same tree.
#pragma once
#include "domx.hpp"
#include "xpref.hpp"
#include <XPath/XPath.hpp>

namespace xw {

using domx::DNode; using domx::DDoc; using domx::DElem;
typedef Arabica::XPath::XPath<std::string> XP;
typedef Arabica::XPath::XPathValue<std::string> XV;
typedef Arabica::XPath::XPathExpression<std::string> XE;
typedef Arabica::XPath::NodeSet<std::string> XNS;
typedef Arabica::DOM::Node_base NB;

struct World
{
  model::NodeP m;
  DDoc d; DNode root;
  xp::XDoc x;
  std::vector<DNode> dom;                    // by id; null for namespace nodes
  std::map<const void*, int> ids;
  std::map<std::pair<int, std::string>, int> nsids;
  std::string how;

  bool text(DNode n) const { return n.getNodeType() == NB::TEXT_NODE || n.getNodeType() == NB::CDATA_SECTION_NODE; }
  void walk(DNode n, int id)
  {
    pbt::require(n != 0, "DOM and model differ in shape (null node)");
    ids[n.underlying_impl()] = id; dom[id] = n;
    const xp::XN& xn = x.n[id];
    if(xn.kind == xp::TEXT)
    { for(DNode t = n.getNextSibling(); t != 0 && text(t); t = t.getNextSibling()) ids[t.underlying_impl()] = -id - 2; return; }
    if(xn.kind == xp::ELEM)
    {
      for(int a : xn.attrs)
      {
        DElem e(n);
        DNode at = xn.uri.empty() && false ? DNode() : DNode(e.getAttributeNodeNS(x.n[a].uri, x.n[a].local));
        pbt::require(at != 0, "attribute ", x.n[a].qname(), " is missing from the DOM");
        ids[at.underlying_impl()] = a; dom[a] = at;
      }
      for(int s : xn.nss) nsids[std::make_pair(id, x.n[s].local)] = s;
    }
    DNode k = n.getFirstChild();
    while(k != 0 && k.getNodeType() == NB::DOCUMENT_TYPE_NODE) k = k.getNextSibling();
    for(int c : xn.kids)
    {
      walk(k, c);
      if(x.n[c].kind == xp::TEXT) { while(k != 0 && text(k)) k = k.getNextSibling(); }
      else k = k.getNextSibling();
    }
    pbt::require(k == 0, "DOM has more nodes than the model");
  }
  // attribute nodes are kept in the DOM's own order (XPath leaves it open)
  void index()
  {
    x.build(*m);
    dom.assign(x.n.size(), DNode()); ids.clear(); nsids.clear();
    walk(root, 0);
  }
  int id_of(const DNode& n) const
  {
    if(n == 0) return -1;
    if(n.getNodeType() == Arabica::XPath::NAMESPACE_NODE_TYPE)
    {
      auto p = ids.find(n.getParentNode().underlying_impl()); if(p == ids.end()) return -1;
      auto s = nsids.find(std::make_pair(p->second, n.getNodeName()));
      return s == nsids.end() || x.n[s->second].value != n.getNodeValue() ? -1 : s->second;
    }
    auto i = ids.find(n.underlying_impl()); return i == ids.end() ? -1 : i->second;
  }
  std::string show(int id) const
  {
    if(id < 0 || id >= static_cast<int>(x.n.size())) return id < -1 ? "(inside text #" + std::to_string(-id - 2) + ")" : "(unknown node)";
    const xp::XN& n = x.n[id];
    static const char* k[] = { "root", "elem", "attr", "ns", "text", "comment", "pi" };
    return "#" + std::to_string(id) + k[n.kind] + (n.local.empty() ? "" : ":" + n.qname()) + (n.value.empty() ? "" : "=" + pbt::esc(n.value));
  }
  std::string show(const std::vector<int>& v) const { std::string r; for(int i : v) r += show(i) + " "; return r; }
};

enum { W_DOC, W_FRAG, W_ORPHAN };
inline void make_world(pbt::Ctx& c, World& w, const model::Opts& o, bool detached)
{
  w.m = model::gen_doc(c, o);
  c << "tree " << pbt::esc(model::to_xml(0, *w.m)) << "\n";
  int kind = detached ? c.weighted({ 8, 1, 1 }) : W_DOC;
  if(kind == W_DOC)
  {
    if(c.flip())
    {
      std::string xml = model::to_xml(&c, *w.m), err;
      w.d = domx::parse(xml, &err); w.how = "parsed " + pbt::esc(xml);
      pbt::require(err.empty() && w.d != 0, "parse failed: ", err, " of ", xml);
    }
    else
    {
      domx::splitter() = c.flip() ? &c : 0;
      w.d = domx::build(*w.m); domx::splitter() = 0;
      w.how = "built " + pbt::esc(model::to_xml(0, *w.m));
    }
    w.root = w.d;
  }
  else
  {
    w.d = Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocument("", "", 0);
    domx::splitter() = c.flip() ? &c : 0;
    if(kind == W_FRAG)
    {
      w.m->kind = model::FRAG;
      Arabica::DOM::DocumentFragment<std::string> f = w.d.createDocumentFragment();
      domx::build_kids(w.d, f, *w.m); w.root = f; w.how = "fragment " + pbt::esc(model::to_xml(0, *w.m));
    }
    else
    {
      model::NodeP e;
      for(auto& k : w.m->kids) if(k->kind == model::ELEM) e = std::move(k);
      e->parent = 0; w.m = std::move(e);
      w.root = domx::build_node(w.d, *w.m); w.how = "orphan " + pbt::esc(model::to_xml(0, *w.m));
    }
    domx::splitter() = 0;
  }
  w.index();
  c.label(kind == W_DOC ? "document" : kind == W_FRAG ? "fragment" : "orphan");
  c << w.how.substr(0, 8) << "\n";
}

inline bool same_num(double a, double b)
{ return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }

// ids of a node set in the order the engine holds them
inline std::vector<int> ids(const World& w, const XNS& ns)
{ std::vector<int> r; for(auto i = ns.begin(); i != ns.end(); ++i) r.push_back(w.id_of(*i)); return r; }

inline std::string show(const World& w, const xp::Value& v)
{
  switch(v.t)
  {
    case xp::V_NODES: return "nodes{ " + w.show(v.ns) + "}";
    case xp::V_NUM: return "number " + (v.n == 0 && std::signbit(v.n) ? "-0" : xp::num2str(v.n));
    case xp::V_STR: return "string '" + pbt::esc(v.s) + "'";
    default: return v.b ? "true" : "false";
  }
}
inline std::string show(const World& w, const XV& v)
{
  switch(v.type())
  {
    case Arabica::XPath::NODE_SET: return "nodes{ " + w.show(ids(w, v.asNodeSet())) + "}";
    case Arabica::XPath::NUMBER: return "number " + (v.asNumber() == 0 && std::signbit(v.asNumber()) ? "-0" : xp::num2str(v.asNumber()));
    case Arabica::XPath::STRING: return "string '" + pbt::esc(v.asString()) + "'";
    case Arabica::XPath::BOOL: return v.asBool() ? "true" : "false";
    default: return "value of unexpected type " + std::to_string(v.type());
  }
}
// same type and same value (node sets as sets)
inline bool same(const World& w, const XV& v, const xp::Value& r)
{
  switch(r.t)
  {
    case xp::V_NODES:
    {
      if(v.type() != Arabica::XPath::NODE_SET) return false;
      std::vector<int> i = ids(w, v.asNodeSet()); std::set<int> a(i.begin(), i.end()), b(r.ns.begin(), r.ns.end());
      return a == b;
    }
    case xp::V_NUM: return v.type() == Arabica::XPath::NUMBER && same_num(v.asNumber(), r.n);
    case xp::V_STR: return v.type() == Arabica::XPath::STRING && v.asString() == r.s;
    default: return v.type() == Arabica::XPath::BOOL && v.asBool() == r.b;
  }
}

typedef Arabica::XPath::StandardNamespaceContext<std::string> XNC;
inline void bind_ns(xp::Eval& ev, XNC& nc, const std::vector<std::pair<std::string, std::string> >& b)
{ for(auto& p : b) { nc.addNamespaceDeclaration(p.second, p.first); ev.ns[p.first] = p.second; } }

inline std::vector<std::pair<std::string, std::string> > std_bindings()
{ return { { "p", "urn:a" }, { "q", "urn:b" }, { "x", "http://x.org/y" }, { "xml", model::XML_URI } }; }

// the evaluation of one expression by both sides; discards explosive ones
inline bool reference(xp::Eval& ev, const xp::EP& e, const xp::Ctx& c, xp::Value& r)
{
  ev.work = 0; ev.blown = false;
  r = ev.eval(e, c);
  return !ev.blown && ev.work < 60000;
}

} // namespace xw
