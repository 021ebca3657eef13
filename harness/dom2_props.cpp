// D07 - D09: DOM lifetimes, serialising, building from a parse.
#include "domx.hpp"
#include <DOM/io/Stream.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/DocumentTraversalImpl.hpp>
#include <sanitizer/allocator_interface.h>
#include <memory>
#include <algorithm>
using namespace Arabica::DOM;
namespace tv = Arabica::DOM::Traversal;
typedef Node<std::string> N;
typedef Document<std::string> D;
typedef Element<std::string> E;
typedef Attr<std::string> A;
typedef NamedNodeMap<std::string> Map;

// ---------------------------------------------------------------- lifetimes
// A program over slots holding handles.  It is run twice with the same
// decisions: once to warm up whatever is allocated once and kept, and a second
// time to see that everything allocated is gone when the last handle is.
typedef std::vector<uint32_t> Op;
struct Machine
{
  enum { NODES = 14, LISTS = 3, MAPS = 3 };
  N n[NODES]; int type[NODES]; std::string name[NODES];
  NodeList<std::string> l[LISTS]; Map m[MAPS];
  std::unique_ptr<tv::TreeWalker<std::string> > w;
  std::ostream* out; int done = 0, refused = 0, drops = 0, removals = 0, held = 0;
  const Op* op; size_t at;
  uint32_t next(uint32_t b) { return at < op->size() ? (*op)[at++] % b : 0; }
  int slot() { return next(NODES); }
  void say(const std::string& s) { if(out) *out << s << "\n"; }
  static std::string S(int i) { return "n" + std::to_string(i); }
  void put(int i, const N& h, const std::string& how)
  {
    n[i] = h; if(h != 0) { type[i] = h.getNodeType(); name[i] = h.getNodeName(); }
    say(S(i) + " = " + how + (h == 0 ? " (null)" : " (" + name[i] + ")"));
  }
  D doc(int i) { return n[i] == 0 ? D() : n[i].getNodeType() == Node_base::DOCUMENT_NODE ? D(n[i]) : n[i].getOwnerDocument(); }
  int some(std::initializer_list<int> types)
  {
    int s = slot();
    for(int k = 0; k < NODES; ++k) { int i = (s + k) % NODES; if(n[i] != 0 && std::find(types.begin(), types.end(), type[i]) != types.end()) return i; }
    return -1;
  }
  int any() { return some({ 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 }); }
  void step(const Op& o)
  {
    op = &o; at = 0;
    try { act(); ++done; }
    catch(const DOMException& e) { ++refused; say(std::string("  refused: ") + e.what()); }
    catch(const DOMBadCast&) { }
  }
  static const char* word(uint32_t i) { static const char* const ws[] = { "a", "b", "id", "p:a", "d", "", "text", "xyz" }; return ws[i % 8]; }
  void act()
  {
    switch(next(26))
    {
      case 0:
      {
        int i = slot(), k = next(4);
        if(k == 0) put(i, Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocument("", "", 0), "empty document");
        else if(k == 1) put(i, Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocument("urn:p", "p:r", 0), "document with root");
        else if(k == 2) put(i, domx::parse("<!DOCTYPE r [<!ENTITY e 'x<b/>y'><!NOTATION n SYSTEM 's'><!ENTITY u SYSTEM 'f' NDATA n><!ELEMENT a ANY><!ATTLIST a id ID #IMPLIED d CDATA 'dv'>]><r><a id='x'>t<b/>u</a><!--c--><?p d?></r>"), "parsed document");
        else { put(i, Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocumentType("dt", "", ""), "document type"); }
        break;
      }
      case 1: case 2: case 3:
      {
        int s = any(); if(s < 0) { put(slot(), Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocument("", "r", 0), "document"); return; }
        D d = doc(s); if(d == 0) return; int i = slot(); std::string w_ = word(next(8)); std::string how = " from the document of " + S(s);
        switch(next(10))
        {
          case 0: case 1: put(i, d.createElement(w_), "element" + how); break;
          case 2: put(i, d.createElementNS("urn:p", w_), "ns element" + how); break;
          case 3: put(i, d.createTextNode(w_), "text" + how); break;
          case 4: put(i, d.createComment(w_), "comment" + how); break;
          case 5: put(i, d.createCDATASection(w_), "cdata" + how); break;
          case 6: put(i, d.createProcessingInstruction(w_, "d"), "pi" + how); break;
          case 7: put(i, d.createDocumentFragment(), "fragment" + how); break;
          case 8: put(i, d.createEntityReference(next(2) ? "e" : "zz"), "entity reference" + how); break;
          default: put(i, next(2) ? d.createAttribute(w_) : d.createAttributeNS("urn:p", w_), "attribute" + how);
        }
        break;
      }
      case 4: case 5: case 6: { int p = some({ 1, 9, 11, 2, 5 }), k = any(); if(p < 0) return; say("append " + S(k) + " to " + S(p)); n[p].appendChild(n[k]); break; }
      case 7: { int p = some({ 1, 9, 11 }), k = any(); if(p < 0) return; N ref = n[p].getFirstChild(); say("insert " + S(k) + " first in " + S(p)); n[p].insertBefore(n[k], ref); break; }
      case 8: case 9:
      {
        int k = any(); if(k < 0) return; int i = slot();
        N victim = next(2) ? n[k] : n[k].getFirstChild(); if(victim == 0) return; N p = victim.getParentNode(); if(p == 0) return;
        say("remove a node near " + S(k)); ++removals; N r = p.removeChild(victim); if(next(2)) put(i, r, "what was removed"); break;
      }
      case 10:
      {
        int k = any(), x = any(); if(k < 0) return; int i = slot(); N old = next(2) ? n[k] : n[k].getLastChild(); if(old == 0) return; N p = old.getParentNode(); if(p == 0) return;
        say("replace a node near " + S(k) + " by " + S(x)); ++removals; N r = p.replaceChild(n[x], old); if(next(2)) put(i, r, "what was replaced"); break;
      }
      case 11: { int k = any(); if(k < 0 || n[k].getNodeType() == 10) return; bool deep = next(2); put(slot(), n[k].cloneNode(deep), std::string(deep ? "deep" : "shallow") + " clone of " + S(k)); break; }
      case 12: { int k = any(), j = any(); if(k < 0) return; D d = doc(j); if(d == 0) return; put(slot(), d.importNode(n[k], next(2)), "import of " + S(k) + " into the document of " + S(j)); break; }
      case 13: case 14:
      {
        int k = any(); if(k < 0) return; int i = slot();
        switch(next(8))
        {
          case 0: put(i, n[k].getParentNode(), "parent of " + S(k)); break;
          case 1: put(i, n[k].getFirstChild(), "first child of " + S(k)); break;
          case 2: put(i, n[k].getLastChild(), "last child of " + S(k)); break;
          case 3: put(i, n[k].getNextSibling(), "next sibling of " + S(k)); break;
          case 4: put(i, n[k].getPreviousSibling(), "previous sibling of " + S(k)); break;
          case 5: put(i, n[k].getOwnerDocument(), "owner document of " + S(k)); break;
          case 6: if(n[k].getNodeType() == 1) put(i, n[k].getAttributes().item(next(3)), "an attribute of " + S(k)); break;
          default: if(n[k].getNodeType() == 9) put(i, next(2) ? N(D(n[k]).getDoctype()) : N(D(n[k]).getDocumentElement()), "doctype or root of " + S(k)); else if(n[k].getNodeType() == 2) put(i, A(n[k]).getOwnerElement(), "owner of " + S(k));
        }
        break;
      }
      case 15: case 16: { int i = slot(); say("drop " + S(i)); if(n[i] != 0) ++drops; n[i] = N(); break; }
      case 17: { int k = slot(), i = slot(); n[i] = n[k]; type[i] = type[k]; name[i] = name[k]; say(S(i) + " = " + S(k)); break; }
      case 18:
      {
        int k = some({ 1 }); if(k < 0) return; E e(n[k]); int i = slot();
        switch(next(6))
        {
          case 0: case 1: say("set attribute of " + S(k)); e.setAttribute(word(next(8)), word(next(8))); break;
          case 2: say("set ns attribute of " + S(k)); e.setAttributeNS("urn:p", word(next(8)), word(next(8))); break;
          case 3: say("remove attribute of " + S(k)); ++removals; e.removeAttribute(word(next(8))); break;
          case 4: { int a = some({ 2 }); if(a < 0) return; say("give " + S(a) + " to " + S(k)); A r = next(2) ? e.setAttributeNode(A(n[a])) : e.setAttributeNodeNS(A(n[a])); if(next(2)) put(i, r, "attribute replaced"); break; }
          default: { A a = e.getAttributeNode(word(next(8))); if(a == 0) return; say("take attribute from " + S(k)); ++removals; A r = e.removeAttributeNode(a); put(i, r, "attribute taken"); }
        }
        break;
      }
      case 19: { int k = any(); if(k < 0) return; int i = next(LISTS); std::string w_ = next(2) ? "*" : word(next(5)); say("list" + std::to_string(i) + " of " + S(k));
        if(n[k].getNodeType() == 1 && next(2)) l[i] = next(2) ? E(n[k]).getElementsByTagName(w_) : E(n[k]).getElementsByTagNameNS("*", w_); else if(n[k].getNodeType() == 9 && next(2)) l[i] = D(n[k]).getElementsByTagName(w_); else l[i] = n[k].getChildNodes(); break; }
      case 20:
      {
        int i = next(MAPS), k = any(); if(k < 0) return;
        if(n[k].getNodeType() == 1) m[i] = n[k].getAttributes(); else if(n[k].getNodeType() == 10) m[i] = next(2) ? DocumentType<std::string>(n[k]).getEntities() : DocumentType<std::string>(n[k]).getNotations(); else return;
        say("map" + std::to_string(i) + " of " + S(k)); break;
      }
      case 21: { int i = next(LISTS + MAPS), s = slot(); if(i < LISTS) { if(l[i] != 0) { if(next(3) == 0) { l[i] = NodeList<std::string>(); say("drop list" + std::to_string(i)); } else put(s, l[i].item(next(4)), "item of list" + std::to_string(i)); } }
        else if(m[i - LISTS] != 0) { Map& q = m[i - LISTS]; switch(next(4)) { case 0: q = Map(); say("drop map" + std::to_string(i - LISTS)); break; case 1: put(s, q.item(next(3)), "item of map" + std::to_string(i - LISTS)); break; case 2: ++removals; put(s, q.removeNamedItem(word(next(8))), "removed from map"); break; default: { int a = some({ 2 }); if(a >= 0) put(s, q.setNamedItem(n[a]), "replaced in map by " + S(a)); } } } break; }
      case 22:
      {
        int k = some({ 3, 4, 8 }); if(k < 0) return; int i = slot(); uint32_t o_ = next(5), c_ = next(5);
        switch(next(4))
        {
          case 0: say("data of " + S(k)); n[k].setNodeValue(word(next(8))); break;
          case 1: { CharacterData<std::string> cd(n[k]); say("delete in " + S(k)); cd.deleteData(o_, c_); break; }
          case 2: { CharacterData<std::string> cd(n[k]); say("insert in " + S(k)); cd.insertData(o_, "ins"); break; }
          default: if(type[k] != 8) { Text<std::string> t(n[k]); put(i, t.splitText(o_), "split of " + S(k)); }
        }
        break;
      }
      case 23: { int k = any(); if(k < 0) return; say("normalize " + S(k)); n[k].normalize(); break; }
      case 24:
      {
        int k = any(); if(k < 0) return; uint32_t q = next(9); int i = slot();
        if(!w || q == 0) { w.reset(); w.reset(new tv::TreeWalker<std::string>(tv::make_document_traversal_t<std::string, Arabica::default_string_adaptor<std::string> >().createTreeWalker(n[k], tv::SHOW_ALL, true))); say("walker on " + S(k)); }
        else if(q == 1) { w.reset(); say("drop walker"); }
        else if(q == 2) { w->setCurrentNode(n[k]); say("walker to " + S(k)); }
        else { N r; switch(q) { case 3: r = w->parentNode(); break; case 4: r = w->firstChild(); break; case 5: r = w->nextSibling(); break; case 6: r = w->previousNode(); break; default: r = w->nextNode(); } put(i, r, "walker moved to"); }
        break;
      }
      default: { int k = some({ 9, 1, 2 }); if(k < 0) return; if(type[k] == 9) { int i = slot(); put(i, D(n[k]).getElementById("x"), "element by id in " + S(k)); } else { say("value or prefix of " + S(k)); if(type[k] == 2) n[k].setNodeValue(word(next(8))); else { n[k].setPrefix("q"); name[k] = n[k].getNodeName(); for(int j = 0; j < NODES; ++j) if(n[j] == n[k]) name[j] = name[k]; } } }
    }
  }
  // everything held can be used
  void touch()
  {
    int h = 0;
    for(int i = 0; i < NODES; ++i)
      if(n[i] != 0)
      {
        ++h;
        pbt::require_eq(static_cast<int>(n[i].getNodeType()), type[i], "type of " + S(i));
        if(type[i] != 1 && type[i] != 2) pbt::require_eq(n[i].getNodeName(), name[i], "name of " + S(i)); else pbt::require(!n[i].getNodeName().empty(), S(i), " lost its name");
        n[i].getNodeValue(); n[i].getLocalName(); n[i].getNamespaceURI();
        D d = n[i].getOwnerDocument(); if(d != 0) { pbt::require(d.getNodeType() == 9, "the owner of ", S(i), " is no document"); d.getDocumentElement(); }
        N p = n[i].getParentNode(); if(p != 0) { bool found = false; for(N k = p.getFirstChild(); k != 0; k = k.getNextSibling()) found |= k == n[i]; pbt::require(found, S(i), " is not among its parent's children"); }
        for(N k = n[i].getFirstChild(); k != 0; k = k.getNextSibling()) pbt::require(k.getParentNode() == n[i], "a child of ", S(i), " has another parent");
        if(type[i] == 1) { Map a = n[i].getAttributes(); for(unsigned j = 0; j < a.getLength(); ++j) { pbt::require(A(a.item(j)).getOwnerElement() == n[i], "an attribute of ", S(i), " belongs elsewhere"); a.item(j).getNodeValue(); } }
        if(type[i] == 2) A(n[i]).getOwnerElement();
      }
    for(auto& x : l) if(x != 0) { ++h; for(unsigned j = 0, c = x.getLength(); j < c && j < 50; ++j) pbt::require(x.item(j) != 0 && !x.item(j).getNodeName().empty(), "empty list item"); }
    for(auto& x : m) if(x != 0) { ++h; for(unsigned j = 0, c = x.getLength(); j < c; ++j) pbt::require(x.item(j) != 0 && !x.item(j).getNodeName().empty(), "empty map item"); }
    if(w) { w->getCurrentNode().getNodeName(); w->getRoot().getNodeName(); }
    held = std::max(held, h);
  }
};

static void run_machine(const std::vector<Op>& ops, const std::vector<uint32_t>& order, std::ostream* out, pbt::Ctx* c)
{
  Machine mc; mc.out = out;
  for(auto& o : ops) { mc.step(o); mc.touch(); }
  // release what is left, in the order drawn, using the rest after each
  std::vector<int> left; for(int i = 0; i < Machine::NODES + Machine::LISTS + Machine::MAPS + 1; ++i) left.push_back(i);
  for(uint32_t o : order)
  {
    size_t k = o % left.size(); int i = left[k]; left.erase(left.begin() + k);
    mc.say("release " + std::to_string(i));
    if(i < Machine::NODES) mc.n[i] = N(); else if((i -= Machine::NODES) < Machine::LISTS) mc.l[i] = NodeList<std::string>(); else if((i -= Machine::LISTS) < Machine::MAPS) mc.m[i] = Map(); else mc.w.reset();
    mc.touch();
  }
  if(c) c->nontrivial(mc.held >= 3 && mc.removals >= 1 && mc.drops >= 1);
}

PBT_PROPERTY(D07, "a history in which at least three handles are held at once, a node is removed or replaced and a handle is dropped half way")
{
  std::vector<Op> ops; std::vector<uint32_t> order;
  c.list(10, 20 + 100 * c.size() / 100, [&](int) { Op o; o.push_back(c.below(26)); c.list(2, 6, [&](int) { o.push_back(c.below(5040)); }); ops.push_back(o); });
  for(int i = 0; i < Machine::NODES + Machine::LISTS + Machine::MAPS; ++i) order.push_back(c.below(5040));
  order.push_back(0);
  run_machine(ops, order, &c.desc, &c);
  run_machine(ops, order, 0, 0);
  size_t before = __sanitizer_get_current_allocated_bytes();
  run_machine(ops, order, 0, 0);
  size_t after = __sanitizer_get_current_allocated_bytes();
  pbt::require(before == after, "all handles are gone, but ", after - before, " bytes more are allocated than before");
}

// ---------------------------------------------------------------- serialising
// a comparison form in which adjacent text is one, adjacent CDATA is one, and
// prefixes and declarations do not show
static void canon(const N& n, std::string& r, std::string& open);
static void canon_kids(const N& n, std::string& r)
{
  std::string open; int kind = 0;
  for(N k = n.getFirstChild(); k != 0; k = k.getNextSibling())
  {
    int t = k.getNodeType(); if(t == 10) continue;
    if((t == 3 || t == 4) && k.getNodeValue().empty()) continue;
    if(t == 3 || t == 4) { if(kind && kind != t) { r += (kind == 3 ? "T[" : "CD[") + open + "]"; open.clear(); } kind = t; open += k.getNodeValue(); continue; }
    if(kind) { r += (kind == 3 ? "T[" : "CD[") + open + "]"; open.clear(); kind = 0; }
    canon(k, r, open);
  }
  if(kind) r += (kind == 3 ? "T[" : "CD[") + open + "]";
}
static void canon(const N& n, std::string& r, std::string&)
{
  switch(n.getNodeType())
  {
    case 8: case 7: domx::dump(n, r, false, false); return;
    case 3: r += "T[" + n.getNodeValue() + "]"; return;
    case 4: r += "CD[" + n.getNodeValue() + "]"; return;
    case 1:
    {
      r += "E{" + n.getNamespaceURI() + "}" + (n.getLocalName().empty() ? n.getNodeName() : n.getLocalName());
      std::multiset<std::string> as; Map m = n.getAttributes();
      for(unsigned i = 0; i < m.getLength(); ++i)
      {
        N a = m.item(i); if(a.getNamespaceURI() == model::XMLNS_URI) continue;
        as.insert("{" + a.getNamespaceURI() + "}" + (a.getLocalName().empty() ? a.getNodeName() : a.getLocalName()) + "=" + a.getNodeValue());
      }
      for(auto& a : as) r += " @" + a;
      break;
    }
    default: r += "N" + std::to_string(n.getNodeType());
  }
  r += "("; canon_kids(n, r); r += ")";
}

// the rules of Namespaces in XML, checked on what a namespace-unaware parse of the text says
static void check_namespaces(const N& e, std::map<std::string, std::string> scope, const std::string& xml)
{
  if(e.getNodeType() == 1)
  {
    Map m = e.getAttributes(); std::set<std::string> names;
    for(unsigned i = 0; i < m.getLength(); ++i)
    {
      std::string q = m.item(i).getNodeName(), v = m.item(i).getNodeValue();
      if(q == "xmlns") scope[""] = v;
      else if(q.compare(0, 6, "xmlns:") == 0) { pbt::require(!v.empty(), "prefix bound to nothing in ", xml); pbt::require(q != "xmlns:xmlns" && (q == "xmlns:xml") == (v == model::XML_URI), "reserved prefix declared in ", xml); scope[q.substr(6)] = v; }
    }
  }
  for(N k = e.getFirstChild(); k != 0; k = k.getNextSibling()) check_namespaces(k, scope, xml);
}

struct TreeGen
{
  pbt::Ctx& c; D d; int budget; model::Opts o;
  TreeGen(pbt::Ctx& c_, D d_) : c(c_), d(d_), budget(2 + 25 * c_.size() / 100) { }
  std::string uri() { return c.pick({ "", "urn:a", "urn:b", "http://x.org/y?a=1&b=\"2\"<'" }); }
  std::string prefix(const std::string& u) { return u.empty() ? "" : c.pick({ "p", "", "q", "p", "a0", "a1", "r" }); }
  static std::string q(const std::string& p, const std::string& l) { return p.empty() ? l : p + ":" + l; }
  E element(int depth)
  {
    --budget; std::string u = uri(), p = prefix(u), l = c.pick({ "a", "b", "item", "x-y", "\xc3\xa9t\xc3\xa9" });
    E e = u.empty() && c.chance(1, 4) ? d.createElement(l) : d.createElementNS(u, q(p, l));
    c.list(0, 4, [&](int) {
      std::string au = uri(), ap = prefix(au), al = c.pick({ "a", "b", "id", "x" });
      if(c.chance(1, 10)) { e.setAttributeNS(model::XML_URI, c.pick({ "xml:lang", "xml:base" }), c.pick({ "en", "fr" })); return; }
      if(c.chance(1, 10)) { std::string np = c.pick({ "p", "q", "", "a0" }); e.setAttributeNS(model::XMLNS_URI, np.empty() ? "xmlns" : "xmlns:" + np, c.pick({ "urn:a", "urn:b", "urn:zz" })); return; }
      if(e.hasAttributeNS(au, al)) return;
      std::string v = model::gen_chars(c, o, 4, true);
      if(au.empty() && c.flip()) { if(!e.hasAttribute(al)) e.setAttribute(al, v); }
      else if(!e.hasAttribute(q(ap, al)) || !ap.empty()) e.setAttributeNS(au, q(ap, al), v); });
    while(budget > 0 && depth < 6 && c.more(2, 3)) e.appendChild(node(depth + 1));
    return e;
  }
  N node(int depth)
  {
    switch(c.weighted({ 8, 4, 1, 1, 1, 1 }))
    {
      case 0: return element(depth);
      case 1: --budget; return d.createTextNode(model::gen_chars(c, o, 4, true));
      case 2: { --budget; std::string s = model::gen_chars(c, o, 5, true), r; for(char ch : s) if(ch != '\r') r += ch; return d.createCDATASection(r); }
      case 3: --budget; return d.createComment(model::gen_comment(c, o));
      case 4: --budget; return d.createProcessingInstruction(c.pick({ "pi", "php", "t" }), model::gen_pi(c, o));
      default: { N f = d.createDocumentFragment(); return d.createTextNode("f"); }
    }
  }
};

PBT_PROPERTY(D08, "an element below the top needs a namespace declaration of its own, or content needs escaping")
{
  D d = Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocument("", "", 0);
  int from = c.weighted({ 3, 2 });
  if(from == 0)
  {
    TreeGen g(c, d);
    if(c.chance(1, 4)) d.appendChild(d.createComment(model::gen_comment(c, g.o)));
    d.appendChild(g.element(0));
    if(c.chance(1, 4)) d.appendChild(d.createProcessingInstruction("after", model::gen_pi(c, g.o)));
  }
  else
  {
    model::Opts o; model::NodeP m = model::gen_doc(c, o); std::string xml = model::to_xml(&c, *m);
    d = domx::parse(xml); pbt::require(d != 0, "a well-formed document was not built: ", pbt::esc(xml));
    c << "parsed " << pbt::esc(xml) << "\n";
  }
  // move some elements about
  c.list(0, 3, [&](int) {
    NodeList<std::string> all = d.getElementsByTagName("*"); if(all.getLength() < 2) return;
    N e = all.item(c.below(all.getLength())), t = all.item(c.below(all.getLength()));
    for(N x = t; x != 0; x = x.getParentNode()) if(x == e) return;
    t.appendChild(e); });
  // what to write: the document, an element in place, or an element on its own
  N what = d; int how = c.weighted({ 4, 2, 1 });
  if(how)
  {
    NodeList<std::string> all = d.getElementsByTagName("*"); what = all.item(c.below(all.getLength()));
    if(how == 2 && what.getParentNode() != 0) what = what.getParentNode().removeChild(what);
  }
  std::ostringstream os; std::string out;
  if(c.chance(1, 4)) { os << what; os.str(""); }   // the stream remembers nothing
  os << what; out = os.str();
  std::string want, got, dummy;
  c << (how == 0 ? "document" : how == 1 ? "element in place" : "element on its own") << " written: " << pbt::esc(out) << "\n";
  if(how == 0) canon_kids(d, want); else canon(what, want, dummy);
  std::string errors; D back = domx::parse(out, &errors);
  pbt::require(back != 0 && back.getDocumentElement() != 0, "what was written does not parse: ", pbt::esc(errors), " ", pbt::esc(out));
  if(how == 0) canon_kids(back, got); else canon(back.getDocumentElement(), got, dummy);
  pbt::require_eq(got, want, "tree read back from " + pbt::esc(out));
  check_namespaces(back, std::map<std::string, std::string>(), pbt::esc(out));
  // and written again it is the same tree
  std::ostringstream os2; os2 << back; D again = domx::parse(os2.str()); pbt::require(again != 0, "second writing does not parse: ", pbt::esc(os2.str()));
  std::string got2; if(how == 0) canon_kids(again, got2); else canon(again.getDocumentElement(), got2, dummy);
  pbt::require_eq(got2, want, "tree read back from the second writing " + pbt::esc(os2.str()));
  size_t at = out.find("xmlns"); bool deep = at != std::string::npos && out.find("<", at) != std::string::npos && out.find("xmlns", out.find("<", at)) != std::string::npos;
  c.nontrivial(deep || out.find('&') != std::string::npos || out.find("<![") != std::string::npos);
}

// ---------------------------------------------------------------- building
namespace {
struct Built { std::string xml, want; bool ok = true, dtd = false; };

// a document with an internal subset, and the tree it stands for
struct DocGen
{
  pbt::Ctx& c; model::Opts o;
  std::map<std::string, std::string> ents;                            // internal entities: text only
  std::map<std::string, std::map<std::string, std::string> > dflt;    // element qname -> defaults
  std::set<std::string> notations, unparsed; std::string unused; std::string pub, sys, subset, root;
  DocGen(pbt::Ctx& c_) : c(c_) { o.xml_attrs = true; o.max_nodes = 25; }
  void text(const model::Node& n, std::string& r)
  {
    if(n.kind == model::ELEM)
    {
      r += "<" + n.qname();
      for(auto& d : n.ns) r += " " + (d.first.empty() ? std::string("xmlns") : "xmlns:" + d.first) + "=" + model::esc_attr(&c, d.second);
      for(auto& a : n.attrs) if(a.value.find('\x01') == std::string::npos) r += " " + a.qname() + "=" + model::esc_attr(&c, a.value);
      r += ">"; for(auto& k : n.kids) text(*k, r); r += "</" + n.qname() + ">"; return;
    }
    if(n.kind == model::TEXT) { for(auto& e : ents) if(e.second == n.value && c.chance(3, 4)) { r += "&" + e.first + ";"; return; } }
    model::ser(&c, n, r);
  }
  // adds to the model what the DTD supplies
  void defaults(model::Node& n)
  {
    if(n.kind == model::ELEM && n.qname() == "a" && subset.find("id ID") != std::string::npos)
      for(auto& at : n.attrs)
        if(at.qname() == "id")
        {
          std::string r; for(char ch : at.value) if(ch != ' ' || (!r.empty() && r.back() != ' ')) r += ch;
          if(!r.empty() && r.back() == ' ') r.erase(r.size() - 1);
          at.value = r;
        }
    auto f = dflt.find(n.qname());
    if(n.kind == model::ELEM && f != dflt.end())
      for(auto& d : f->second)
      {
        bool have = false; for(auto& a : n.attrs) if(a.qname() == d.first) have = true;
        if(!have) { model::Attr a; a.local = d.first; a.value = d.second; n.attrs.push_back(a); }
      }
    for(auto& k : n.kids) defaults(*k);
  }
  Built make()
  {
    Built b; b.dtd = c.chance(2, 3);
    if(b.dtd)
    {
      c.list(0, 3, [&](int) { std::string v = c.pick({ "one", "two words", "\xc3\xa9", "3" }); ents.insert(std::make_pair("e" + std::to_string(ents.size()), v)); });
      if(!ents.empty() && c.flip()) for(auto& e : ents) o.texts.push_back(e.second);
      if(!o.texts.empty()) o.texts.push_back("plain");
    }
    model::NodeP m = model::gen_doc(c, o); root = m->root_elem()->qname();
    std::string body; for(auto& k : m->kids) if(k->kind == model::ELEM) break; else { }
    std::string pre, doctype;
    if(b.dtd)
    {
      for(auto& e : ents) subset += "<!ENTITY " + e.first + " '" + e.second + "'>";
      // an entity that is not used may hold anything
      if(c.chance(1, 6)) { unused = "zz"; subset += "<!ENTITY zz '" + std::string(c.pick({ "<a>", "</a>", "<a>x</b>", "<q:z/>", "&#60;", "<a x=1/>", "<a/><b>", "<!-- -- -->" })) + "'>"; }
      c.list(0, 2, [&](int i) { std::string n = "n" + std::to_string(i); notations.insert(n); subset += "<!NOTATION " + n + c.pick({ " SYSTEM 'http://x/n'>", " PUBLIC 'pub'>", " PUBLIC 'pub' 'http://x/n'>" }); });
      if(!notations.empty()) c.list(0, 2, [&](int i) { std::string n = "u" + std::to_string(i); unparsed.insert(n); subset += "<!ENTITY " + n + " SYSTEM 'http://x/u' NDATA n0>"; });
      c.list(0, 3, [&](int) {
        std::string el = c.pick(o.names), at = c.pick({ "dd", "ee", "name" });
        if(dflt[el].count(at)) return;
        std::string v = c.pick({ "dv", "a b", "" }); dflt[el][at] = v; subset += "<!ATTLIST " + el + " " + at + " CDATA '" + v + "'>"; });
      if(c.flip()) subset += "<!ATTLIST a id ID #IMPLIED>";
      if(c.chance(1, 3)) subset += "<!ELEMENT a ANY><!-- in the subset --><?sub set?>";
      switch(c.weighted({ 3, 1, 1 })) { case 0: break; case 1: sys = "http://x.org/x.dtd"; break; default: pub = "-//X//Y"; sys = "http://x.org/y.dtd"; }
      doctype = "<!DOCTYPE " + root + (pub.empty() ? sys.empty() ? "" : " SYSTEM '" + sys + "'" : " PUBLIC '" + pub + "' '" + sys + "'") + (subset.empty() && !sys.empty() ? "" : " [" + subset + "]") + ">";
    }
    bool placed = false;
    for(auto& k : m->kids) { if(!placed && b.dtd && (k->kind == model::ELEM || c.flip())) { pre += doctype; placed = true; } text(*k, pre); }
    b.xml = pre; defaults(*m); model::dump(*m, b.want);
    if(b.dtd)
    {
      b.want += " DT[" + root + "|" + pub + "|" + sys + "]";
      std::set<std::string> es; for(auto& e : ents) es.insert(e.first); if(!unused.empty()) es.insert(unused); for(auto& u : unparsed) es.insert(u + " of n0");
      for(auto& e : es) b.want += " ENT " + e;
      for(auto& n : notations) b.want += " NOT " + n;
    }
    return b;
  }
};
std::string read_built(D d)
{
  std::string r; domx::dump(d, r);
  DocumentType<std::string> dt = d.getDoctype();
  if(dt != 0)
  {
    r += " DT[" + dt.getName() + "|" + dt.getPublicId() + "|" + dt.getSystemId() + "]";
    std::set<std::string> es, ns; Map m = dt.getEntities();
    for(unsigned i = 0; i < m.getLength(); ++i) { Entity<std::string> e(m.item(i)); es.insert(e.getNodeName() + (e.getNotationName().empty() ? "" : " of " + e.getNotationName())); }
    m = dt.getNotations(); for(unsigned i = 0; i < m.getLength(); ++i) ns.insert(m.item(i).getNodeName());
    for(auto& e : es) r += " ENT " + e;
    for(auto& n : ns) r += " NOT " + n;
  }
  return r;
}
void ids(const N& n, const std::string& xml)
{
  if(n.getNodeType() == 1 && n.getNodeName() == "a" && E(n).hasAttribute("id") && !E(n).getAttribute("id").empty())
  {
    std::string v = E(n).getAttribute("id"); E f = n.getOwnerDocument().getElementById(v);
    pbt::require(f != 0 && f.getAttribute("id") == v, "getElementById(", pbt::esc(v), ") does not find its element in ", pbt::esc(xml));
  }
  for(N k = n.getFirstChild(); k != 0; k = k.getNextSibling()) ids(k, xml);
}
}

PBT_PROPERTY(D09, "a document of at least four nodes is built by a builder that has built or refused another before, or has a DTD that adds something")
{
  Arabica::SAX2DOM::Parser<std::string> builder;
  Arabica::SAX::CatchErrorHandler<std::string> eh; bool handler = c.flip(); if(handler) builder.setErrorHandler(eh);
  std::vector<std::pair<D, std::string> > kept; bool nt = false; int builds = 0;
  c.list(1, 1 + 4 * c.size() / 100, [&](int) {
    Built b; { DocGen g(c); b = g.make(); }
    if(c.chance(1, 4))
    {
      b.ok = false;
      switch(c.below(6))
      {
        case 0: b.xml += "<again/>"; break;
        case 1: b.xml = b.xml.substr(0, b.xml.rfind("</")); break;
        case 2: b.xml.insert(b.xml.rfind("</"), "</nope>"); break;
        case 3: b.xml.insert(b.xml.rfind("</"), "&undeclared;"); if(b.dtd) b.xml.insert(b.xml.rfind("</"), "<"); break;
        case 4: b.xml.insert(b.xml.rfind("</"), "<x a='1' a='2'/>"); break;
        default: b.xml.insert(b.xml.rfind("</"), "<nopfx:x/>");
      }
    }
    c << (b.ok ? "build " : "build malformed ") << pbt::esc(b.xml) << "\n";
    std::istringstream ss(b.xml); Arabica::SAX::InputSource<std::string> is(ss); bool said = builder.parse(is); D d = builder.getDocument();
    pbt::require_eq(said, d != 0, "parse() does not say whether there is a document");
    if(!b.ok)
    {
      pbt::require(d == 0, "malformed text gave a document: ", pbt::esc(b.xml));
      if(handler) { pbt::require(eh.errorsReported(), "no error was reported for ", pbt::esc(b.xml)); eh.reset(); }
    }
    else
    {
      if(handler) pbt::require(!eh.errorsReported(), "error reported for well-formed ", pbt::esc(b.xml), ": ", eh.errors());
      pbt::require(d != 0, "no document for well-formed ", pbt::esc(b.xml));
      pbt::require_eq(read_built(d), b.want, "document built from " + pbt::esc(b.xml));
      if(b.xml.find("id ID") != std::string::npos) ids(d, b.xml);
      kept.push_back(std::make_pair(d, b.want));
      if(b.want.size() > 60 && (builds || (b.dtd && b.xml.find("[<") != std::string::npos))) nt = true;
    }
    ++builds;
    if(c.chance(1, 6)) { builder.reset(); pbt::require(builder.getDocument() == 0, "reset leaves a document"); } });
  // what was built earlier is untouched by later builds
  for(auto& k : kept) pbt::require_eq(read_built(k.first), k.second, "document built earlier");
  c.nontrivial(nt);
}
