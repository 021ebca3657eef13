// D01 - D07: DOM histories against a model.
#include "domworld.hpp"
using namespace dw;

static void start(World& w, pbt::Ctx& c, bool dtd_likely)
{
  w.new_doc(c.chance(dtd_likely ? 2 : 1, 3));
  if(c.chance(1, 3)) w.new_doc(c.chance(1, 4));
  // a little tree to begin with
  c.list(0, 8, [&](int) {
    M* d = w.docs[c.below(w.docs.size())];
    M* m = w.create(d, c.weighted({ 4, 3, 3, 1, 1, 1, 1, 0 }));
    if(!m) return;
    std::vector<M*> ps; for(auto& x : w.all) if(x->doc == d && (x->type == ELEM || x->type == FRAG || x->type == DOC)) ps.push_back(x.get());
    M* p = ps[c.below(ps.size())];
    Codes r; w.can_add(p, m, 0, r);
    if(r.empty() && !m->has(p)) w.op_insert(p, m, 0, true);
  });
}

PBT_PROPERTY(D01, "at least three successful and one refused edit on a tree of six or more nodes")
{
  World w(c); start(w, c, false);
  int steps = c.list(0, 3 + 30 * c.size() / 100, [&](int) {
    if(c.chance(1, 4)) { M* d = w.docs[c.below(w.docs.size())]; w.create(d, c.weighted({ 3, 2, 2, 1, 1, 1, 3, 1, 1, 0 })); }
    else if(c.chance(1, 40))
    {
      std::string q = "dt"; N h = Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocumentType(q, "", "");
      M* m = w.make(DOCTYPE, 0); m->name = q; m->h = h; w.byimpl[World::key(h)] = m; w.say("create doctype -> " + w.show(m));
    }
    else w.tree_op();
    w.verify_all();
  });
  (void)steps;
  c.nontrivial(w.ok_ops >= 3 && w.refused >= 1 && w.all.size() >= 6);
  if(w.refused) c.label("refusals");
}

// ---------------------------------------------------------------- attributes
struct AttrWorld : World
{
  AttrWorld(pbt::Ctx& c_) : World(c_) { names = { "a", "b", "id", "d" }; }
  typedef std::vector<M*> V;
  static V by_name(M* e, const std::string& q) { V v; for(M* a : e->attrs) if(a->name == q) v.push_back(a); return v; }
  static V by_ns(M* e, const std::string& u, const std::string& l)
  {
    V v; if(l.empty()) return v;
    for(M* a : e->attrs)
      if((u.empty() && !a->hasns && (a->local == l || (a->local.empty() && a->name == l))) || (!u.empty() && a->uri == u && a->local == l)) v.push_back(a);
    return v;
  }
  void drop(M* e, M* a, bool ns)
  {
    e->attrs.erase(std::find(e->attrs.begin(), e->attrs.end(), a)); a->owner = 0;
    // a declared default comes back
    auto f = e->doc->defaults.find(e->name); if(f == e->doc->defaults.end()) return;
    std::string n = ns ? (a->local.empty() ? a->name : a->local) : a->name;
    if(ns && a->hasns) return;
    if(!f->second.count(n)) return;
    M* d = model_attr(e->doc, n, f->second[n]); d->specified = false; d->owner = e; e->attrs.push_back(d);
    N h = E(e->h).getAttributeNode(n);
    pbt::require(h != 0, "default attribute ", n, " did not come back to ", show(e));
    bind(d, h); pbt::require_eq(d->val(), f->second[n], "value of the default attribute " + n + " of " + show(e));
  }
  void value(M* a, const std::string& v) { rekid(a); a->specified = true; for(M* k : a->kids) pbt::require(k->type == TEXT, "child of attribute is not text"); pbt::require_eq(a->val(), v, "new value of " + show(a)); }
  void set_value(M* a, const std::string& v) { for(M* k : a->kids) k->parent = 0; a->kids.clear(); value(a, v); }
  // putting an attribute node into an element
  void give(M* e, M* a, bool ns, int how)
  {
    V old = !ns ? by_name(e, a->name) : by_ns(e, a->hasns ? a->uri : "", a->local.empty() ? a->name : a->local);
    if(a->hasns && ns) old = by_ns(e, a->uri, a->local);
    if(old.size() > 1) return;
    say("give " + show(a) + " to " + show(e) + (ns ? " by namespace" : " by name") + (how ? " through the map" : ""));
    Codes r;
    if(a->doc != e->doc) r.insert(X::WRONG_DOCUMENT_ERR);
    if(a->type != ATTR) r.insert(X::HIERARCHY_REQUEST_ERR);
    else if(a->owner && a->owner != e) r.insert(X::INUSE_ATTRIBUTE_ERR);
    N res;
    if(a->type != ATTR) how = 1;
    if(!attempt(r, false, [&] {
      if(how) { Map m = e->h.getAttributes(); res = ns ? m.setNamedItemNS(a->h) : m.setNamedItem(a->h); }
      else res = ns ? E(e->h).setAttributeNodeNS(A(a->h)) : E(e->h).setAttributeNode(A(a->h)); })) return;
    if(a->owner == e) { pbt::require(res == 0 || res == a->h, "setting an attribute that is already there returned something else"); return; }
    same(res, old.empty() ? 0 : old[0], "attribute replaced by", a);
    if(!old.empty()) { *std::find(e->attrs.begin(), e->attrs.end(), old[0]) = a; old[0]->owner = 0; } else e->attrs.push_back(a);
    a->owner = e;
  }
  void op()
  {
    M* e = pick({ ELEM }); if(!e) return;
    if(e->ro)
    {
      say("set attribute of read-only " + show(e));
      attempt({ X::NO_MODIFICATION_ALLOWED_ERR }, false, [&] { if(c.flip()) E(e->h).setAttribute("a", "x"); else if(c.flip()) E(e->h).setAttributeNS("urn:p", "p:a", "x"); else if(!e->attrs.empty() && c.flip()) E(e->h).removeAttribute(e->attrs[0]->name); else E(e->h).setAttributeNode(D(e->doc->h).createAttribute("zz")); });
      return;
    }
    std::string q = gen_q(), u = q.find(':') == std::string::npos ? "" : gen_uri(q), v = gen_text();
    if(c.flip() && !e->attrs.empty()) { M* a = e->attrs[c.below(e->attrs.size())]; q = a->name; u = a->uri; }
    Codes r; std::string p, l, nu;
    switch(c.weighted({ 5, 5, 2, 2, 3, 3, 2, 1, 1, 2, 1, 1, 1 }))
    {
      case 0:
      {
        V old = by_name(e, q); if(old.size() > 1) return;
        say("set " + q + "='" + pbt::esc(v) + "' on " + show(e));
        r = name_ok(q);
        if(!attempt(r, false, [&] { E(e->h).setAttribute(q, v); })) return;
        if(!old.empty()) { set_value(old[0], v); return; }
        M* a = model_attr(e->doc, q, v); a->owner = e; e->attrs.push_back(a);
        bind(a, E(e->h).getAttributeNode(q)); pbt::require_eq(a->val(), v, "value set for " + q);
        return;
      }
      case 1:
      {
        qname(u, q, true, r, p, l, nu);
        V old = by_ns(e, nu, l); if(old.size() > 1) return;
        say("set {" + u + "}" + q + "='" + pbt::esc(v) + "' on " + show(e));
        if(!attempt(r, false, [&] { E(e->h).setAttributeNS(u, q, v); })) return;
        if(!old.empty())
        {
          M* a = old[0];
          if(!a->local.empty()) { a->name = q; a->prefix = p; }
          set_value(a, v); return;
        }
        M* a = model_attr(e->doc, q, v); a->prefix = p; a->local = l; a->uri = nu; a->hasns = !nu.empty(); a->owner = e; e->attrs.push_back(a);
        bind(a, E(e->h).getAttributeNodeNS(nu, l)); pbt::require_eq(a->val(), v, "value set for " + q);
        return;
      }
      case 2: case 7:
      {
        V old = by_name(e, q); if(old.size() > 1) return;
        bool map = c.flip(); say("remove " + q + " from " + show(e) + (map ? " through the map" : ""));
        if(old.empty()) r.insert(X::NOT_FOUND_ERR);
        N res;
        if(!attempt(r, !map, [&] { if(map) { Map m = e->h.getAttributes(); res = m.removeNamedItem(q); } else E(e->h).removeAttribute(q); })) return;
        if(old.empty()) return;
        if(map) same(res, old[0], "result of removing", old[0]);
        drop(e, old[0], false); return;
      }
      case 3: case 8:
      {
        size_t at = q.find(':'); l = at == std::string::npos ? q : q.substr(at + 1);
        V old = by_ns(e, u, l); if(old.size() > 1) return;
        bool map = c.flip(); say("remove {" + u + "}" + l + " from " + show(e) + (map ? " through the map" : ""));
        if(old.empty()) r.insert(X::NOT_FOUND_ERR);
        N res;
        if(!attempt(r, !map, [&] { if(map) { Map m = e->h.getAttributes(); res = m.removeNamedItemNS(u, l); } else E(e->h).removeAttributeNS(u, l); })) return;
        if(old.empty()) return;
        if(map) same(res, old[0], "result of removing", old[0]);
        drop(e, old[0], true); return;
      }
      case 4: case 5:
      {
        M* a = c.chance(1, 12) ? pick_node() : c.chance(2, 3) ? create(c.chance(5, 6) ? e->doc : docs[c.below(docs.size())], c.flip() ? 8 : 9) : pick({ ATTR });
        if(!a) return;
        if(a->type == ATTR && !a->owner && a->kids.empty() && c.flip()) { say("value of " + show(a) + " := '" + pbt::esc(v) + "'"); A(a->h).setValue(v); set_value(a, v); }
        give(e, a, c.flip(), c.chance(1, 3)); return;
      }
      case 6:
      {
        M* a = c.chance(3, 4) && !e->attrs.empty() ? e->attrs[c.below(e->attrs.size())] : pick({ ATTR });
        if(!a) return;
        say("remove node " + show(a) + " from " + show(e));
        if(a->owner != e) r.insert(X::NOT_FOUND_ERR);
        N res;
        if(!attempt(r, false, [&] { res = E(e->h).removeAttributeNode(A(a->h)); })) return;
        same(res, a, "result of removing", a);
        drop(e, a, !a->local.empty()); return;
      }
      case 9:
      {
        M* a = pick({ ATTR }); if(!a || a->ro) return;
        say("value of " + show(a) + " := '" + pbt::esc(v) + "'");
        if(c.flip()) A(a->h).setValue(v); else a->h.setNodeValue(v);
        set_value(a, v); return;
      }
      case 10:
      {
        // through the text below the attribute
        M* a = pick({ ATTR }); if(!a || a->ro || a->kids.empty()) return;
        M* t = a->kids[c.below(a->kids.size())]; if(t->type != TEXT) return;
        say("text in " + show(a) + " gets '" + pbt::esc(v) + "'");
        CharacterData<std::string> cd(t->h);
        switch(c.below(4)) { case 0: cd.appendData(v); t->value += v; break; case 1: cd.insertData(0, v); t->value = v + t->value; break; case 2: cd.setData(v); t->value = v; break;
          default: { M* x = make(TEXT, a->doc); x->name = "#text"; x->value = v; bind(x, D(a->doc->h).createTextNode(v)); a->h.appendChild(x->h); x->parent = a; a->kids.push_back(x); } }
        return;
      }
      case 11:
      {
        M* a = pick({ ATTR }); if(!a || a->ro || !a->hasns || a->prefix == "xml" || a->uri == XMLNS) return;
        std::string np = c.pick({ "p", "r", "zz", "", "xml", "xmlns", "1p", "a b" });
        if(np == "xml" || np == "xmlns") r.insert(X::NAMESPACE_ERR);
        else if(!np.empty()) r = name_ok(np);
        say("prefix of " + show(a) + " := '" + np + "'");
        if(np == "xml" && a->uri == XMLURI) return;
        if(!attempt(r, false, [&] { a->h.setPrefix(np); })) return;
        a->prefix = np; a->name = np.empty() ? a->local : np + ":" + a->local; return;
      }
      default:
      {
        say("normalize " + show(e));
        std::vector<M*> as = e->attrs; std::vector<std::string> vs; for(M* a : as) vs.push_back(a->val());
        if(!e->kids.empty()) return;
        std::vector<bool> sp; for(M* a : as) sp.push_back(a->specified);
        e->h.normalize();
        // merged text keeps its first node; what was dropped stands alone
        for(size_t i = 0; i < as.size(); ++i)
        {
          V ks = as[i]->kids;
          for(size_t j = 0; j < ks.size(); ++j)
            if(ks[j]->type == TEXT)
            {
              size_t k = j + 1; for(; k < ks.size() && ks[k]->type == TEXT; ++k) { ks[j]->value += ks[k]->value; detach(ks[k]); }
              if(ks[j]->value.empty()) detach(ks[j]);
              j = k - 1;
            }
          pbt::require_eq(as[i]->val(), vs[i], "value of " + show(as[i]) + " after normalize");
        }
      }
    }
  }
  void getters()
  {
    for(auto& m : all)
    {
      if(m->type != ELEM || m->h == 0) continue;
      E e(m->h); Map map = e.getAttributes();
      for(M* a : m->attrs)
      {
        V n = by_name(m.get(), a->name);
        M* g = find(e.getAttributeNode(a->name)); pbt::require(std::find(n.begin(), n.end(), g) != n.end(), "getAttributeNode(", a->name, ") of ", show(m.get()), " gives ", show(g));
        pbt::require_eq(e.getAttribute(a->name), g->val(), "getAttribute " + a->name + " of " + show(m.get()));
        pbt::require(e.hasAttribute(a->name), "hasAttribute(", a->name, ") of ", show(m.get()), " is false");
        pbt::require(find(map.getNamedItem(a->name)) == g, "getNamedItem(", a->name, ") of ", show(m.get()), " differs from getAttributeNode");
        std::string l = a->local.empty() ? a->name : a->local;
        n = by_ns(m.get(), a->uri, l);
        g = find(e.getAttributeNodeNS(a->uri, l)); pbt::require(std::find(n.begin(), n.end(), g) != n.end(), "getAttributeNodeNS({", a->uri, "}", l, ") of ", show(m.get()), " gives ", show(g));
        pbt::require_eq(e.getAttributeNS(a->uri, l), g->val(), "getAttributeNS {" + a->uri + "}" + l + " of " + show(m.get()));
        pbt::require(e.hasAttributeNS(a->uri, l), "hasAttributeNS({", a->uri, "}", l, ") of ", show(m.get()), " is false");
        pbt::require(find(map.getNamedItemNS(a->uri, l)) == g, "getNamedItemNS({", a->uri, "}", l, ") of ", show(m.get()), " differs from getAttributeNodeNS");
      }
      for(const char* absent : { "a", "b", "p:a", "id", "d", "zz" })
        if(by_name(m.get(), absent).empty())
          pbt::require(!e.hasAttribute(absent) && e.getAttributeNode(absent) == 0 && e.getAttribute(absent).empty() && map.getNamedItem(absent) == 0, "absent attribute ", absent, " of ", show(m.get()), " is reported");
      for(const char* au : { "", "urn:p", "urn:q" }) for(const char* absent : { "a", "b", "id" })
        if(by_ns(m.get(), au, absent).empty())
          pbt::require(!e.hasAttributeNS(au, absent) && e.getAttributeNodeNS(au, absent) == 0 && e.getAttributeNS(au, absent).empty() && map.getNamedItemNS(au, absent) == 0, "absent attribute {", au, "}", absent, " of ", show(m.get()), " is reported");
    }
    for(M* d : docs)
      for(const char* want : { "x", "yz", "hello", "0123456789", "nope" })
      {
        std::vector<M*> cand; bool attached = false;
        for(auto& m : all) if(m->type == ATTR && m->owner && m->doc == d && d->ids.count(m->name) && m->val() == want) { cand.push_back(m->owner); if(m->owner->root() == d) attached = true; }
        M* got = find(D(d->h).getElementById(want));
        if(!got) pbt::require(!attached, "getElementById(", want, ") finds nothing in ", show(d));
        else pbt::require(std::find(cand.begin(), cand.end(), got) != cand.end(), "getElementById(", want, ") in ", show(d), " gives ", show(got), ", which has no such id");
      }
  }
};

PBT_PROPERTY(D02, "at least four attribute changes of which one replaces, removes or is refused")
{
  AttrWorld w(c);
  w.new_doc(c.flip()); if(c.chance(1, 4)) w.new_doc(c.flip());
  c.list(1, 3, [&](int) {
    M* d = w.docs[c.below(w.docs.size())]; M* e = w.create(d, c.flip() ? 0 : 1);
    if(e && c.flip()) { M* r = d; for(M* k : d->kids) if(k->type == ELEM) r = k; w.op_insert(r, e, 0, true); } });
  c.list(0, 2 + 25 * c.size() / 100, [&](int) { w.op(); w.verify_all(); w.getters(); });
  int with = 0; for(auto& m : w.all) if(m->type == ATTR && !m->owner) ++with;
  c.nontrivial(w.ok_ops >= 5 && (with || w.refused));
  if(w.refused) c.label("refusals");
}

// ---------------------------------------------------------------- character data
struct TextWorld : World
{
  TextWorld(pbt::Ctx& c_) : World(c_) { }
  int number(size_t len) { switch(c.weighted({ 6, 1, 1, 1, 1 })) { case 0: return c.range(0, static_cast<int>(len)); case 1: return static_cast<int>(len) + c.range(1, 3); case 2: return -c.range(1, 3); case 3: return 2147483647; default: return static_cast<int>(len); } }
  void normalize(M* m)
  {
    std::vector<M*> ks = m->kids;
    for(size_t j = 0; j < ks.size(); ++j)
      if(ks[j]->type == TEXT)
      {
        size_t k = j + 1; for(; k < ks.size() && ks[k]->type == TEXT; ++k) { ks[j]->value += ks[k]->value; detach(ks[k]); }
        if(ks[j]->value.empty()) detach(ks[j]);
        j = k - 1;
      }
      else normalize(ks[j]);
    for(M* a : m->attrs) normalize(a);
  }
  static std::string text(const M* m) { std::string r; for(M* k : m->kids) r += k->type == TEXT ? "T" + k->value : k->type == CDATA ? "[" + k->value + "]" : k->type == ELEM || k->type == ENTREF ? text(k) : ""; return r; }
  void op()
  {
    M* m = pick({ TEXT, CDATA, COMMENT }); if(!m) return;
    CharacterData<std::string> d(m->h);
    std::string v = gen_text(); size_t len = m->value.size();
    int off = number(len), n = number(len); Codes r;
    if(m->ro) r.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    bool in = off >= 0 && static_cast<size_t>(off) <= len;
    size_t cnt = n < 0 ? 0 : in ? std::min(static_cast<size_t>(n), len - off) : 0;
    std::ostringstream s;
    switch(c.below(9))
    {
      case 0: say("append '" + pbt::esc(v) + "' to " + show(m)); if(attempt(r, false, [&] { d.appendData(v); })) m->value += v; return;
      case 1: s << "insert '" << pbt::esc(v) << "' at " << off << " in " << show(m); say(s.str()); if(!in) r.insert(X::INDEX_SIZE_ERR);
        if(attempt(r, false, [&] { d.insertData(off, v); })) m->value.insert(off, v); return;
      case 2: s << "delete " << off << "+" << n << " in " << show(m); say(s.str()); if(!in || n < 0) r.insert(X::INDEX_SIZE_ERR);
        if(attempt(r, false, [&] { d.deleteData(off, n); })) m->value.erase(off, cnt); return;
      case 3: s << "replace " << off << "+" << n << " by '" << pbt::esc(v) << "' in " << show(m); say(s.str()); if(!in || n < 0) r.insert(X::INDEX_SIZE_ERR);
        if(attempt(r, false, [&] { d.replaceData(off, n, v); })) m->value.replace(off, cnt, v); return;
      case 4: { s << "substring " << off << "+" << n << " of " << show(m); say(s.str()); r.clear(); if(!in || n < 0) r.insert(X::INDEX_SIZE_ERR);
        std::string got; if(attempt(r, false, [&] { got = d.substringData(off, n); })) pbt::require_eq(got, m->value.substr(off, cnt), "substring of " + show(m)); return; }
      case 5: say("set '" + pbt::esc(v) + "' in " + show(m)); { bool nv = c.flip(); if(attempt(r, false, [&] { if(nv) m->h.setNodeValue(v); else d.setData(v); })) m->value = v; } return;
      case 6: case 7:
      {
        if(m->type == COMMENT) return;
        s << "split " << show(m) << " at " << off; say(s.str()); if(!in) r.insert(X::INDEX_SIZE_ERR);
        N t; if(!attempt(r, false, [&] { t = m->type == TEXT ? Text<std::string>(m->h).splitText(off) : CDATASection<std::string>(m->h).splitText(off); })) return;
        M* k = make(m->type, m->doc); k->name = m->name; k->value = m->value.substr(off); m->value.erase(off);
        bind(k, t);
        if(m->parent) { k->parent = m->parent; m->parent->kids.insert(m->parent->kids.begin() + m->index() + 1, k); }
        return;
      }
      default:
      {
        M* e = pick({ ELEM, FRAG, DOC, TEXT, PI, ATTR }); if(!e) return;
        if(e->type == PI) { say("set '" + pbt::esc(v) + "' in " + show(e)); ProcessingInstruction<std::string> p(e->h); if(c.flip()) p.setData(v); else e->h.setNodeValue(v); e->value = v; pbt::require_eq(p.getData(), v, "data of " + show(e)); pbt::require_eq(p.getTarget(), e->name, "target of " + show(e)); return; }
        if(e->type == ELEM && c.flip()) { say("set a node value on " + show(e)); e->h.setNodeValue(v); return; }
        say("normalize " + show(e)); e->h.normalize(); normalize(e); ++ok_ops; return;
      }
    }
  }
  void check() { for(auto& m : all) if(m->h != 0 && (m->type == TEXT || m->type == CDATA || m->type == COMMENT)) { CharacterData<std::string> d(m->h); pbt::require_eq(d.getData(), m->value, "data of " + show(m.get())); pbt::require_eq(d.getLength(), static_cast<int>(m->value.size()), "length of " + show(m.get())); } }
};

PBT_PROPERTY(D03, "at least four character data operations on non-empty text, one of them a split, normalize or refusal")
{
  TextWorld w(c); M* d = w.new_doc(c.chance(1, 4));
  M* r = 0; for(M* k : d->kids) if(k->type == ELEM) r = k;
  if(!r) { r = w.make(ELEM, d); r->name = "r"; N h = D(d->h).createElement("r"); w.bind(r, h); d->h.appendChild(h); w.put(d, r, 0); }
  c.list(1, 8, [&](int) {
    M* m = w.create(d, c.weighted({ 2, 0, 8, 1, 3, 1, 1, 1, 1 })); if(!m) return;
    std::vector<M*> ps; for(auto& x : w.all) if(x->type == ELEM || x->type == FRAG || (x->type == ATTR && m->type == TEXT)) ps.push_back(x.get());
    M* p = c.flip() ? r : ps[c.below(ps.size())]; Codes no; w.can_add(p, m, 0, no); if(no.empty() && c.chance(7, 8)) w.op_insert(p, m, 0, true); });
  bool special = false;
  c.list(0, 3 + 20 * c.size() / 100, [&](int) { size_t before = w.all.size(); if(c.chance(1, 6)) w.tree_op(); else w.op(); if(w.all.size() != before) special = true; w.verify_all(); w.check(); });
  c.nontrivial(w.ok_ops >= 4 && (special || w.refused));
}

// ---------------------------------------------------------------- cloning
struct CloneWorld : AttrWorld
{
  CloneWorld(pbt::Ctx& c_) : AttrWorld(c_) { names = { "a", "b", "id", "d" }; }
  M* copy(const M* m, M* doc, bool deep, bool import)
  {
    M* n = make(m->type, doc);
    n->name = m->name; n->prefix = m->prefix; n->local = m->local; n->uri = m->uri; n->hasns = m->hasns; n->value = m->value; n->ro = m->ro;
    if(m->type == DOC) { n->doc = n; doc = n; }
    for(M* a : m->attrs) if(a->specified) { M* x = copy(a, doc, true, import); x->owner = n; n->attrs.push_back(x); }
    if(m->type == ELEM) add_defaults(n);
    for(M* k : m->kids)
      if(deep || m->type == ATTR || (m->type == ENTREF && !import) || (m->type == DOC && k->type == DOCTYPE)) { M* x = copy(k, doc, true, import); x->parent = n; n->kids.push_back(x); }
    return n;
  }
  void forget(M* m) { (void)m; }
  bool has_entref(const M* m) { if(m->type == ENTREF) return true; for(M* k : m->kids) if(has_entref(k)) return true; for(M* a : m->attrs) if(has_entref(a)) return true; return false; }
  // two attributes of one expanded name: no document, and what a copy of it is is anyone's guess
  bool confused(const M* m)
  {
    std::set<std::pair<std::string, std::string> > seen;
    for(M* a : m->attrs) if(!seen.insert(std::make_pair(a->uri, a->local.empty() ? a->name : a->local)).second) return true;
    for(M* k : m->kids) if(confused(k)) return true;
    return false;
  }
  bool under_ro(const M* m) { for(; m; m = m->parent) if(m->type == ENTREF) return true; return false; }
  void ro_clear(M* m, bool ro) { m->ro = ro || m->type == ENTREF; for(M* k : m->kids) ro_clear(k, m->ro); }
  void clone_op()
  {
    M* m = pick({ ELEM, FRAG, TEXT, ATTR, COMMENT, PI, CDATA, DOC, ENTREF, DOCTYPE }); if(!m) return;
    bool deep = c.chance(3, 4), import = c.flip(); N h;
    if(count(m) > 60 || confused(m)) return;
    if(m->type == DOC && !import)
    {
      if(!m->defaults.empty() || has_entref(m)) return;
      say(std::string(deep ? "deep" : "shallow") + " clone of " + show(m));
      h = m->h.cloneNode(deep); M* n = copy(m, 0, deep, true); n->doc = n; bind(n, h); docs.push_back(n); say("  -> " + show(n)); ++ok_ops; return;
    }
    if(m->type == DOCTYPE && !import) return;
    M* target = import ? docs[c.below(docs.size())] : m->doc;
    if(!target || (import && target != m->doc && has_entref(m))) return;
    say(std::string(deep ? "deep " : "shallow ") + (import ? "import of " : "clone of ") + show(m) + " into " + show(target));
    Codes r; if(m->type == DOC || m->type == DOCTYPE) r.insert(X::NOT_SUPPORTED_ERR);
    if(!attempt(r, false, [&] { h = import ? D(target->h).importNode(m->h, deep) : m->h.cloneNode(deep); })) return;
    M* n = copy(m, target, deep || (import && m->type == ENTREF), import); ro_clear(n, false);
    if(m->type == ATTR) n->specified = A(h).getSpecified();
    if(import && m->type == ATTR) pbt::require(n->specified, "imported attribute is not specified");
    bind(n, h); say("  -> " + show(n));
    pbt::require(h.getParentNode() == 0, "a copy has a parent");
  }
  static int count(const M* m) { int n = 1; for(M* k : m->kids) n += count(k); return n; }
};

PBT_PROPERTY(D04, "a subtree of three or more nodes is copied, and both it and its copy can change afterwards")
{
  CloneWorld w(c); w.new_doc(c.chance(1, 3)); if(c.flip()) w.new_doc(c.chance(1, 3));
  if(c.chance(1, 6))
  {
    N h = Arabica::SimpleDOM::DOMImplementation<std::string>::getDOMImplementation().createDocumentType("dt", "", "");
    M* m = w.make(DOCTYPE, 0); m->name = "dt"; w.bind(m, h); w.op_insert(w.docs.back(), m, 0, true);
  }
  c.list(2, 9, [&](int) {
    M* d = w.docs[c.below(w.docs.size())]; M* m = w.create(d, c.weighted({ 4, 4, 3, 1, 1, 1, 1, 1, 0 })); if(!m) return;
    std::vector<M*> ps; for(auto& x : w.all) if(x->doc == d && (x->type == ELEM || x->type == FRAG || x->type == DOC)) ps.push_back(x.get());
    M* p = ps[c.below(ps.size())]; Codes no; w.can_add(p, m, 0, no); if(no.empty()) w.op_insert(p, m, 0, true); });
  c.list(0, 4, [&](int) { w.op(); });
  w.verify_all();
  bool big = false; int copies = 0;
  c.list(1, 3 + 12 * c.size() / 100, [&](int i) {
    if(w.all.size() > 250) return;
    if(i == 0 || c.chance(1, 3)) { size_t b = w.all.size(); w.clone_op(); if(w.all.size() >= b + 3) big = true; if(w.all.size() > b) ++copies; }
    else if(c.flip()) w.op(); else w.tree_op();
    w.verify_all(); });
  c.nontrivial(big && copies >= 1 && w.ok_ops >= 4);
}

// ---------------------------------------------------------------- live lists
struct ListWorld : World
{
  struct L { int kind; M* root; std::string uri, name; NodeList<std::string> list; };
  std::vector<L> lists; int reads = 0, stale = 0;
  ListWorld(pbt::Ctx& c_) : World(c_) { }
  std::string title(const L& l) { return (l.kind == 0 ? "children of " : l.kind == 1 ? "elements " + l.name + " below " : "elements {" + l.uri + "}" + l.name + " below ") + show(l.root); }
  void collect(const L& l, const M* m, std::vector<M*>& r)
  {
    for(M* k : m->kids)
      if(k->type == ELEM)
      {
        bool hit = l.kind == 1 ? l.name == "*" || l.name == k->name : (l.uri == "*" || l.uri == k->uri) && (l.name == "*" || l.name == k->local);
        if(hit) r.push_back(k);
        collect(l, k, r);
      }
  }
  void obtain()
  {
    L l; l.kind = c.weighted({ 1, 3, 3 }); l.root = l.kind == 0 ? pick({ ELEM, DOC, FRAG }) : pick({ ELEM, DOC }); if(!l.root) return;
    std::string q = gen_q(); l.name = c.chance(1, 4) ? "*" : q;
    size_t at = l.name.find(':');
    if(l.kind == 2) { l.uri = c.pick({ "*", "", "urn:p", "urn:q" }); if(at != std::string::npos) l.name = l.name.substr(at + 1); if(l.name.empty()) return; }
    if(l.name.empty()) return;
    if(l.kind == 0) l.list = l.root->h.getChildNodes();
    else if(l.root->type == DOC) l.list = l.kind == 1 ? D(l.root->h).getElementsByTagName(l.name) : D(l.root->h).getElementsByTagNameNS(l.uri, l.name);
    else l.list = l.kind == 1 ? E(l.root->h).getElementsByTagName(l.name) : E(l.root->h).getElementsByTagNameNS(l.uri, l.name);
    lists.push_back(l); say("list" + std::to_string(lists.size() - 1) + " = " + title(l));
  }
  void read(L& l)
  {
    std::vector<M*> want; if(l.kind == 0) want = l.root->kids; else collect(l, l.root, want);
    ++reads; if(!want.empty()) ++stale;
    auto item = [&](size_t i) { N g = l.list.item(static_cast<unsigned>(i)); M* w = i < want.size() ? want[i] : 0;
      if(w ? g != w->h : g != 0) pbt::fail("item ", i, " of ", title(l), " (", want.size(), " nodes) is ", g == 0 ? "null" : show(find(g)), ", expected ", show(w)); };
    if(c.flip()) { size_t i = c.below(want.size() + 2); item(i); }
    pbt::require_eq(l.list.getLength(), want.size(), "length of " + title(l));
    for(size_t i = 0; i <= want.size(); ++i) item(i);
  }
};

PBT_PROPERTY(D05, "a list obtained before at least two tree changes is read with at least one node in it")
{
  ListWorld w(c); w.new_doc(false); if(c.chance(1, 4)) w.new_doc(false);
  c.list(2, 9, [&](int) {
    M* d = w.docs[c.below(w.docs.size())]; M* m = w.create(d, c.weighted({ 3, 5, 1, 1, 0, 0, 1 })); if(!m) return;
    std::vector<M*> ps; for(auto& x : w.all) if(x->doc == d && (x->type == ELEM || x->type == FRAG || x->type == DOC)) ps.push_back(x.get());
    M* p = ps[c.below(ps.size())]; Codes no; w.can_add(p, m, 0, no); if(no.empty()) w.op_insert(p, m, 0, true); });
  c.list(1, 3, [&](int) { w.obtain(); });
  int ops0 = w.ok_ops; bool nt = false;
  c.list(0, 3 + 25 * c.size() / 100, [&](int) {
    switch(c.weighted({ 5, 2, 1, 1 }))
    {
      case 0: w.tree_op(); break;
      case 1: { M* d = w.docs[c.below(w.docs.size())]; M* m = w.create(d, c.weighted({ 2, 3, 1, 0, 0, 0, 1 })); M* p = w.pick({ ELEM }); if(m && p) { Codes no; w.can_add(p, m, 0, no); if(no.empty()) w.op_insert(p, m, 0, true); } break; }
      case 2: w.obtain(); break;
      default:
      {
        M* e = w.pick({ ELEM }); if(!e || !e->hasns || e->prefix == "xml") break;
        std::string np = c.pick({ "p", "q", "", "z" }); w.say("prefix of " + w.show(e) + " := '" + np + "'"); e->h.setPrefix(np); e->prefix = np; e->name = np.empty() ? e->local : np + ":" + e->local;
      }
    }
    int s = w.stale;
    for(auto& l : w.lists) if(c.chance(2, 3)) w.read(l);
    if(w.stale > s && w.ok_ops >= ops0 + 2) nt = true; });
  for(auto& l : w.lists) w.read(l);
  c.nontrivial(nt);
}

// ---------------------------------------------------------------- traversal
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/DocumentTraversalImpl.hpp>
namespace tv = Arabica::DOM::Traversal;

struct WalkWorld : World
{
  enum R { ACCEPT, SKIP, REJECT };
  M* root = 0; unsigned long mask = 0xFFFFFFFF; std::map<std::string, R> verdict; bool filtered = false, expand = true;
  M* cur = 0;
  WalkWorld(pbt::Ctx& c_) : World(c_) { }
  R accept(const M* m) const
  {
    if(!(mask & (1ul << (m->type - 1)))) return SKIP;
    if(!filtered) return ACCEPT;
    auto f = verdict.find(m->name + (m->type == TEXT || m->type == COMMENT ? m->value : "")); return f == verdict.end() ? ACCEPT : f->second;
  }
  struct F : tv::NodeFilter<std::string>
  {
    WalkWorld* w;
    typename tv::NodeFilter<std::string>::Result acceptNode(NodeT const& node) const
    {
      typedef tv::NodeFilter<std::string> B;
      M* m = w->find(node); pbt::require(m != 0, "the filter is asked about an unknown node");
      pbt::require(w->mask & (1ul << (m->type - 1)), "the filter is asked about ", w->show(m), ", which is not to be shown");
      R r = w->accept(m); return r == ACCEPT ? B::FILTER_ACCEPT : r == SKIP ? B::FILTER_SKIP : B::FILTER_REJECT;
    }
  } filter;

  // the tree the walker shows: skipped nodes are replaced by their children,
  // rejected ones vanish; the current node and what is above it is where it is
  struct Shown { M* m; std::vector<Shown*> kids; Shown* up; };
  std::vector<std::unique_ptr<Shown> > store; std::map<M*, Shown*> shown;
  void build()
  {
    store.clear(); shown.clear();
    Shown* s = node(root, 0); (void)s; fill(root, shown[root]);
  }
  Shown* node(M* m, Shown* up) { store.emplace_back(new Shown{ m, {}, up }); shown[m] = store.back().get(); if(up) up->kids.push_back(store.back().get()); return store.back().get(); }
  void fill(M* m, Shown* into)
  {
    if(m->type == ENTREF && !expand) return;
    for(M* k : m->kids)
    {
      R r = accept(k);
      if(k == cur) r = ACCEPT; else if(r == REJECT && k->has(cur)) r = SKIP;
      if(r == ACCEPT) fill(k, node(k, into)); else if(r == SKIP) fill(k, into);
    }
  }
  M* visible(Shown* s) { return !s ? 0 : s->m == root && accept(root) != ACCEPT ? 0 : s->m; }
  void order(Shown* s, std::vector<Shown*>& o) { o.push_back(s); for(Shown* k : s->kids) order(k, o); }
  M* move(int op)
  {
    build(); Shown* s = shown[cur]; if(!s) pbt::fail("harness: current node lost");
    switch(op)
    {
      case 0: return s->m == root ? 0 : visible(s->up);
      case 1: return s->kids.empty() ? 0 : s->kids[0]->m;
      case 2: return s->kids.empty() ? 0 : s->kids.back()->m;
      case 3: case 4:
      {
        if(s->m == root) return 0;
        auto& ks = s->up->kids; size_t i = std::find(ks.begin(), ks.end(), s) - ks.begin();
        return op == 3 ? (i ? ks[i - 1]->m : 0) : i + 1 < ks.size() ? ks[i + 1]->m : 0;
      }
      default:
      {
        std::vector<Shown*> o; order(shown[root], o); size_t i = std::find(o.begin(), o.end(), s) - o.begin();
        if(op == 5) return i == 0 ? 0 : visible(o[i - 1]);
        return i + 1 < o.size() ? o[i + 1]->m : 0;
      }
    }
  }
};

PBT_PROPERTY(D06, "at least four moves that land on a node, over a tree in which something is skipped or rejected")
{
  WalkWorld w(c); w.filter.w = &w; M* d = w.new_doc(c.chance(1, 4));
  c.list(5, 16, [&](int) {
    M* m = w.create(d, c.weighted({ 6, 2, 4, 2, 1, 1, 0, d->defaults.empty() ? 0 : 2 })); if(!m) return;
    std::vector<M*> ps; for(auto& x : w.all) if(x->type == ELEM || x->type == DOC) ps.push_back(x.get());
    M* p = ps[c.below(ps.size())]; Codes no; w.can_add(p, m, 0, no); if(no.empty()) w.op_insert(p, m, 0, true); });
  w.root = c.chance(3, 4) ? d : w.pick({ ELEM, DOC }); if(!w.root) return;
  switch(c.weighted({ 2, 1, 1, 1, 2 }))
  {
    case 0: break;
    case 1: w.mask = tv::SHOW_ELEMENT; break;
    case 2: w.mask = tv::SHOW_TEXT; break;
    case 3: w.mask = tv::SHOW_ELEMENT | tv::SHOW_COMMENT; break;
    default: w.mask = 0; c.list(0, 6, [&](int) { w.mask |= 1ul << c.below(12); });
  }
  w.filtered = c.chance(3, 4); w.expand = c.chance(3, 4);
  for(auto& n : w.names) w.verdict[n] = static_cast<WalkWorld::R>(c.weighted({ 6, 2, 1 }));
  for(const char* n : { "#textx", "#textyz", "#commentx", "r", "#document", "p:a", "e", "q:b" }) w.verdict[n] = static_cast<WalkWorld::R>(c.weighted({ 6, 2, 1 }));
  std::ostringstream s; s << "walker on " << w.show(w.root) << " mask " << w.mask << " filter " << w.filtered << " expand " << w.expand; if(w.filtered) for(auto& v : w.verdict) s << " " << v.first << "=" << "ASR"[v.second]; w.say(s.str());
  tv::DocumentTraversal<std::string> dt = tv::make_document_traversal_t<std::string, Arabica::default_string_adaptor<std::string> >();
  tv::TreeWalker<std::string> tw = w.filtered ? dt.createTreeWalker(w.root->h, w.mask, w.filter, w.expand) : dt.createTreeWalker(w.root->h, w.mask, w.expand);
  w.cur = w.root;
  pbt::require(tw.getRoot() == w.root->h && tw.getCurrentNode() == w.root->h, "a new walker is not at its root");
  pbt::require_eq(tw.getWhatToShow(), w.mask, "what to show");
  static const char* const names[] = { "parentNode", "firstChild", "lastChild", "previousSibling", "nextSibling", "previousNode", "nextNode" };
  auto step = [&](int op) -> M* {
    M* want = w.move(op); N got;
    switch(op) { case 0: got = tw.parentNode(); break; case 1: got = tw.firstChild(); break; case 2: got = tw.lastChild(); break; case 3: got = tw.previousSibling(); break; case 4: got = tw.nextSibling(); break; case 5: got = tw.previousNode(); break; default: got = tw.nextNode(); }
    w.say(std::string(names[op]) + " from " + w.show(w.cur));
    if(want ? got != want->h : got != 0) pbt::fail(names[op], " from ", w.show(w.cur), " gives ", got == 0 ? "null" : w.show(w.find(got)), ", expected ", w.show(want));
    if(want) w.cur = want;
    pbt::require(tw.getCurrentNode() == w.cur->h, "current node after ", names[op], " is not ", w.show(w.cur));
    return want;
  };
  int landed = 0; bool cut = false;
  for(auto& m : w.all) if(m->h != 0 && w.root->has(m.get()) && w.accept(m.get()) != WalkWorld::ACCEPT) cut = true;
  c.list(3, 8 + 30 * c.size() / 100, [&](int) {
    int k = c.weighted({ 12, 1, 1 });
    if(k == 1) { M* m = w.pick({ ELEM, TEXT, COMMENT }); if(m && w.root->has(m)) { if(!w.expand) { for(M* x = m->parent; x; x = x->parent) if(x->type == ENTREF) return; } tw.setCurrentNode(m->h); w.cur = m; w.say("current := " + w.show(m)); } }
    else if(k == 2) { w.tree_op(); if(!w.root->has(w.cur)) { tw.setCurrentNode(w.root->h); w.cur = w.root; } }
    else if(step(c.below(7))) ++landed; });
  // and the whole way through
  tw.setCurrentNode(w.root->h); w.cur = w.root; w.say("from the root");
  size_t n = 0; while(step(6)) ++n;
  w.build(); pbt::require_eq(n, w.shown.size() - 1, "nodes visited");
  while(step(5)) { }
  c.nontrivial(landed >= 4 && cut);
}
