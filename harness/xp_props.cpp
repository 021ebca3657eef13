// X01 - X04: location paths, values, node-set order, match patterns.
#include "xpworld.hpp"
#include "xppat.hpp"
using namespace xw;

static model::Opts doc_opts()
{
  model::Opts o; o.max_nodes = 26; o.max_depth = 5; o.nasty = false;
  o.texts = { "x", "1", "2", "10", " 1 ", "ab", "foo", "a b", "-1", "1.5", " ", "xyz", "\xc3\xa9", "0", "aba" };
  return o;
}
static xp::GOpts expr_opts()
{
  xp::GOpts g; g.prefixes = { "p", "q", "x" };
  return g;
}
static int pick_context(pbt::Ctx& c, const World& w)
{
  for(int k = 0; k < 5; ++k) { int i = c.below(w.x.n.size()); if(w.dom[i] != 0) return i; }
  return 0;
}

PBT_PROPERTY(X01, "the path selects a proper non-empty subset of the nodes, or uses a reverse or sideways axis on a tree of at least 6 nodes")
{
  World w; make_world(c, w, doc_opts(), true);
  xp::Eval ev(w.x); XNC nc; bind_ns(ev, nc, std_bindings());
  XP xpath; xpath.setNamespaceContext(nc);
  xp::GOpts g = expr_opts(); if(w.x.n[0].kind != xp::ROOT || w.root.getNodeType() != NB::DOCUMENT_NODE) g.abspath = false;
  bool interesting = false; int n = 0;
  c.list(1, 6, [&](int) {
    xp::EGen eg(c, g, 4 + c.size() / 5);
    xp::EP e = eg.nodeset(0);
    xp::Printer pr(&c);
    std::string s = pr.expr(e, 0);
    bool location = e->op == xp::PATH && !e->base && s[0] != '(';
    XE ex;
    try { ex = location && c.flip() ? xpath.compile(s) : xpath.compile_expr(s); }
    catch(const std::exception& x) { pbt::fail("cannot compile ", s, ": ", x.what()); }
    c.list(1, 4, [&](int) {
      int ctx = pick_context(c, w);
      xp::Ctx rc = { ctx, 1, 1 }; xp::Value r;
      if(!reference(ev, e, rc, r)) { c.label("skipped-explosive"); return; }
      c << "  " << s << "  at " << w.show(ctx) << " -> " << r.ns.size() << " nodes\n";
      Arabica::XPath::ExecutionContext<std::string> ec; ec.setPosition(1); ec.setLast(1);
      XV v = ex.evaluate(w.dom[ctx], ec);
      if(!same(w, v, r)) pbt::fail(s, " at ", w.show(ctx), " of ", w.how, ": got ", show(w, v), " want ", show(w, r));
      ++n;
      if(!r.ns.empty() && r.ns.size() < w.x.n.size()) interesting = true;
      c.label(r.ns.empty() ? "empty" : r.ns.size() == 1 ? "one" : "many");
      for(int a = 0; a < 13; ++a) if(xp::uses_axis(e, static_cast<xp::Axis>(a))) c.label(std::string("axis ") + xp::axis_names[a]);
    });
  });
  if(!n) throw pbt::Discard();
  c.nontrivial(interesting && w.x.n.size() >= 6);
}

PBT_PROPERTY(X02, "an operator or function application on a tree of at least 4 nodes")
{
  World w; make_world(c, w, doc_opts(), true);
  xp::Eval ev(w.x); XNC nc; bind_ns(ev, nc, std_bindings());
  XP xpath; xpath.setNamespaceContext(nc);
  xp::GOpts g = expr_opts(); if(w.root.getNodeType() != NB::DOCUMENT_NODE) g.abspath = false;
  g.max_steps = 2; g.nsaxis = false;
  int n = 0; bool app = false;
  c.list(1, 8, [&](int) {
    xp::EGen eg(c, g, 4 + c.size() / 6);
    xp::EP e;
    switch(c.below(3)) { case 0: e = eg.number(0); break; case 1: e = eg.string(0); break; default: e = eg.boolean(0); }
    if(c.chance(1, 4)) e = xp::call("string", { e });
    xp::Printer pr(&c);
    std::string s = pr.expr(e, 0);
    XE ex;
    try { ex = xpath.compile_expr(s); }
    catch(const std::exception& x) { pbt::fail("cannot compile ", s, ": ", x.what()); }
    int ctx = pick_context(c, w);
    xp::Ctx rc = { ctx, static_cast<int>(c.range(1, 3)), 3 }; xp::Value r;
    if(!reference(ev, e, rc, r)) return;
    c << "  " << s << "  at " << w.show(ctx) << " -> " << show(w, r) << "\n";
    Arabica::XPath::ExecutionContext<std::string> ec; ec.setPosition(rc.pos); ec.setLast(rc.size);
    XV v = ex.evaluate(w.dom[ctx], ec);
    if(!same(w, v, r)) pbt::fail(s, " at ", w.show(ctx), " of ", w.how, ": got ", show(w, v), " want ", show(w, r));
    // conversions of the result, through the value and through the expression
    pbt::require_eq(v.asBool(), ev.b(r), "boolean value of ", s);
    pbt::require_eq(v.asString(), ev.s(r), "string value of ", s);
    pbt::require(same_num(v.asNumber(), ev.n(r)), "number value of ", s, ": got ", v.asNumber(), " want ", ev.n(r));
    pbt::require_eq(ex.evaluateAsBool(w.dom[ctx], ec), ev.b(r), "evaluateAsBool of ", s);
    pbt::require_eq(ex.evaluateAsString(w.dom[ctx], ec), ev.s(r), "evaluateAsString of ", s);
    pbt::require(same_num(ex.evaluateAsNumber(w.dom[ctx], ec), ev.n(r)), "evaluateAsNumber of ", s, ": want ", ev.n(r));
    ++n; if(e->a.size()) app = true;
    if(e->op == xp::CALL) c.label(e->s); else c.label(e->op == xp::LIT || e->op == xp::NUM ? "literal" : e->op == xp::NEG ? "negation" : xp::Printer::opname(e->op));
  });
  if(!n) throw pbt::Discard();
  c.nontrivial(app && w.x.n.size() >= 4);
}

// document order as the recommendation fixes it: namespace nodes before
// attributes, the order among them is the implementation's
static bool before(const World& w, int a, int b)
{
  const xp::XN& x = w.x.n[a]; const xp::XN& y = w.x.n[b];
  return a < b && !(x.parent == y.parent && x.kind == y.kind && (x.kind == xp::ATTR || x.kind == xp::NSN));
}
static bool free_order(const World& w, int a, int b)
{
  const xp::XN& x = w.x.n[a]; const xp::XN& y = w.x.n[b];
  return a != b && x.parent == y.parent && x.kind == y.kind && (x.kind == xp::ATTR || x.kind == xp::NSN);
}

PBT_PROPERTY(X03, "a node-set of at least two nodes was checked")
{
  World w; make_world(c, w, doc_opts(), true);
  xp::Eval ev(w.x); XNC nc; bind_ns(ev, nc, std_bindings());
  XP xpath; xpath.setNamespaceContext(nc);
  xp::GOpts g = expr_opts(); if(w.root.getNodeType() != NB::DOCUMENT_NODE) g.abspath = false;
  bool many = false;
  c.list(1, 5, [&](int) {
    xp::EGen eg(c, g, 4 + c.size() / 6);
    xp::EP e = eg.nodeset(0);
    xp::Printer pr; std::string s = pr.expr(e, 0);
    XE ex = xpath.compile_expr(s);
    int ctx = pick_context(c, w);
    xp::Ctx rc = { ctx, 1, 1 }; xp::Value r;
    if(!reference(ev, e, rc, r)) return;
    c << "  " << s << "  at " << w.show(ctx) << " -> " << r.ns.size() << " nodes\n";
    XV v = ex.evaluate(w.dom[ctx]);
    XNS ns = v.asNodeSet();
    std::vector<int> got = ids(w, ns);
    std::set<int> uniq(got.begin(), got.end());
    pbt::require(uniq.size() == got.size(), s, " returned a node twice: ", w.show(got), " in ", w.how);
    pbt::require(ns.size() < 2 || ns.forward() || ns.reverse(), s, " returned an unordered set");
    for(size_t i = 1; i < got.size(); ++i)
      pbt::require(ns.reverse() ? before(w, got[i], got[i-1]) || free_order(w, got[i], got[i-1]) : before(w, got[i-1], got[i]) || free_order(w, got[i-1], got[i]),
                   s, " is out of ", ns.reverse() ? "reverse " : "", "document order: ", w.show(got), " in ", w.how);
    if(got.size() > 1) { many = true; c.label(ns.reverse() ? "reverse" : "forward"); }
    if(!got.empty())
    {
      int top = w.id_of(ns.top());
      bool is_first = top >= 0; for(int i : got) if(i != top && !before(w, top, i) && !free_order(w, top, i)) is_first = false;
      pbt::require(is_first, s, ": top() is ", w.show(top), " in ", w.show(got));
      pbt::require_eq(v.asString(), w.x.string_value(top), "string value of ", s);
      pbt::require(same_num(v.asNumber(), xp::str2num(w.x.string_value(top))), "number value of ", s);
      XNS fwd = v.asNodeSet(); fwd.to_document_order();
      std::vector<int> f = ids(w, fwd);
      for(size_t i = 1; i < f.size(); ++i) pbt::require(before(w, f[i-1], f[i]) || free_order(w, f[i-1], f[i]), s, ": to_document_order gives ", w.show(f));
      pbt::require(f.size() == got.size(), s, ": to_document_order changed the set");
    }
    else pbt::require(v.asString().empty() && !v.asBool(), "string value of an empty set");
  });
  // a hand-made set with repetitions, in any order
  XNS hand(c.flip()); std::set<int> want;
  bool fw = c.flip(); hand.forward(fw);
  c.list(0, 12, [&](int) { int i = pick_context(c, w); hand.push_back(w.dom[i]); want.insert(i); });
  if(c.flip()) { XNS two; c.list(0, 5, [&](int) { int i = pick_context(c, w); two.push_back(w.dom[i]); want.insert(i); }); hand.push_back(two); }
  hand.sort();
  std::vector<int> h = ids(w, hand);
  pbt::require(h.size() == want.size() && std::set<int>(h.begin(), h.end()) == want, "sorting a set changed its members: ", w.show(h));
  for(size_t i = 1; i < h.size(); ++i)
    pbt::require(fw ? before(w, h[i-1], h[i]) || free_order(w, h[i-1], h[i]) : before(w, h[i], h[i-1]) || free_order(w, h[i], h[i-1]), "sort() gives ", w.show(h), " in ", w.how);
  if(h.size() > 1) many = true;
  c << "  hand-made set of " << h.size() << "\n";
  // nodes of several trees of one document: a total order, trees not interleaved
  if(w.root.getNodeType() == NB::DOCUMENT_NODE && c.chance(1, 3))
  {
    std::vector<DNode> all; std::vector<int> tree; std::vector<DNode> keep;
    auto collect = [&](DNode r, int t) { std::function<void(DNode)> f = [&](DNode n) { all.push_back(n); tree.push_back(t); for(DNode k = n.getFirstChild(); k != 0; k = k.getNextSibling()) f(k); }; f(r); };
    collect(w.d, 0);
    int trees = c.range(1, 3);
    for(int t = 1; t <= trees; ++t)
    {
      DNode r;
      if(c.flip()) { r = w.d.createDocumentFragment(); r.appendChild(w.d.createElement("f")); r.appendChild(w.d.createElement("g")); }
      else { r = w.d.createElement("o"); r.appendChild(w.d.createTextNode("t")); r.appendChild(w.d.createElement("k")); }
      keep.push_back(r); collect(r, t);
    }
    std::map<const void*, int> at; for(size_t i = 0; i < all.size(); ++i) at[all[i].underlying_impl()] = i;
    XNS a, b; std::set<int> m;
    std::vector<int> order; c.list(2, 14, [&](int) { order.push_back(c.below(all.size())); });
    for(int i : order) a.push_back(all[i]);
    for(size_t i = order.size(); i-- > 0; ) b.push_back(all[order[i]]);
    a.sort(); b.sort();
    std::vector<int> ia, ib; for(auto i = a.begin(); i != a.end(); ++i) ia.push_back(at[i->underlying_impl()]); for(auto i = b.begin(); i != b.end(); ++i) ib.push_back(at[i->underlying_impl()]);
    pbt::require(ia == ib, "the order of nodes of detached trees depends on the order they were added in");
    std::set<int> closed;
    for(size_t i = 1; i < ia.size(); ++i)
    {
      int t0 = tree[ia[i-1]], t1 = tree[ia[i]];
      if(t0 == t1) pbt::require(ia[i-1] < ia[i], "detached trees: document order violated within one tree");
      else { closed.insert(t0); pbt::require(!closed.count(t1), "detached trees are interleaved"); pbt::require(t1 != 0, "the document sorts after a detached tree"); }
    }
    c.label("detached trees");
  }
  c.nontrivial(many);
}

// ---------------------------------------------------------------- patterns
PBT_PROPERTY(X04, "some but not all nodes match, and the tree has at least 6 nodes")
{
  World w; make_world(c, w, doc_opts(), false);
  xp::Eval ev(w.x); XNC nc; bind_ns(ev, nc, std_bindings());
  XP xpath; xpath.setNamespaceContext(nc);
  xp::GOpts g = expr_opts(); g.max_steps = 2; g.nsaxis = false; g.filters = false;
  bool mixed = false; int done = 0;
  c.list(1, 5, [&](int) {
    std::vector<xp::EP> alts; std::string s;
    xp::Printer pr(&c);
    c.list(1, 3, [&](int i) {
      alts.push_back(xp::gen_pattern(c, g, 3 + c.size() / 12));
      std::string one = xp::pattern_text(c, *alts.back());
      if(i) s += pr.sp() + "|" + pr.sp();
      s += one;
    });
    std::vector<Arabica::XPath::MatchExpr<std::string> > ms;
    try { ms = xpath.compile_match(s); }
    catch(const std::exception& x) { pbt::fail("cannot compile pattern ", s, ": ", x.what()); }
    pbt::require(ms.size() == alts.size(), "pattern ", s, " compiled to ", ms.size(), " alternatives");
    c << "  pattern " << s << "\n";
    int yes = 0, no = 0;
    std::vector<std::set<int> > sel(alts.size());
    bool ok = true;
    for(size_t k = 0; k < alts.size(); ++k)
    {
      pbt::require_eq(ms[k].priority(), xp::default_priority(*alts[k]), "default priority of alternative ", k, " of ", s);
      for(size_t i = 0; i < w.x.n.size() && ok; ++i)
      {
        xp::Ctx rc = { static_cast<int>(i), 1, 1 }; xp::Value r;
        ok = reference(ev, alts[k], rc, r);
        for(int j : r.ns)
        {
          // i must be an ancestor-or-self of j
          for(int q = j; q >= 0; q = w.x.n[q].parent) if(q == static_cast<int>(i)) { sel[k].insert(j); break; }
        }
        if(alts[k]->abs) break;        // the same from everywhere
      }
    }
    if(!ok) return;
    Arabica::XPath::ExecutionContext<std::string> ec;
    for(size_t i = 0; i < w.x.n.size(); ++i)
    {
      if(w.dom[i] == 0) continue;
      for(size_t k = 0; k < alts.size(); ++k)
      {
        bool got = ms[k].evaluate(w.dom[i], ec), want = sel[k].count(i);
        if(got != want) pbt::fail("alternative ", k + 1, " of pattern ", s, got ? " matches " : " does not match ", w.show(i), " of ", w.how);
        want ? ++yes : ++no;
      }
    }
    ++done; if(yes && no) mixed = true;
    c.label(yes == 0 ? "none match" : no == 0 ? "all match" : "some match");
  });
  if(!done) throw pbt::Discard();
  c.nontrivial(mixed && w.x.n.size() >= 6);
}
