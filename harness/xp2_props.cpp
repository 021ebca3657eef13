// X05, X06: the XPath grammar; variables, functions, prefixes and reuse.
#include "xpworld.hpp"
#include "xptok.hpp"
using namespace xw;

static model::Opts doc_opts()
{
  model::Opts o; o.max_nodes = 22; o.max_depth = 5; o.nasty = false;
  o.texts = { "x", "1", "2", "10", " 1 ", "ab", "foo", "a b", "-1", "1.5", " ", "0", "aba" };
  return o;
}
static int pick_context(pbt::Ctx& c, const World& w)
{
  for(int k = 0; k < 5; ++k) { int i = c.below(w.x.n.size()); if(w.dom[i] != 0) return i; }
  return 0;
}
static const std::vector<std::string> keywords = { "or", "and", "div", "mod", "text", "node", "comment", "child", "self", "parent", "ancestor", "attribute", "count", "last",
  "position", "order", "android", "divide", "nodes", "text-1", "or.x", "processing-instruction", "true", "not", "_" };

static void still_works(XP& xpath, const World& w)
{
  XE e = xpath.compile_expr("count(/*) + 1");
  if(w.root.getNodeType() == NB::DOCUMENT_NODE && e.evaluateAsNumber(w.root) != 2) pbt::fail("count(/*) + 1 is ", e.evaluateAsNumber(w.root), " after a refused expression");
}
static std::string show_toks(const xt::Toks& t) { std::string r; for(auto& x : t) r += x + " "; return r; }

PBT_PROPERTY(X05, "an expression with at least 6 tokens, or a refused one with at least 2")
{
  World w; model::Opts mo = doc_opts(); mo.max_nodes = 14;
  mo.names = { c.pick(keywords), c.pick(keywords), c.pick(keywords), "a" };
  make_world(c, w, mo, false);
  xp::Eval ev(w.x); XNC nc; bind_ns(ev, nc, std_bindings());
  XP xpath; xpath.setNamespaceContext(nc);
  xp::GOpts g; g.prefixes = { "p", "q", "x" }; g.names = mo.names; g.nsaxis = false;
  g.numbers = { "0", "1", "2", "3", "10", "1.5", ".5", ".25", "2.", "007", "12.50" };
  g.strings = { "", "a", "b", "ab", "x'y", "1", "\"q\"", " ", "or", "foo", "a\nb", "(", "]", "//" };
  c.list(1, 4, [&](int) {
    int how = c.weighted({ 4, 4, 1, 1 });
    if(how == 2)
    {
      // arbitrary text must be taken or refused, nothing else
      std::string s; static const char alphabet[] = "ab1. :/*@[]()'\"$|+-=!<>,{}\t\n_\xc3\xa9#;&?~";
      c.list(0, 24, [&](int) { if(c.chance(1, 4)) s += c.pick({ "or", "and", "div", "text()", "node()", "child::", "count(", "::", "//", "..", "'x'", "$v", "last()" }); else s += alphabet[c.below(sizeof(alphabet) - 1)]; });
      c << "text " << pbt::esc(s) << "\n"; c.label("text");
      bool ok = true;
      try { xpath.compile_expr(s); } catch(const std::exception&) { ok = false; }
      try { xpath.compile_match(s); } catch(const std::exception&) { }
      try { xpath.compile_attribute_value_template(s); } catch(const std::exception&) { }
      c.label(ok ? "text taken" : "text refused");
      still_works(xpath, w);
      return;
    }
    xp::EGen eg(c, g, 3 + c.size() / 6);
    xp::EP e = eg.any(0);
    if(how == 0)
    {
      xp::Printer pr(&c);
      std::string s = pr.expr(e, 0);
      c << "expr " << s << "\n"; c.label("spelling");
      XE ex;
      try { ex = xpath.compile_expr(s); }
      catch(const std::exception& x) { pbt::fail("cannot compile ", s, ": ", x.what()); }
      int ctx = pick_context(c, w);
      xp::Ctx rc = { ctx, 1, 1 }; xp::Value r;
      if(!reference(ev, e, rc, r)) return;
      Arabica::XPath::ExecutionContext<std::string> ec; ec.setPosition(1); ec.setLast(1);
      XV v = ex.evaluate(w.dom[ctx], ec);
      if(!same(w, v, r)) pbt::fail(s, " at ", w.show(ctx), " of ", w.how, ": got ", show(w, v), " want ", show(w, r));
      if(xt::lex(s).size() >= 6) c.nontrivial();
      return;
    }
    xp::Printer pr(0);
    if(how == 3)
    {
      // attribute value template: literal text and {expressions}
      std::string s, want; int ctx = pick_context(c, w); bool blown = false;
      c.list(1, 4, [&](int) {
        switch(c.below(3))
        {
          case 0: { std::string l = c.pick({ "x", " ", "a b", "$v", "[", "'", "\"", "1" }); s += l; want += l; break; }
          case 1: { bool o = c.flip(); s += o ? "{{" : "}}"; want += o ? "{" : "}"; break; }
          default:
            { xp::EGen g2(c, g, 3 + c.size() / 10); xp::EP f = g2.any(0); xp::Ctx rc = { ctx, 1, 1 }; xp::Value r; if(!reference(ev, f, rc, r)) blown = true;
              std::string txt = pr.expr(f, 0); if(txt.find('}') != std::string::npos) { blown = true; } s += "{" + txt + "}"; want += ev.s(r); }
        }
      });
      c << "template " << pbt::esc(s) << "\n"; c.label("template");
      if(blown) return;
      XE ex;
      try { ex = xpath.compile_attribute_value_template(s); }
      catch(const std::exception& x) { pbt::fail("cannot compile attribute value template ", s, ": ", x.what()); }
      Arabica::XPath::ExecutionContext<std::string> ec; ec.setPosition(1); ec.setLast(1);
      pbt::require_eq(ex.evaluateAsString(w.dom[ctx], ec), want, "attribute value template " + s + " at " + w.show(ctx) + " of " + w.how);
      return;
    }
    // token mutations
    xt::Toks t = xt::lex(pr.expr(e, 0));
    if(t.size() > 60) t.resize(60);
    static const std::vector<std::string> pool = { "a", "*", "/", "//", ".", "..", "@", "::", "(", ")", "[", "]", ",", "|", "+", "-", "=", "!=", "<", ">=", "or", "and", "div", "mod", "child", "self",
      "1", "2.5", ".5", "'s'", "\"t\"", "$v", "text", "node", "comment", "processing-instruction", "count", "true", "concat", "p:a", "p:*", "orb", "divx", "and1", "ancestor-or-self", "position", "u:a", "nofn", "child", "attribute" };
    int muts = c.weighted({ 4, 3, 2 }) + (c.chance(1, 6) ? 0 : 1);
    for(int k = 0; k < muts && !t.empty(); ++k)
    {
      size_t at = c.below(t.size());
      switch(c.below(5))
      {
        case 0: t.erase(t.begin() + at); break;
        case 1: t.insert(t.begin() + at, c.pick(pool)); break;
        case 2: t[at] = c.pick(pool); break;
        case 3: { size_t b = c.below(t.size()); std::swap(t[at], t[b]); break; }
        default: t.insert(t.begin() + at, t[at]);
      }
    }
    if(t.empty()) return;
    std::string s = c.chance(1, 4) ? c.pick({ " ", "\n" }) : "";
    for(size_t k = 0; k < t.size(); ++k) { if(k) s += c.chance(1, 6) ? c.pick({ "  ", "\n", "\t" }) : " "; s += t[k]; }
    if(c.chance(1, 4)) s += " ";
    c << "tokens " << s << "\n";
    xt::Recogniser rec; for(auto& b : std_bindings()) rec.prefixes.insert(b.first);
    xt::Verdict verdict = rec.run(t);
    std::string err; bool threw = false, syntax = false;
    try { xpath.compile_expr(s); }
    catch(const Arabica::XPath::SyntaxException& x) { threw = true; syntax = true; err = x.what(); }
    catch(const std::exception& x) { threw = true; err = x.what(); }
    c.label(verdict == xt::ACCEPT ? "tokens valid" : verdict == xt::REJECT ? "tokens invalid" : verdict == xt::EITHER ? "tokens not judged" : "tokens unresolved");
    if(verdict == xt::ACCEPT && threw) pbt::fail("valid expression refused: ", s, ": ", err);
    if(verdict == xt::REJECT && !threw) pbt::fail("invalid expression compiled: ", s);
    if(verdict == xt::REJECT && !syntax) pbt::fail("invalid expression refused, but not as a syntax error: ", s, ": ", err);
    if(verdict == xt::UNRESOLVED && !threw) pbt::fail("expression with an unknown function or prefix, or a wrong number of arguments, compiled: ", s);
    if(threw) still_works(xpath, w);
    if(t.size() >= (verdict == xt::ACCEPT ? 6u : 2u)) c.nontrivial();
  });
}

// ------------------------------------------------------------------ X06
typedef Arabica::XPath::ExecutionContext<std::string> XEC;
typedef Arabica::DOM::Node<std::string> DN;

struct Vars : public Arabica::XPath::VariableResolver<std::string>
{
  std::map<std::pair<std::string, std::string>, XV> v;
  virtual XV resolveVariable(const std::string& ns, const std::string& name) const
  {
    auto i = v.find(std::make_pair(ns, name));
    if(i == v.end()) throw Arabica::XPath::UnboundVariableException("{" + ns + "}" + name);
    return i->second;
  }
};
struct Called { std::string name; int node; size_t pos, last; std::vector<std::string> args; };
struct Funcs;
struct Fn : public Arabica::XPath::XPathFunction<std::string>
{
  const Funcs& f; std::string name;
  Fn(const Funcs& f_, const std::string& n, const std::vector<XE>& a) : Arabica::XPath::XPathFunction<std::string>(0, -1, a), f(f_), name(n) { }
  virtual Arabica::XPath::ValueType type() const { return Arabica::XPath::STRING; }
  virtual Arabica::XPath::XPathValue_impl<std::string>* evaluate(const DN& context, const XEC& ec) const;
};
struct Funcs : public Arabica::XPath::FunctionResolver<std::string>
{
  const World& w; mutable std::vector<std::string> calls;
  Funcs(const World& w_) : w(w_) { }
  static bool known(const std::string& ns, const std::string& n) { return (ns == "urn:a" && (n == "f" || n == "g")) || (ns.empty() && n == "h") || (ns == "urn:b" && n == "f"); }
  virtual Arabica::XPath::XPathFunction<std::string>* resolveFunction(const std::string& ns, const std::string& n, const std::vector<XE>& a) const
  {
    if(known(ns, n)) return new Fn(*this, "{" + ns + "}" + n, a);
    throw Arabica::XPath::UndefinedFunctionException("{" + ns + "}" + n);
  }
  virtual std::vector<std::pair<std::string, std::string> > validNames() const { return { { "urn:a", "f" }, { "urn:a", "g" }, { "", "h" }, { "urn:b", "f" } }; }
};
Arabica::XPath::XPathValue_impl<std::string>* Fn::evaluate(const DN& context, const XEC& ec) const
{
  std::string r = name + "@" + std::to_string(f.w.id_of(context)) + "," + std::to_string(ec.position()) + "," + std::to_string(ec.last());
  for(size_t i = 0; i < argCount(); ++i) r += "|" + argAsString(i, context, ec);
  f.calls.push_back(r);
  return new Arabica::XPath::StringValue<std::string, Arabica::default_string_adaptor<std::string> >(r);
}

// puts user functions and variables into a generated expression
static void sprinkle(pbt::Ctx& c, xp::EP& e, int& fns, int depth = 0)
{
  if(!e) return;
  for(auto& x : e->a) sprinkle(c, x, fns, depth + 1);
  for(auto& x : e->bpreds) sprinkle(c, x, fns, depth + 1);
  for(auto& st : e->steps) for(auto& x : st.preds) sprinkle(c, x, fns, depth + 1);
  bool str = e->op == xp::LIT || (e->op == xp::CALL && (e->s == "string" || e->s == "concat" || e->s == "substring-before" || e->s == "normalize-space" || e->s == "name"));
  if(str && c.chance(1, 3))
  {
    std::vector<xp::EP> a; if(c.flip()) a.push_back(e); if(c.chance(1, 4)) a.push_back(xp::call("position"));
    e = xp::call(c.pick({ "p:f", "p:g", "h", "q:f" }), a); ++fns;
  }
}

static xp::Value gen_value(pbt::Ctx& c, const World& w, xp::VT t)
{
  switch(t)
  {
    case xp::V_NUM: { static const double d[] = { 0, 1, 2, -1, 1.5, NAN, INFINITY, 3 }; return xp::Value::N(d[c.below(8)]); }
    case xp::V_STR: return xp::Value::S(c.pick({ "", "a", "1", "x y", "foo" }));
    case xp::V_BOOL: return xp::Value::B(c.flip());
    default:
    {
      std::set<int> s; c.list(0, 4, [&](int) { int i = c.below(w.x.n.size()); if(w.dom[i] != 0 && w.x.n[i].kind != xp::NSN) s.insert(i); });
      xp::Value v; v.t = xp::V_NODES; v.ns.assign(s.begin(), s.end()); return v;
    }
  }
}
static XV to_engine(pbt::Ctx& c, const World& w, const xp::Value& v)
{
  using namespace Arabica::XPath; typedef Arabica::default_string_adaptor<std::string> SA;
  switch(v.t)
  {
    case xp::V_NUM: return XV(new NumericValue<std::string, SA>(v.n));
    case xp::V_STR: return XV(new StringValue<std::string, SA>(v.s));
    case xp::V_BOOL: return XV(new BoolValue<std::string, SA>(v.b));
    default:
    {
      XNS ns(true); for(int i : v.ns) ns.push_back(w.dom[i]);
      return XV(new NodeSetValue<std::string, SA>(ns));
    }
  }
}

PBT_PROPERTY(X06, "a history of at least 3 evaluations in which a variable or user function takes part")
{
  World w; make_world(c, w, doc_opts(), false);
  xp::Eval ev(w.x); XNC nc; bind_ns(ev, nc, std_bindings());
  XP xpath; xpath.setNamespaceContext(nc);
  Vars vars; Funcs funcs(w); xpath.setFunctionResolver(funcs); xpath.setVariableResolver(vars);
  static const std::vector<std::pair<std::string, xp::VT> > vn = { { "n", xp::V_NUM }, { "s", xp::V_STR }, { "b", xp::V_BOOL }, { "ns", xp::V_NODES }, { "p:n", xp::V_NUM }, { "q:n", xp::V_NUM }, { "or", xp::V_STR } };
  auto key = [&](const std::string& q) { size_t k = q.find(':'); return k == std::string::npos ? std::make_pair(std::string(), q) : std::make_pair(ev.ns[q.substr(0, k)], q.substr(k + 1)); };
  std::vector<std::string> recorded;
  ev.ext = [&](const std::string& f, const std::vector<xp::Value>& a, const xp::Ctx& k) -> xp::Value {
    auto q = key(f);
    if(!Funcs::known(q.first, q.second)) throw xp::BadType();
    std::string r = "{" + q.first + "}" + q.second + "@" + std::to_string(k.node) + "," + std::to_string(k.pos) + "," + std::to_string(k.size);
    for(auto& x : a) r += "|" + ev.s(x);
    recorded.push_back(r);
    return xp::Value::S(r);
  };
  xp::GOpts g; g.prefixes = { "p", "q", "x" }; g.vars = true; g.varnames = vn; g.max_steps = 2; g.nsaxis = false;
  struct Compiled { xp::EP e; std::string s; XE ex; int fns; };
  std::vector<Compiled> ce;
  auto assign = [&]() {
    for(auto& p : vn) { xp::Value v = gen_value(c, w, p.second); ev.vars[p.first] = v; auto k = key(p.first); vars.v.erase(k); vars.v.insert(std::make_pair(k, to_engine(c, w, v))); }
  };
  assign();
  int evals = 0; bool interesting = false;
  c.list(2, 10, [&](int) {
    switch(ce.empty() ? 0 : c.weighted({ 3, 6, 2, 1 }))
    {
      case 0:
      {
        Compiled k; xp::EGen eg(c, g, 4 + c.size() / 8); k.fns = 0;
        k.e = eg.any(0); sprinkle(c, k.e, k.fns);
        xp::Printer pr(&c); k.s = pr.expr(k.e, 0);
        c << "compile " << k.s << "\n";
        try { k.ex = xpath.compile_expr(k.s); }
        catch(const std::exception& x) { pbt::fail("cannot compile ", k.s, ": ", x.what()); }
        ce.push_back(k);
        break;
      }
      case 1:
      {
        Compiled& k = ce[c.below(ce.size())];
        int ctx = pick_context(c, w);
        xp::Ctx rc = { ctx, static_cast<int>(c.range(1, 3)), 3 }; xp::Value r;
        recorded.clear(); funcs.calls.clear();
        if(!reference(ev, k.e, rc, r)) return;
        XEC ec; ec.setPosition(rc.pos); ec.setLast(rc.size); ec.setVariableResolver(vars);
        c << "evaluate " << k.s << " at " << ctx << "\n";
        XV v = k.ex.evaluate(w.dom[ctx], ec);
        if(!same(w, v, r)) pbt::fail(k.s, " at ", w.show(ctx), " of ", w.how, ": got ", show(w, v), " want ", show(w, r));
        // the engine may skip or repeat calls, but makes none the expression does not call for
        std::set<std::string> rs(recorded.begin(), recorded.end());
        for(auto& x : funcs.calls) if(!rs.count(x)) { c.label("extra call"); }
        XE fresh = xpath.compile_expr(k.s);
        XV v2 = fresh.evaluate(w.dom[ctx], ec);
        if(!same(w, v2, r)) pbt::fail("freshly compiled ", k.s, " at ", w.show(ctx), " of ", w.how, ": got ", show(w, v2), " want ", show(w, r));
        ++evals; if(k.fns || k.s.find('$') != std::string::npos) interesting = true;
        break;
      }
      case 2: assign(); c << "assign\n"; break;
      default:
      {
        // things nobody registered
        switch(c.below(5))
        {
          case 0:
          {
            const char* s = c.pick({ "$nope + 1", "$p:s", "count($x:ns)", "string($p:or)" });
            XE ex = xpath.compile_expr(s); XEC ec; ec.setVariableResolver(vars);
            bool t = false;
            try { ex.evaluate(w.root, ec); } catch(const Arabica::XPath::UnboundVariableException&) { t = true; }
            pbt::require(t, s, " did not raise UnboundVariableException"); break;
          }
          case 1: case 2:
          {
            const char* s = c.pick({ "f()", "q:g(1)", "x:f()", "1 + nofn(2)", "/*[p:h()]", "p:count(/*)" });
            bool t = false;
            try { xpath.compile_expr(s); } catch(const Arabica::XPath::UndefinedFunctionException&) { t = true; }
            pbt::require(t, s, " did not raise UndefinedFunctionException"); break;
          }
          default:
          {
            const char* s = c.pick({ "u:a", "//u:*", "@u:a", "u:f()", "a[u:b]", "$u:n", "string(u:a)" });
            bool t = false;
            try { XE ex = xpath.compile_expr(s); XEC ec; ec.setVariableResolver(vars); ex.evaluate(w.root, ec); } catch(const Arabica::XPath::UnboundNamespacePrefixException&) { t = true; }
            pbt::require(t, s, " did not raise UnboundNamespacePrefixException");
          }
        }
      }
    }
  });
  // one-shot evaluation uses the resolvers set on the compiler
  if(!ce.empty())
  {
    Compiled& k = ce[c.below(ce.size())]; int ctx = pick_context(c, w); xp::Ctx rc = { ctx, 1, 1 }; xp::Value r;
    if(k.s.find("position") == std::string::npos && k.s.find("last") == std::string::npos && !k.fns && reference(ev, k.e, rc, r))
    {
      c << "evaluate_expr " << k.s << " at " << ctx << "\n";
      XV v = xpath.evaluate_expr(k.s, w.dom[ctx]);
      if(!same(w, v, r)) pbt::fail("evaluate_expr ", k.s, " at ", w.show(ctx), " of ", w.how, ": got ", show(w, v), " want ", show(w, r));
    }
  }
  c.nontrivial(evals >= 3 && interesting);
}
