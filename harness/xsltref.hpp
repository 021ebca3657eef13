// A reference XSLT 1.0 processor for the part of the language the library
// implements, with a generator of stylesheets.
#pragma once
#include "xpworld.hpp"
#include "xppat.hpp"

namespace xr {

using xp::EP; using xp::Value;
struct Blown { };                       // the reference gave up: the case is discarded
struct Stopped { };                     // xsl:message terminate="yes"

struct Part { EP e; std::string s; };
typedef std::vector<Part> AVT;
enum IK { TEXT, XTEXT, VALUEOF, FOREACH, IF, CHOOSE, VAR, APPLY, IMPORTS, CALL, COPY, COPYOF, ELEM, ATTR, COMMENT, PI, LIT, MESSAGE };
struct Ins; typedef std::shared_ptr<Ins> IP; typedef std::vector<IP> Body;
struct SortK { EP sel; AVT order, dtype; };
struct WP { std::string name; EP sel; Body body; };
struct When { EP test; Body body; };
struct LAttr { std::string prefix, local, uri; AVT v; };
struct Ins
{
  IK k; std::string s, mode; AVT name, nsa; bool has_ns = false, otherwise = false, doe = false, param = false, term = false, fresh_ns = false;
  EP e; Body body; std::vector<When> whens; std::vector<SortK> sorts; std::vector<WP> wps; std::vector<LAttr> attrs;
  std::string prefix, local, uri;
};
struct Pat { EP e; double prio = 0; std::set<int> hits; };
struct Tmpl
{
  std::vector<Pat> pats; std::string pattern, name, mode, prio; Body body;
  std::vector<int> prec; int order = 0;
};
struct KeyD { std::string name, pattern; std::vector<Pat> pats; EP use; };
struct Item { enum K { T, G, KEY, OUT, INC, IMP, ALIAS } k; int i; };
struct Global { IP var; std::vector<int> prec; bool set = false; Value value; };
struct Module { std::vector<Item> items; std::vector<int> prec; bool loaded = false; };
struct Output { std::map<std::string, std::string> at; std::vector<int> prec; int order = 0; };

struct Prog
{
  std::vector<Tmpl> tmpls; std::vector<Global> globals; std::vector<KeyD> keys; std::vector<Output> outs; std::vector<Module> mods;
  std::string xs = "xsl", defns; bool lre = false;
  std::vector<int> geval;               // evaluation order of the globals
};

inline std::string clark(const std::string& q)
{
  size_t p = q.find(':'); if(p == std::string::npos) return q;
  for(auto& b : xw::std_bindings()) if(b.first == q.substr(0, p)) return "{" + b.second + "}" + q.substr(p + 1);
  return q;
}
inline std::string uri_of(const std::string& prefix)
{ for(auto& b : xw::std_bindings()) if(b.first == prefix) return b.second; return ""; }

// ------------------------------------------------------------------ result tree
struct Out
{
  bool textonly = false; std::string buf;
  model::NodeP root; model::Node* cur = 0; int nodes = 0;
  Out(bool t = false) : textonly(t), root(new model::Node(model::FRAG)) { cur = root.get(); }
  void count() { if(++nodes > 600) throw Blown(); }
  void text(const std::string& s)
  {
    if(textonly) { buf += s; return; }
    if(s.empty()) return;
    if(!cur->kids.empty() && cur->kids.back()->kind == model::TEXT) { cur->kids.back()->value += s; return; }
    count(); cur->add(model::TEXT, s);
  }
  bool start(const std::string& p, const std::string& l, const std::string& u)
  {
    if(textonly) return false;
    count(); model::Node* n = cur->add(model::ELEM); n->prefix = p; n->local = l; n->uri = u; cur = n; return true;
  }
  void end() { cur = cur->parent; }
  void attr(const std::string& p, const std::string& l, const std::string& u, const std::string& v)
  {
    if(textonly || cur->kind != model::ELEM || !cur->kids.empty()) return;
    for(auto& a : cur->attrs) if(a.local == l && a.uri == u) { a.value = v; return; }
    model::Attr a; a.prefix = p; a.local = l; a.uri = u; a.value = v; cur->attrs.push_back(a);
  }
  void comment(std::string v)
  {
    if(textonly) return;
    size_t p; while((p = v.find("--")) != std::string::npos) v.insert(p + 1, " ");
    if(!v.empty() && v.back() == '-') v += ' ';
    count(); cur->add(model::COMMENT, v);
  }
  void pi(const std::string& t, std::string v)
  {
    if(textonly) return;
    size_t p; while((p = v.find("?>")) != std::string::npos) v.insert(p + 1, " ");
    count(); model::Node* n = cur->add(model::PI, v); n->local = t;
  }
  void copy(const model::Node& n)
  {
    switch(n.kind)
    {
      case model::TEXT: case model::CDATA: text(n.value); break;
      case model::COMMENT: comment(n.value); break;
      case model::PI: pi(n.local, n.value); break;
      case model::ELEM:
        if(!start(n.prefix, n.local, n.uri)) return;
        for(auto& a : n.attrs) attr(a.prefix, a.local, a.uri, a.value);
        for(auto& k : n.kids) copy(*k);
        end(); break;
      default: for(auto& k : n.kids) copy(*k);
    }
  }
};

// ------------------------------------------------------------------ interpreter
struct Interp
{
  Prog& p; xw::World& w; xp::Eval ev; long work = 0; int depth = 0;
  xp::Ctx cur; int rule = -1; std::string mode;
  std::map<int, std::shared_ptr<model::Node> > rtf;
  std::map<std::string, Value> globals;
  std::map<std::string, Value> external;                  // set_parameter
  std::map<std::string, std::map<std::string, std::set<int> > > keytab; bool keys_built = false;
  std::string messages; int lazy = 0; int applied = 0, chosen_user = 0, sorted = 0, copied = 0, called = 0, attrs = 0, keyed = 0, keyhits = 0;
  size_t base;
  // what a stream makes of disable-output-escaping
  bool stream = false; const Out* main_out = 0; std::set<std::string> cdata;

  Interp(Prog& p_, xw::World& w_) : p(p_), w(w_), ev(w_.x), base(w_.x.n.size())
  {
    for(auto& b : xw::std_bindings()) ev.ns[b.first] = b.second;
    ev.ext = [this](const std::string& f, const std::vector<Value>& a, const xp::Ctx&) -> Value { return ext(f, a); };
  }
  ~Interp() { w.x.n.resize(base); }

  Value ext(const std::string& f, const std::vector<Value>& a)
  {
    if(f == "current") return Value::NS(std::vector<int>(1, cur.node));
    if(f == "generate-id") { int i = a.empty() ? cur.node : a[0].ns.empty() ? -1 : a[0].ns[0]; return Value::S(i < 0 ? "" : "id" + std::to_string(i)); }
    if(f == "key")
    {
      std::set<int> r; build_keys(); ++keyed;
      auto& t = keytab[clark(a[0].s)];
      if(a[1].t == xp::V_NODES) { for(int n : a[1].ns) { auto& s = t[w.x.string_value(n)]; r.insert(s.begin(), s.end()); } }
      else { auto& s = t[ev.s(a[1])]; r = s; }
      keyhits += r.size();
      return Value::NS(std::vector<int>(r.begin(), r.end()));
    }
    if(f == "system-property") return a[0].s == p.xs + ":version" ? Value::N(1) : Value::S("");
    throw xp::BadType();
  }
  Value val(const EP& e)
  {
    ev.work = 0; ev.blown = false;
    Value v = ev.eval(e, cur);
    work += ev.work + 1;
    if(ev.blown || ev.work > 60000 || work > 400000) throw Blown();
    return v;
  }
  std::string str(const EP& e) { return ev.s(val(e)); }
  std::string avt(const AVT& a) { std::string r; for(auto& x : a) r += x.e ? str(x.e) : x.s; return r; }

  void match(std::vector<Pat>& pats)
  {
    for(auto& pt : pats)
    {
      pt.hits.clear();
      for(size_t i = 0; i < base; ++i)
      {
        if(w.x.n[i].kind == xp::NSN) continue;
        xp::Ctx s = cur; cur.node = i; cur.pos = cur.size = 1;
        Value v = val(pt.e); cur = s;
        for(int j : v.ns) for(int q = j; q >= 0; q = w.x.n[q].parent) if(q == static_cast<int>(i)) { pt.hits.insert(j); break; }
        if(pt.e->abs) break;
      }
    }
  }
  void build_keys()
  {
    if(keys_built) return;
    keys_built = true;
    xp::Ctx s = cur; std::map<std::string, Value> vs; vs.swap(ev.vars);
    for(auto& k : p.keys)
    {
      match(k.pats);
      for(size_t i = 0; i < base; ++i)
      {
        bool m = false; for(auto& pt : k.pats) m = m || pt.hits.count(i);
        if(!m) continue;
        cur.node = i; cur.pos = cur.size = 1;
        Value v = val(k.use);
        auto& t = keytab[clark(k.name)];
        if(v.t == xp::V_NODES) for(int n : v.ns) t[w.x.string_value(n)].insert(i);
        else t[ev.s(v)].insert(i);
      }
    }
    cur = s; vs.swap(ev.vars);
  }
  // post-order of the import tree: a prefix outranks its extensions
  static bool less(const std::vector<int>& a, const std::vector<int>& b)
  {
    for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i] < b[i];
    return a.size() > b.size();
  }
  static bool descends(const std::vector<int>& from, const std::vector<int>& d)
  {
    if(d.size() <= from.size()) return false;
    return std::equal(from.begin(), from.end(), d.begin());
  }
  int choose(int node, const std::string& m, const std::vector<int>* below)
  {
    int best = -1; double bp = 0;
    for(size_t t = 0; t < p.tmpls.size(); ++t)
    {
      Tmpl& x = p.tmpls[t];
      if(x.pats.empty() || clark(x.mode) != clark(m)) continue;
      if(below && !descends(*below, x.prec)) continue;
      for(auto& pt : x.pats)
      {
        if(!pt.hits.count(node)) continue;
        bool better = best < 0 || less(p.tmpls[best].prec, x.prec) ||
          (!less(x.prec, p.tmpls[best].prec) && (pt.prio > bp || (pt.prio == bp && x.order >= p.tmpls[best].order)));
        if(better) { best = t; bp = pt.prio; }
      }
    }
    return best;
  }

  typedef std::map<std::string, Value> Params;
  struct Deeper { int& d; Deeper(int& x) : d(x) { if(++d > 60) { --d; throw Blown(); } } ~Deeper() { --d; } };

  void instantiate(int t, const Params& ps, Out& o)
  {
    Deeper dp(depth);
    std::map<std::string, Value> saved; saved.swap(ev.vars);
    ev.vars = globals;
    for(auto& i : p.tmpls[t].body)
      if(i->k == VAR && i->param) { auto q = ps.find(i->s); Value v = q != ps.end() ? q->second : variable(*i); ev.vars[i->s] = v; }
    Body rest; for(auto& i : p.tmpls[t].body) if(!(i->k == VAR && i->param)) rest.push_back(i);
    run(rest, o);
    saved.swap(ev.vars);
  }
  void process(int node, const std::string& m, const Params& ps, Out& o, const std::vector<int>* below)
  {
    Deeper dp(depth); if(++work > 400000) throw Blown();
    int t = choose(node, m, below); ++applied;
    int r0 = rule; std::string m0 = mode; mode = m;
    if(t >= 0) { rule = t; ++chosen_user; instantiate(t, ps, o); }
    else
    {
      const xp::XN& n = w.x.n[node];
      if(n.kind == xp::ROOT || n.kind == xp::ELEM)
      {
        std::vector<int> k = n.kids; xp::Ctx s = cur;
        for(size_t i = 0; i < k.size(); ++i) { cur.node = k[i]; cur.pos = i + 1; cur.size = k.size(); process(k[i], m, Params(), o, 0); }
        cur = s;
      }
      else if(n.kind == xp::TEXT || n.kind == xp::ATTR) o.text(n.value);
    }
    rule = r0; mode = m0;
  }
  Value fragment(const Body& b)
  {
    if(b.empty()) return Value::S("");
    Out o; ++lazy; run(b, o); --lazy;     // variables may be evaluated late, or not at all
    xp::XN x; x.kind = xp::ROOT; x.id = w.x.n.size(); x.value = o.root->text();
    w.x.n.push_back(x);
    rtf[x.id] = std::shared_ptr<model::Node>(o.root.release());
    return Value::NS(std::vector<int>(1, x.id));
  }
  Value variable(const Ins& i)
  { if(i.e) return val(i.e); return fragment(i.body); }
  Params params(const std::vector<WP>& wps)
  { Params r; for(auto& x : wps) { Value v = x.sel ? val(x.sel) : fragment(x.body); r[clark(x.name)] = v; } return r; }

  void sort(std::vector<int>& ns, const std::vector<SortK>& ks)
  {
    if(ks.empty()) return;
    struct Key { std::string s; double n; };
    std::vector<bool> num, desc;
    for(auto& k : ks) { num.push_back(avt(k.dtype) == "number"); desc.push_back(avt(k.order) == "descending"); }
    std::vector<std::pair<int, std::vector<Key> > > v; xp::Ctx s = cur;
    for(size_t i = 0; i < ns.size(); ++i)
    {
      cur.node = ns[i]; cur.pos = i + 1; cur.size = ns.size();
      std::vector<Key> kv;
      for(auto& k : ks) { Key x; x.s = k.sel ? str(k.sel) : w.x.string_value(ns[i]); x.n = xp::str2num(x.s); kv.push_back(x); }
      v.push_back(std::make_pair(ns[i], kv));
    }
    cur = s;
    std::stable_sort(v.begin(), v.end(), [&](const std::pair<int, std::vector<Key> >& a, const std::pair<int, std::vector<Key> >& b) {
      for(size_t k = 0; k < num.size(); ++k)
      {
        int c;
        if(num[k])
        {
          bool an = std::isnan(a.second[k].n), bn = std::isnan(b.second[k].n);
          c = an || bn ? (an && bn ? 0 : an ? -1 : 1) : a.second[k].n < b.second[k].n ? -1 : a.second[k].n > b.second[k].n ? 1 : 0;
        }
        else c = a.second[k].s.compare(b.second[k].s);
        if(desc[k]) c = -c;
        if(c) return c < 0;
      }
      return false; });
    std::vector<int> r; for(auto& x : v) r.push_back(x.first);
    if(r != ns) ++sorted;
    ns = r;
  }
  void copy_node(int i, Out& o)
  {
    auto f = rtf.find(i);
    if(f != rtf.end()) { o.copy(*f->second); return; }
    const xp::XN& n = w.x.n[i];
    switch(n.kind)
    {
      case xp::ROOT: { std::vector<int> k = n.kids; for(int j : k) copy_node(j, o); break; }
      case xp::ELEM:
        if(!o.start(n.prefix, n.local, n.uri)) return;
        for(int a : n.attrs) copy_node(a, o);
        for(int j : n.kids) copy_node(j, o);
        o.end(); break;
      case xp::ATTR: o.attr(n.prefix, n.local, n.uri, n.value); break;
      case xp::TEXT: o.text(n.value); break;
      case xp::COMMENT: o.comment(n.value); break;
      case xp::PI: o.pi(n.local, n.value); break;
      default: break;
    }
  }
  void run(const Body& b, Out& o)
  {
    std::map<std::string, Value> saved = ev.vars;
    for(auto& i : b) step(*i, o);
    saved.swap(ev.vars);
  }
  void qname(const Ins& i, bool elem, std::string& pre, std::string& loc, std::string& uri)
  {
    std::string q = avt(i.name); size_t c = q.find(':');
    pre = c == std::string::npos ? "" : q.substr(0, c); loc = c == std::string::npos ? q : q.substr(c + 1);
    if(i.has_ns) { uri = avt(i.nsa); return; }
    if(pre.empty()) uri = elem ? p.defns : ""; else uri = uri_of(pre);
  }
  std::string raw(const Ins& i, const std::string& s, Out& o)
  {
    if(!i.doe || !stream || &o != main_out) return s;
    if(o.cur->kind == model::ELEM && cdata.count("{" + o.cur->uri + "}" + o.cur->local)) return s;
    if(s == "&#65;") return "A"; if(s == "&lt;") return "<"; if(s == "x&amp;y") return "x&y";
    if(s.find_first_of("<>&\r") != std::string::npos) throw Blown();
    return s;
  }
  void step(const Ins& i, Out& o)
  {
    if(++work > 400000) throw Blown();
    Deeper dp(depth);
    switch(i.k)
    {
      case TEXT: case XTEXT: o.text(raw(i, i.s, o)); break;
      case VALUEOF: o.text(raw(i, str(i.e), o)); break;
      case FOREACH: case APPLY:
      {
        std::vector<int> ns;
        if(i.e) { Value v = val(i.e); if(v.t != xp::V_NODES) throw xp::BadType(); ns = v.ns; } else ns = w.x.n[cur.node].kids;
        sort(ns, i.sorts);
        xp::Ctx s = cur; Params ps = params(i.wps);
        for(size_t k = 0; k < ns.size(); ++k)
        {
          cur.node = ns[k]; cur.pos = k + 1; cur.size = ns.size();
          if(i.k == FOREACH) run(i.body, o); else process(ns[k], i.mode, ps, o, 0);
        }
        cur = s; break;
      }
      case IF: if(ev.b(val(i.e))) run(i.body, o); break;
      case CHOOSE:
        for(auto& x : i.whens) if(ev.b(val(x.test))) { run(x.body, o); return; }
        if(i.otherwise) run(i.body, o);
        break;
      case VAR: { Value v = variable(i); ev.vars[i.s] = v; break; }
      case IMPORTS: if(rule >= 0) process(cur.node, mode, Params(), o, &p.tmpls[rule].prec); break;
      case CALL:
      {
        Params ps = params(i.wps); int best = -1;
        for(size_t t = 0; t < p.tmpls.size(); ++t)
          if(!p.tmpls[t].name.empty() && clark(p.tmpls[t].name) == clark(i.s) && (best < 0 || less(p.tmpls[best].prec, p.tmpls[t].prec))) best = t;
        ++called;
        if(best < 0) throw Blown();
        instantiate(best, ps, o); break;
      }
      case COPY:
      {
        const xp::XN n = w.x.n[cur.node]; ++copied;
        if(n.kind == xp::ROOT) run(i.body, o);
        else if(n.kind == xp::ELEM) { if(o.start(n.prefix, n.local, n.uri)) { run(i.body, o); o.end(); } }
        else copy_node(cur.node, o);
        break;
      }
      case COPYOF:
      {
        Value v = val(i.e); ++copied;
        if(v.t != xp::V_NODES) { o.text(ev.s(v)); break; }
        for(int n : v.ns) copy_node(n, o);
        break;
      }
      case ELEM: { std::string a, b, u; qname(i, true, a, b, u); if(o.start(a, b, u)) { run(i.body, o); o.end(); } break; }
      case ATTR: { std::string a, b, u; qname(i, false, a, b, u); Out t(true); run(i.body, t); o.attr(a, b, u, t.buf); ++attrs; break; }
      case COMMENT: { Out t(true); run(i.body, t); o.comment(t.buf); break; }
      case PI: { std::string n = avt(i.name); Out t(true); run(i.body, t); o.pi(n, t.buf); break; }
      case LIT:
        if(!o.start(i.prefix, i.local, i.uri)) break;
        for(auto& a : i.attrs) o.attr(a.prefix, a.local, a.uri, avt(a.v));
        run(i.body, o); o.end(); break;
      case MESSAGE: { Out t; run(i.body, t); messages += t.root->text() + "\n"; if(i.term) { if(lazy) throw Blown(); throw Stopped(); } break; }
    }
  }
  // the result of applying the stylesheet to a node
  model::NodeP execute(int node)
  {
    Out o; cur.node = node; cur.pos = cur.size = 1;
    ev.vars.clear(); globals.clear(); rule = -1; mode = ""; lazy = 0;
    for(auto& t : p.tmpls) match(t.pats);
    for(int g : p.geval)
    {
      Global& x = p.globals[g]; bool beaten = false;
      for(auto& y : p.globals) if(&y != &x && y.var->s == x.var->s && less(x.prec, y.prec)) beaten = true;
      if(beaten) continue;
      ev.vars = globals;
      auto s = external.find(x.var->s);
      globals[x.var->s] = x.var->param && s != external.end() ? s->second : variable(*x.var);
    }
    ev.vars.clear(); main_out = &o;
    process(node, "", Params(), o, 0);
    return std::move(o.root);
  }
};

// ------------------------------------------------------------------ rendering
struct Render
{
  pbt::Ctx& c; Prog& p; xp::Printer pr;
  Render(pbt::Ctx& c_, Prog& p_) : c(c_), p(p_), pr(&c_) { }
  model::NodeP xsl(const std::string& n)
  { model::NodeP e(new model::Node(model::ELEM)); e->prefix = p.xs; e->local = n; return e; }
  static void at(model::Node& n, const std::string& l, const std::string& v, const std::string& pre = "")
  { model::Attr a; a.prefix = pre; a.local = l; a.value = v; n.attrs.push_back(a); }
  std::string expr(const EP& e) { return pr.expr(e, 0); }
  std::string avt(const AVT& a)
  {
    std::string r;
    for(auto& x : a)
      if(x.e) { std::string s = xp::Printer().expr(x.e, 0); r += "{" + s + "}"; }
      else for(char ch : x.s) { r += ch; if(ch == '{' || ch == '}') r += ch; }
    return r;
  }
  void space(model::Node& n) { if(c.chance(1, 8)) { n.add(model::TEXT, c.pick({ "\n", "  ", "\n\t " })); if(c.chance(1, 3)) { n.add(model::COMMENT, "x"); if(c.flip()) n.add(model::TEXT, "\n"); } } }
  void body(model::Node& n, const Body& b)
  {
    bool text = false;
    if(b.empty()) return;
    for(auto& i : b)
    {
      if(i->k == TEXT) { n.add(c.chance(1, 6) && i->s.find("]]>") == std::string::npos && i->s.find('\r') == std::string::npos ? model::CDATA : model::TEXT, i->s); text = true; continue; }
      if(!text) space(n);
      text = false;
      n.add(ins(*i));
    }
    if(!text) space(n);
  }
  void sorts(model::Node& n, const std::vector<SortK>& ks)
  {
    for(auto& k : ks)
    {
      model::NodeP s = xsl("sort");
      if(k.sel) at(*s, "select", expr(k.sel));
      if(!k.order.empty()) at(*s, "order", avt(k.order));
      if(!k.dtype.empty()) at(*s, "data-type", avt(k.dtype));
      space(n); n.add(std::move(s));
    }
  }
  void withs(model::Node& n, const std::vector<WP>& ws)
  {
    for(auto& x : ws)
    {
      model::NodeP s = xsl("with-param"); at(*s, "name", x.name);
      if(x.sel) at(*s, "select", expr(x.sel)); else body(*s, x.body);
      space(n); n.add(std::move(s));
    }
  }
  model::NodeP ins(const Ins& i)
  {
    model::NodeP n;
    switch(i.k)
    {
      case XTEXT: n = xsl("text"); if(!i.s.empty()) n->add(model::TEXT, i.s); if(i.doe || c.chance(1, 12)) at(*n, "disable-output-escaping", i.doe ? "yes" : "no"); break;
      case VALUEOF: n = xsl("value-of"); at(*n, "select", expr(i.e)); if(i.doe || c.chance(1, 20)) at(*n, "disable-output-escaping", i.doe ? "yes" : "no"); break;
      case FOREACH: n = xsl("for-each"); at(*n, "select", expr(i.e)); sorts(*n, i.sorts); body(*n, i.body); break;
      case APPLY: n = xsl("apply-templates"); if(i.e) at(*n, "select", expr(i.e)); if(!i.mode.empty()) at(*n, "mode", i.mode);
        if(c.flip()) { sorts(*n, i.sorts); withs(*n, i.wps); } else { withs(*n, i.wps); sorts(*n, i.sorts); } break;
      case IF: n = xsl("if"); at(*n, "test", expr(i.e)); body(*n, i.body); break;
      case CHOOSE:
        n = xsl("choose");
        for(auto& x : i.whens) { space(*n); model::NodeP q = xsl("when"); at(*q, "test", expr(x.test)); body(*q, x.body); n->add(std::move(q)); }
        if(i.otherwise) { space(*n); model::NodeP q = xsl("otherwise"); body(*q, i.body); n->add(std::move(q)); }
        space(*n); break;
      case VAR: n = xsl(i.param ? "param" : "variable"); at(*n, "name", i.s); if(i.e) at(*n, "select", expr(i.e)); else body(*n, i.body); break;
      case IMPORTS: n = xsl("apply-imports"); break;
      case CALL: n = xsl("call-template"); at(*n, "name", i.s); withs(*n, i.wps); break;
      case COPY: n = xsl("copy"); body(*n, i.body); break;
      case COPYOF: n = xsl("copy-of"); at(*n, "select", expr(i.e)); break;
      case ELEM: case ATTR: n = xsl(i.k == ELEM ? "element" : "attribute"); at(*n, "name", avt(i.name)); if(i.has_ns) at(*n, "namespace", avt(i.nsa)); body(*n, i.body); break;
      case COMMENT: n = xsl("comment"); body(*n, i.body); break;
      case PI: n = xsl("processing-instruction"); at(*n, "name", avt(i.name)); body(*n, i.body); break;
      case MESSAGE: n = xsl("message"); if(i.term) at(*n, "terminate", "yes"); else if(c.chance(1, 4)) at(*n, "terminate", "no"); body(*n, i.body); break;
      case LIT:
        n.reset(new model::Node(model::ELEM)); n->prefix = i.prefix; n->local = i.local;
        if(i.fresh_ns) n->ns.push_back(std::make_pair(i.prefix, i.uri));
        for(auto& a : i.attrs) at(*n, a.local, avt(a.v), a.prefix);
        body(*n, i.body); break;
      default: pbt::fail("harness: cannot render instruction");
    }
    return n;
  }
  void root_ns(model::Node& n)
  {
    n.ns.push_back(std::make_pair(p.xs, std::string("http://www.w3.org/1999/XSL/Transform")));
    for(auto& b : xw::std_bindings()) if(b.first != "xml") n.ns.push_back(b);
    if(!p.defns.empty()) n.ns.push_back(std::make_pair(std::string(), p.defns));
  }
  // href(m): the spelling of a reference to module m
  model::NodeP module(int m, const std::function<std::string(int)>& href)
  {
    model::NodeP d(new model::Node(model::DOC));
    if(p.lre)
    {
      model::NodeP n = ins(*p.tmpls[0].body[0]); root_ns(*n); at(*n, "version", "1.0", p.xs);
      d->add(std::move(n)); return d;
    }
    model::NodeP r = xsl(c.chance(1, 4) ? "transform" : "stylesheet"); at(*r, "version", "1.0"); root_ns(*r);
    if(c.chance(1, 10)) at(*r, "exclude-result-prefixes", p.xs);
    for(auto& it : p.mods[m].items)
    {
      if(c.chance(1, 10)) r->add(model::TEXT, "\n");
      if(c.chance(1, 30)) r->add(model::COMMENT, "x");
      switch(it.k)
      {
        case Item::T:
        {
          Tmpl& t = p.tmpls[it.i]; model::NodeP n = xsl("template");
          if(!t.pattern.empty()) at(*n, "match", t.pattern);
          if(!t.name.empty()) at(*n, "name", t.name);
          if(!t.mode.empty()) at(*n, "mode", t.mode);
          if(!t.prio.empty()) at(*n, "priority", t.prio);
          body(*n, t.body); r->add(std::move(n)); break;
        }
        case Item::G: r->add(ins(*p.globals[it.i].var)); break;
        case Item::KEY: { KeyD& k = p.keys[it.i]; model::NodeP n = xsl("key"); at(*n, "name", k.name); at(*n, "match", k.pattern); at(*n, "use", expr(k.use)); r->add(std::move(n)); break; }
        case Item::OUT: { model::NodeP n = xsl("output"); for(auto& a : p.outs[it.i].at) at(*n, a.first, a.second); r->add(std::move(n)); break; }
        case Item::INC: case Item::IMP: { model::NodeP n = xsl(it.k == Item::INC ? "include" : "import"); at(*n, "href", href(it.i)); r->add(std::move(n)); break; }
        default: break;
      }
    }
    d->add(std::move(r));
    return d;
  }
};

// ------------------------------------------------------------------ generator
struct Opt
{
  int max_tmpls = 6, body_depth = 3, expr_budget = 4;
  bool outputs = false;
  bool imports = false, modes = true, globals = true, keys = false, sorts = true, attrs = true, messages = false, nasty = false, trace = false, terminate = false;
  std::vector<std::string> names = { "a", "b", "c", "d", "item" };
};

struct Gen
{
  pbt::Ctx& c; const Opt& o; Prog& p;
  xp::GOpts g;
  std::vector<std::pair<std::string, xp::VT> > scope, gscope;     // usable variables; "r" names are fragments
  std::vector<std::string> local;                                  // names that may not be declared again
  std::vector<std::string> callable, modes;
  int budget; bool in_rule = true; bool big = false;

  Gen(pbt::Ctx& c_, const Opt& o_, Prog& p_) : c(c_), o(o_), p(p_), budget(10 + c_.size())
  {
    g.prefixes = { "p", "q", "x" }; g.names = o.names; g.nsaxis = false; g.max_steps = 3; g.vars = true;
    g.extra_bool = [](xp::EGen& e, int d) {
      EP x = e.nodeset(d + 2), y = e.nodeset(d + 2);
      return xp::bin(e.c.flip() ? xp::EQ : xp::NE, xp::call("generate-id", { x }), xp::call("generate-id", { y })); };
    g.extra_nodes = [this](xp::EGen& e, int d) -> EP {
      if(!p.keys.empty() && e.c.chance(2, 3)) { EP k = xp::lit(e.c.pick(p.keys).name); EP v = e.c.chance(1, 3) ? e.any(d + 2) : e.c.flip() ? e.nodeset(d + 2) : e.string(d + 2); return xp::call("key", { k, v }); }
      return xp::call("current"); };
    modes = { "", "m", "n" };
    if(c.chance(1, 4)) { modes.push_back("p:m"); modes.push_back("q:m"); }
  }
  xp::EGen eg() { g.varnames = scope; return xp::EGen(c, g, o.expr_budget + c.size() / 16); }
  EP any() { auto e = eg(); return e.any(0); }
  EP nodes() { auto e = eg(); return c.chance(1, 8) ? e.nodeset(0) : e.path(0); }
  EP str() { auto e = eg(); return c.chance(1, 3) ? e.string(0) : c.chance(1, 2) ? e.nodeset(0) : e.any(0); }
  EP boolean() { auto e = eg(); return c.chance(1, 4) ? e.any(0) : e.boolean(0); }
  EP here() { EP e = xp::mk(xp::PATH); xp::Step s; s.ax = xp::AX_SELF; s.tk = xp::T_NODE; e->steps.push_back(s); return e; }
  // children or descendants, so that processing tends to end
  EP down()
  {
    if(c.chance(1, 8)) return nodes();
    EP e = xp::mk(xp::PATH); auto x = eg();
    if(c.chance(1, 3)) { xp::Step d; d.ax = xp::AX_CHILD; d.tk = xp::T_STAR; e->steps.push_back(d); }
    xp::Step s = x.step(1, false);
    s.ax = c.pick(std::vector<xp::Axis>{ xp::AX_CHILD, xp::AX_CHILD, xp::AX_CHILD, xp::AX_DESC, xp::AX_ATTR });
    if(c.chance(1, 3)) { s.tk = xp::T_NODE; s.preds.clear(); }
    e->steps.push_back(s);
    if(c.chance(1, 4)) { EP f = xp::mk(xp::PATH); xp::Step a; a.ax = xp::AX_ATTR; a.tk = xp::T_STAR; f->steps.push_back(a); return xp::bin(xp::UNION, f, e); }
    return e;
  }
  std::string plain()
  {
    if(o.nasty) { model::Opts m; std::string s = model::gen_chars(c, m, 4, false); std::string r; for(char ch : s) if(ch != '\r' || true) r += ch; return r; }
    return c.pick({ "x", "y", "1", "foo", "a b", "-", "t" });
  }
  AVT avt(bool empty_ok = true)
  {
    AVT a;
    c.list(empty_ok ? 0 : 1, 3, [&](int) { Part x; if(c.flip()) x.s = c.chance(1, 5) ? c.pick({ "{", "}", "{}" }) : plain(); else x.e = c.flip() ? str() : any();
      if(x.e && xp::Printer().expr(x.e, 0).find('}') != std::string::npos) { x.e = xp::call("position"); }
      a.push_back(x); });
    return a;
  }
  static AVT fixed(const std::string& s) { AVT a; Part x; x.s = s; a.push_back(x); return a; }
  AVT name(bool elem)
  {
    AVT a = fixed(c.pick(std::vector<std::string>{ "a", "b", "e", "f", "item" }));
    if(c.chance(1, 4)) { Part x; x.e = c.flip() ? xp::call("position") : xp::call("last"); a.push_back(x); }
    else if(c.chance(1, 8)) { Part x; x.e = xp::call("local-name", { c.chance(1, 2) ? nodes() : here() }); a.push_back(x); }
    if(c.chance(1, 4)) a.insert(a.begin(), fixed(std::string(c.pick({ "p", "q", "x" })) + ":")[0]);
    (void)elem;
    return a;
  }
  IP mk(IK k) { IP i(new Ins); i->k = k; --budget; return i; }
  std::string fresh(char t)
  {
    for(int n = 0; ; ++n) { std::string s = std::string(1, t) + std::to_string(n); if(std::find(local.begin(), local.end(), s) == local.end()) return s; }
  }
  void declare(const std::string& n, char t)
  {
    xp::VT v = t == 'k' ? xp::V_NODES : t == 'n' ? xp::V_NUM : t == 'b' ? xp::V_BOOL : xp::V_STR;
    for(size_t i = 0; i < scope.size(); ++i) if(scope[i].first == n) scope.erase(scope.begin() + i--);
    scope.push_back(std::make_pair(n, v)); local.push_back(n);
  }
  void value(char t, EP& e, Body& b, int depth)
  {
    auto x = eg();
    switch(t)
    {
      case 'k': e = c.chance(1, 3) ? nodes() : x.nodeset(0); break;
      case 'n': e = x.number(0); break;
      case 'b': e = x.boolean(0); break;
      case 's': e = x.string(0); break;
      default: { bool r = in_rule; in_rule = in_rule && depth > 0; b = body(depth + 1, 0, 3); in_rule = r; }
    }
  }
  IP var(int depth, bool param)
  {
    char t = c.pick(std::vector<char>{ 's', 'n', 'b', 'k', 'r' });
    IP i = mk(VAR); i->param = param; i->s = fresh(t);
    value(t, i->e, i->body, depth);
    declare(i->s, t);
    return i;
  }
  std::vector<SortK> sorts()
  {
    std::vector<SortK> r;
    if(!o.sorts || !c.chance(1, 3)) return r;
    c.list(1, c.chance(1, 3) ? 5 : 3, [&](int) {
      SortK k; if(c.chance(2, 3)) k.sel = c.chance(1, 3) ? any() : str();
      if(c.chance(1, 3)) k.sel = c.chance(1, 3) ? xp::lit("k") : c.flip() ? xp::call("substring", { xp::call("name"), xp::numlit("1"), xp::numlit("1") }) : xp::call("boolean", { down() });   // keys which leave much to the next
      if(c.flip()) k.order = fixed(c.flip() ? "ascending" : "descending");
      if(c.flip()) k.dtype = fixed(c.flip() ? "number" : "text");
      if(c.chance(1, 6)) { k.order.clear(); Part x; x.e = xp::call("substring", { xp::lit("ascendingxdescending"), xp::numlit(c.flip() ? "1" : "11"), xp::numlit("10") }); x.e->a[2] = xp::numlit(x.e->a[1]->s == "1" ? "9" : "10"); k.order.push_back(x); }
      r.push_back(k); });
    return r;
  }
  std::vector<WP> withs(int depth)
  {
    std::vector<WP> r; if(!c.chance(1, 3)) return r;
    std::set<std::string> seen;
    c.list(1, 2, [&](int) {
      char t = c.pick(std::vector<char>{ 's', 'n', 'b', 'k', 'r' }); WP x; x.name = std::string(1, t) + std::to_string(c.below(2));
      if(!seen.insert(x.name).second) return;
      value(t, x.sel, x.body, depth + 1); r.push_back(x); });
    return r;
  }
  Body body(int depth, int lo, int hi)
  {
    Body b; auto s0 = scope; auto l0 = local; bool last_text = false;
    c.list(lo, std::max(lo, budget <= 0 ? lo : hi), [&](int) { IP i = ins(depth, last_text); last_text = i->k == TEXT; b.push_back(i); });
    scope = s0; local = l0;
    return b;
  }
  Body content(int depth)
  {
    Body b; auto s0 = scope; auto l0 = local;
    if(o.attrs && c.chance(1, 4)) c.list(1, 2, [&](int) { b.push_back(attribute(depth)); });
    Body r = body(depth, 0, 3); b.insert(b.end(), r.begin(), r.end());
    scope = s0; local = l0;
    return b;
  }
  IP attribute(int depth)
  {
    IP i = mk(ATTR); i->name = name(false);
    if(c.chance(1, 5)) { i->has_ns = true; i->nsa = fixed(c.pick({ "urn:a", "urn:b", "urn:new" })); }
    i->body = body(depth + 1, 0, 2); return i;
  }
  // look a key up and show what came back
  EP keycall()
  {
    std::string k = c.pick(p.keys).name;
    EP v; auto e = eg(); int w = c.weighted({ 3, 3, 2, 2, 2 });
    if(w == 0) v = e.nodeset(0);
    else if(w == 1) v = xp::lit(c.pick({ "x", "1", "2", "10", "ab", "", "foo", "true", "0", "b", "a", "-1", "1.5" }));
    else if(w == 2) v = e.any(0);
    else if(w == 3) v = xp::numlit(c.pick({ "1", "2", "10", "0", "1.5" }));
    else { v = xp::mk(xp::PATH); v->abs = true; xp::Step d; d.ax = xp::AX_DESCS; d.tk = xp::T_NODE; v->steps.push_back(d); xp::Step s; s.ax = c.flip() ? xp::AX_ATTR : xp::AX_CHILD; s.tk = s.ax == xp::AX_CHILD && c.flip() ? xp::T_TEXT : xp::T_STAR; v->steps.push_back(s); }
    return xp::call("key", { xp::lit(k), v });
  }
  IP keyprobe()
  {
    IP f = mk(FOREACH); f->e = keycall();
    if(c.chance(1, 4)) f->e = xp::bin(xp::UNION, f->e, c.flip() ? keycall() : nodes());
    IP l = mk(LIT); l->local = "hit"; l->uri = p.defns;
    auto at = [&](const char* n, EP e) { LAttr a; a.local = n; Part x; x.e = e; a.v.push_back(x); l->attrs.push_back(a); };
    auto axis = [&](xp::Axis ax) { EP e = xp::mk(xp::PATH); xp::Step s; s.ax = ax; s.tk = xp::T_NODE; e->steps.push_back(s); return e; };
    at("n", xp::call("name")); at("v", here()); at("p", xp::call("position")); at("l", xp::call("last"));
    at("i", xp::call("count", { xp::bin(xp::UNION, axis(xp::AX_PREC), axis(xp::AX_ANC)) }));
    f->body.push_back(l);
    if(c.chance(1, 3)) { IP q = mk(VALUEOF); q->e = xp::call("count", { keycall() }); l->body.push_back(q); }
    return f;
  }
  IP ins(int depth, bool after_text)
  {
    if(!p.keys.empty() && c.chance(1, 3)) return keyprobe();
    bool deep = depth >= o.body_depth || budget <= 0;
    int d = deep ? 0 : 1;
    switch(c.weighted({ after_text ? 0 : 3, 2, 6, 3 * d, 3 * d, 2 * d, 3, 5, in_rule && o.imports ? 3 : 0, callable.empty() ? 0 : 2, 2 * d, 3, 2 * d, o.attrs ? 2 * d : 0, 1 * d, 1 * d, 6 * d, o.messages ? d : 0 }))
    {
      case 0: { IP i = mk(TEXT); do i->s = plain(); while(i->s.find_first_not_of(" \t\n\r") == std::string::npos && (i->s = "z", false)); return i; }
      case 1: { IP i = mk(XTEXT); i->s = c.chance(1, 3) ? c.pick({ " ", "", "\n" }) : plain(); if(o.nasty && c.chance(1, 6)) { i->doe = true; i->s = c.pick({ "\"", "'", "&#65;", "&lt;", "x&amp;y", "plain", " " }); } return i; }
      case 3: { IP i = mk(FOREACH); i->e = c.chance(1, 3) ? nodes() : down(); i->sorts = sorts(); bool r = in_rule; in_rule = false; i->body = body(depth + 1, 1, 3); in_rule = r; return i; }
      case 4: { IP i = mk(IF); i->e = boolean(); i->body = body(depth + 1, 0, 3); return i; }
      case 5:
      {
        IP i = mk(CHOOSE);
        c.list(1, 3, [&](int) { When x; x.test = boolean(); x.body = body(depth + 1, 0, 2); i->whens.push_back(x); });
        if(c.flip()) { i->otherwise = true; i->body = body(depth + 1, 0, 2); }
        return i;
      }
      case 6: return var(depth, false);
      case 7: { IP i = mk(APPLY); if(c.chance(2, 3)) i->e = down(); if(o.modes && c.chance(1, 3)) i->mode = c.pick(modes); i->sorts = sorts(); i->wps = withs(depth); return i; }
      case 8: return mk(IMPORTS);
      case 9: { IP i = mk(CALL); i->s = c.pick(callable); i->wps = withs(depth); return i; }
      case 10: { IP i = mk(COPY); i->body = content(depth + 1); return i; }
      case 11: { IP i = mk(COPYOF); i->e = any(); if(c.flip()) i->e = nodes();
        std::vector<std::string> rs; for(auto& v : scope) if(v.first[0] == 'r') rs.push_back(v.first);
        if(!rs.empty() && c.flip()) { i->e = xp::mk(xp::VAR); i->e->s = c.pick(rs); } return i; }
      case 12: { IP i = mk(ELEM); i->name = name(true); if(c.chance(1, 4)) { i->has_ns = true; i->nsa = fixed(c.pick({ "urn:a", "urn:b", "urn:new" })); } i->body = content(depth + 1); return i; }
      case 13: return attribute(depth);
      case 14: { IP i = mk(COMMENT); i->body = body(depth + 1, 0, 2); return i; }
      case 15: { IP i = mk(PI); i->name = fixed(c.pick({ "pi", "php", "t" })); if(c.chance(1, 4)) { Part x; x.e = xp::call("position"); i->name.push_back(x); } i->body = body(depth + 1, 0, 2); return i; }
      case 16: return literal(depth);
      case 17: { IP i = mk(MESSAGE); i->body = body(depth + 1, 0, 2); if(o.terminate && c.chance(1, 3)) i->term = true; return i; }
      default: { IP i = mk(VALUEOF); i->e = str(); if(o.nasty && c.chance(1, 10)) i->doe = true; return i; }
    }
  }
  IP literal(int depth)
  {
    IP i = mk(LIT); i->local = c.pick(std::vector<std::string>{ "a", "b", "out", "row", "item" });
    if(c.chance(1, 4)) { i->prefix = c.pick({ "p", "q", "x" }); i->uri = uri_of(i->prefix); }
    else if(c.chance(1, 12)) { i->prefix = "z"; i->uri = "urn:z"; i->fresh_ns = true; }
    else i->uri = p.defns;
    std::set<std::string> seen;
    if(c.chance(1, 3)) c.list(1, 3, [&](int) {
      LAttr a; a.local = c.pick(std::vector<std::string>{ "a", "b", "id", "select", "name", "x1" }); if(c.chance(1, 5)) { a.prefix = c.pick({ "p", "q", "x" }); a.uri = uri_of(a.prefix); }
      if(!seen.insert(a.uri + "|" + a.local).second) return;
      a.v = avt(); i->attrs.push_back(a); });
    i->body = content(depth + 1);
    return i;
  }
  void patterns(std::string& text, std::vector<Pat>& pats)
  {
    auto v = g.varnames; g.varnames.clear(); auto xn = g.extra_nodes; auto xb = g.extra_bool; g.extra_nodes = nullptr; g.extra_bool = nullptr;
    int ms = g.max_steps; g.max_steps = 2; bool fl = g.filters; g.filters = false;
    c.list(1, 2, [&](int k) {
      Pat x;
      int w = c.weighted({ 6, 4, 1 });
      if(w == 0)
      { x.e = xp::mk(xp::PATH); xp::Step s; int t = c.weighted({ 10, 5, 2, 3, 2, 1, 1 });
        s.tk = static_cast<xp::TK>(t); if(t == 6) s.tk = xp::T_PILIT;
        if(s.tk == xp::T_NAME) { s.local = c.pick(o.names); if(c.chance(1, 5)) s.prefix = c.pick(g.prefixes); }
        if(s.tk == xp::T_NSSTAR) s.prefix = c.pick(g.prefixes); if(s.tk == xp::T_PILIT) s.local = "pi";
        if(c.chance(1, 5)) s.ax = xp::AX_ATTR;
        x.e->steps.push_back(s); }
      else if(w == 1) x.e = xp::gen_pattern(c, g, 3);
      else { x.e = xp::mk(xp::PATH); x.e->abs = true; }
      x.prio = xp::default_priority(*x.e);
      if(k) text += " | "; text += xp::pattern_text(c, *x.e);
      pats.push_back(x); });
    g.varnames = v; g.extra_nodes = xn; g.extra_bool = xb; g.max_steps = ms; g.filters = fl;
  }
  void program()
  {
    p.xs = c.chance(1, 6) ? "t" : "xsl";
    if(c.chance(1, 6)) p.defns = "urn:def";
    // modules
    int nm = o.imports ? c.range(1, 5) : 1;
    p.mods.resize(nm); p.mods[0].prec = { 0 };
    std::vector<int> ord(1, 0);
    if(o.keys)
      c.list(1, 4, [&](int) {
        KeyD k; k.name = c.pick({ "k", "j", "p:k" });
        if(c.flip()) { Pat x; x.e = xp::mk(xp::PATH); xp::Step s; s.tk = xp::T_STAR; k.pattern = "*"; if(c.chance(1, 3)) { s.ax = xp::AX_ATTR; k.pattern = "@*"; } x.e->steps.push_back(s); k.pats.push_back(x); }
        else patterns(k.pattern, k.pats);
        auto xn = g.extra_nodes; auto xb = g.extra_bool; g.extra_nodes = nullptr; g.extra_bool = nullptr; scope.clear();
        auto e = eg(); k.use = c.chance(1, 2) ? e.any(0) : c.flip() ? e.nodeset(0) : e.string(0);
        if(c.chance(1, 2)) { EP f = xp::mk(xp::PATH); xp::Step a; a.ax = c.flip() ? xp::AX_ATTR : xp::AX_CHILD; a.tk = xp::T_STAR; f->steps.push_back(a); k.use = c.flip() ? f : here(); }
        g.extra_nodes = xn; g.extra_bool = xb; p.keys.push_back(k); });
    if(o.outputs)
    {
      // known finding: settings of several xsl:output elements are not merged (the CDATA elements are)
      bool one = c.chance(2, 3);
      c.list(0, one ? 1 : 3, [&](int) {
        Output x;
        if(one)
        {
        if(c.chance(1, 3)) x.at["method"] = c.chance(1, 3) ? "text" : "xml";
        if(c.chance(1, 3)) x.at["indent"] = c.flip() ? "yes" : "no";
        if(c.chance(1, 4)) x.at["omit-xml-declaration"] = c.flip() ? "yes" : "no";
        if(c.chance(1, 4)) x.at["standalone"] = c.flip() ? "yes" : "no";
        if(c.chance(1, 5)) x.at["doctype-system"] = c.pick({ "a.dtd", "http://x.org/b.dtd" });
        if(c.chance(1, 5)) x.at["doctype-public"] = c.pick({ "-//A//B//EN", "p" });
        if(c.chance(1, 6)) x.at["encoding"] = c.pick({ "utf-8", "UTF-8" });
        if(c.chance(1, 6)) x.at["media-type"] = "text/xml";
        if(c.chance(1, 8)) x.at["version"] = "1.0";
        }
        if(c.chance(1, 2)) { std::string s; c.list(1, 4, [&](int) { if(!s.empty()) s += c.pick({ " ", "  ", "\n" }); if(c.chance(1, 4)) s += c.pick({ "p:", "q:", "x:" }); s += c.pick(std::vector<std::string>{ "a", "b", "out", "item", "e" }); }); x.at["cdata-section-elements"] = s; }
        p.outs.push_back(x); });
    }
    // globals: generated in dependency order, placed in any order
    if(o.globals && c.chance(2, 3))
      c.list(1, 4, [&](int) { local.clear(); for(auto& x : gscope) local.push_back(x.first); scope = gscope; in_rule = false;
        auto cb = callable; callable.clear(); IP i = var(0, c.chance(1, 3)); callable = cb;
        gscope = scope; Global gl; gl.var = i; p.geval.push_back(p.globals.size()); p.globals.push_back(gl); });
    // templates
    int nt = 0; std::vector<std::string> all_names;
    if(c.chance(1, 2)) { all_names = { "one", "two", "p:one" }; all_names.resize(1 + c.below(3)); }
    // named templates may call only later ones
    std::vector<Tmpl> ts;
    for(size_t k = 0; k < all_names.size(); ++k)
    {
      callable.assign(all_names.begin() + k + 1, all_names.end());
      Tmpl t; t.name = all_names[k]; if(c.chance(1, 3)) patterns(t.pattern, t.pats);
      fill(t, nt++); ts.push_back(t);
    }
    callable = all_names;
    c.list(1, o.max_tmpls, [&](int) { Tmpl t; patterns(t.pattern, t.pats); fill(t, nt++); ts.push_back(t); });
    // often start at the root
    if(o.keys || c.chance(1, 2)) { Tmpl t; Pat x; x.e = xp::mk(xp::PATH); x.e->abs = true; x.prio = 0.5; t.pattern = "/"; t.pats.push_back(x); fill(t, nt++);
      if(!p.keys.empty()) c.list(1, 3, [&](int) { t.body.push_back(keyprobe()); });
      ts.push_back(t); }
    p.tmpls = ts;
    // distribute
    std::vector<std::vector<Item> > per(nm);
    auto place = [&](Item::K k, int i) { Item it = { k, i }; int m = c.below(nm); per[m].insert(per[m].begin() + c.below(per[m].size() + 1), it); };
    for(size_t i = 0; i < p.tmpls.size(); ++i) place(Item::T, i);
    for(size_t i = 0; i < p.globals.size(); ++i) place(Item::G, i);
    for(size_t i = 0; i < p.keys.size(); ++i) place(Item::KEY, i);
    for(size_t i = 0; i < p.outs.size(); ++i) place(Item::OUT, i);
    // links: every module but the first hangs off an earlier one
    std::vector<std::vector<int> > imps(nm);
    for(int m = 1; m < nm; ++m)
    {
      int from = c.below(m); bool imp = c.chance(2, 3);
      if(imp) imps[from].push_back(m); else { Item it = { Item::INC, m }; per[from].insert(per[from].begin() + c.below(per[from].size() + 1), it); }
    }
    for(int m = 0; m < nm; ++m) { for(int j : imps[m]) { Item it = { Item::IMP, j }; p.mods[m].items.push_back(it); } p.mods[m].items.insert(p.mods[m].items.end(), per[m].begin(), per[m].end()); }
    std::map<std::vector<int>, int> kids; int order = 0;
    std::vector<std::pair<int, std::vector<int> > > todo;
    number(0, { 0 }, kids, order);
  }
  // import precedence and document order, as 2.6.2 has it
  void number(int m, std::vector<int> prec, std::map<std::vector<int>, int>& kids, int& order)
  {
    p.mods[m].prec = prec; std::vector<std::pair<int, std::vector<int> > > imports;
    walk(m, prec, kids, order, imports);
    for(auto& i : imports) number(i.first, i.second, kids, order);
  }
  void walk(int m, const std::vector<int>& prec, std::map<std::vector<int>, int>& kids, int& order, std::vector<std::pair<int, std::vector<int> > >& imports)
  {
    for(auto& it : p.mods[m].items)
      switch(it.k)
      {
        case Item::T: p.tmpls[it.i].prec = prec; p.tmpls[it.i].order = order++; break;
        case Item::G: p.globals[it.i].prec = prec; break;
        case Item::OUT: p.outs[it.i].prec = prec; p.outs[it.i].order = order++; break;
        case Item::INC: walk(it.i, prec, kids, order, imports); break;
        case Item::IMP: { std::vector<int> q = prec; q.push_back(++kids[prec]); imports.push_back(std::make_pair(it.i, q)); break; }
        default: break;
      }
  }
  void fill(Tmpl& t, int n)
  {
    if(!t.pats.empty())
    {
      if(o.modes && c.chance(1, 3)) t.mode = c.pick(modes);
      if(c.chance(1, 4)) { t.prio = c.pick({ "-1", "0", "0.5", ".5", "1", "2.5", "-0.5", "-.25", "-0.25", "10" }); for(auto& x : t.pats) x.prio = atof(t.prio.c_str()); }
    }
    scope = gscope; local.clear(); in_rule = !t.pats.empty() && t.name.empty();
    auto named = t.name;
    if(c.chance(1, 3)) c.list(1, 2, [&](int) { t.body.push_back(var(0, true)); });
    if(o.trace)
    {
      IP i = mk(LIT); i->local = "t"; i->uri = p.defns; LAttr a; a.local = "n"; a.v = fixed(std::to_string(n)); i->attrs.push_back(a);
      LAttr b; b.local = "c"; Part x; x.e = xp::call("name"); b.v.push_back(x); x.e = EP(); x.s = "#"; b.v.push_back(x); x.e = xp::call("position"); x.s = ""; b.v.push_back(x); x.e = EP(); x.s = "/"; b.v.push_back(x); x.e = xp::call("last"); x.s = ""; b.v.push_back(x);
      i->attrs.push_back(b);
      budget = 4 + c.size() / 8; i->body = body(1, 0, 3);
      if(c.chance(2, 3)) { IP q = mk(APPLY); if(c.flip()) q->e = down(); if(o.modes && c.chance(1, 3)) q->mode = c.pick(modes); i->body.push_back(q); }
      if(in_rule && o.imports && c.chance(1, 2)) i->body.push_back(mk(IMPORTS));
      t.body.push_back(i);
    }
    else { budget = 8 + c.size() / 3; Body b = body(0, 1, 6); t.body.insert(t.body.end(), b.begin(), b.end()); }
  }
};

// ------------------------------------------------------------------ comparing trees
inline void canon(const model::Node& n, std::string& r)
{
  if(n.kind == model::TEXT || n.kind == model::CDATA) { r += "T[" + n.value + "]"; return; }
  if(n.kind == model::COMMENT) { r += "C[" + n.value + "]"; return; }
  if(n.kind == model::PI) { size_t b = n.value.find_first_not_of(" \t\r\n"); r += "PI[" + n.local + "|" + (b == std::string::npos ? "" : n.value.substr(b)) + "]"; return; }
  if(n.kind == model::ELEM)
  {
    r += "<{" + n.uri + "}" + n.local;
    std::set<std::string> as; for(auto& a : n.attrs) as.insert(" {" + a.uri + "}" + a.local + "=[" + a.value + "]");
    for(auto& a : as) r += a;
    r += ">";
  }
  std::string run; bool has = false;
  for(auto& k : n.kids)
  {
    if(k->kind == model::TEXT || k->kind == model::CDATA) { run += k->value; has = true; continue; }
    if(has && !run.empty()) r += "T[" + run + "]"; run = ""; has = false;
    canon(*k, r);
  }
  if(has && !run.empty()) r += "T[" + run + "]";
  if(n.kind == model::ELEM) r += "</>";
}
// a DOM tree as a model tree; namespace declarations are left out
inline model::NodeP from_dom(const xw::DNode& n)
{
  using xw::NB;
  model::NodeP r;
  switch(n.getNodeType())
  {
    case NB::TEXT_NODE: r.reset(new model::Node(model::TEXT)); r->value = n.getNodeValue(); return r;
    case NB::CDATA_SECTION_NODE: r.reset(new model::Node(model::CDATA)); r->value = n.getNodeValue(); return r;
    case NB::COMMENT_NODE: r.reset(new model::Node(model::COMMENT)); r->value = n.getNodeValue(); return r;
    case NB::PROCESSING_INSTRUCTION_NODE: r.reset(new model::Node(model::PI)); r->local = n.getNodeName(); r->value = n.getNodeValue(); return r;
    case NB::DOCUMENT_TYPE_NODE: return r;
    case NB::ELEMENT_NODE:
    {
      r.reset(new model::Node(model::ELEM)); r->prefix = n.getPrefix(); r->local = n.getLocalName().empty() ? n.getNodeName() : n.getLocalName(); r->uri = n.getNamespaceURI();
      Arabica::DOM::NamedNodeMap<std::string> m = n.getAttributes();
      for(unsigned i = 0; i < m.getLength(); ++i)
      {
        xw::DNode a = m.item(i); std::string q = a.getNodeName();
        if(a.getNamespaceURI() == model::XMLNS_URI || q == "xmlns" || q.compare(0, 6, "xmlns:") == 0) continue;
        model::Attr x; x.prefix = a.getPrefix(); x.local = a.getLocalName().empty() ? q : a.getLocalName(); x.uri = a.getNamespaceURI(); x.value = a.getNodeValue(); r->attrs.push_back(x);
      }
      break;
    }
    default: r.reset(new model::Node(model::FRAG));
  }
  for(xw::DNode k = n.getFirstChild(); k != 0; k = k.getNextSibling()) { model::NodeP x = from_dom(k); if(x) r->add(std::move(x)); }
  return r;
}

} // namespace xr
