// Reference XPath 1.0: data model over model::Node, syntax trees with a
// generator and a printer, and a direct transcription of the evaluation rules.
#pragma once
#include "model.hpp"
#include <cmath>
#include <functional>

namespace xp {

enum NK { ROOT, ELEM, ATTR, NSN, TEXT, COMMENT, PI };
struct XN
{
  NK kind; int id; int parent = -1;
  std::string prefix, local, uri, value;
  std::vector<int> kids, attrs, nss;
  const model::Node* m = 0;            // first underlying node (text runs); owner for attributes
  int attr_index = -1;
  std::string qname() const { return prefix.empty() ? local : prefix + ":" + local; }
};

struct XDoc
{
  std::vector<XN> n;                   // in document order, index == id
  int add(NK k, int parent, const model::Node* m) { XN x; x.kind = k; x.id = n.size(); x.parent = parent; x.m = m; n.push_back(x); return x.id; }
  void build(const model::Node& d) { n.clear(); if(d.kind == model::ELEM) { element(d, -1); return; } int r = add(ROOT, -1, &d); children(d, r); }
  void element(const model::Node& k, int p)
  {
    int i = add(ELEM, p, &k);
    if(p >= 0) n[p].kids.push_back(i);
    n[i].prefix = k.prefix; n[i].local = k.local; n[i].uri = k.uri;
    for(auto& s : k.in_scope()) { int a = add(NSN, i, &k); n[a].local = s.first; n[a].value = s.second; n[i].nss.push_back(a); }
    for(size_t j = 0; j < k.attrs.size(); ++j)
    { int a = add(ATTR, i, &k); n[a].prefix = k.attrs[j].prefix; n[a].local = k.attrs[j].local; n[a].uri = k.attrs[j].uri; n[a].value = k.attrs[j].value; n[a].attr_index = j; n[i].attrs.push_back(a); }
    children(k, i);
  }
  void children(const model::Node& d, int p)
  {
    int run = -1;
    for(auto& k : d.kids)
    {
      if(k->kind == model::TEXT || k->kind == model::CDATA)
      {
        if(k->value.empty() && run < 0 && false) continue;
        if(run < 0) { run = add(TEXT, p, k.get()); n[p].kids.push_back(run); }
        n[run].value += k->value;
        continue;
      }
      run = -1;
      if(k->kind == model::COMMENT || k->kind == model::PI)
      {
        int i = add(k->kind == model::PI ? PI : COMMENT, p, k.get());
        n[i].value = k->value; if(k->kind == model::PI) n[i].local = k->local;
        n[p].kids.push_back(i);
        continue;
      }
      element(*k, p);
    }
  }
  std::string string_value(int i) const
  {
    if(n[i].kind == ROOT && n[i].kids.empty()) return n[i].value;      // a result tree fragment
    if(n[i].kind == ROOT || n[i].kind == ELEM)
    { std::string r; for(int k : n[i].kids) if(n[k].kind == ELEM || n[k].kind == TEXT) r += string_value(k); return r; }
    return n[i].value;
  }
};

// ------------------------------------------------------------------ syntax
enum Axis { AX_ANC, AX_ANCS, AX_ATTR, AX_CHILD, AX_DESC, AX_DESCS, AX_FOLL, AX_FOLLS, AX_NS, AX_PARENT, AX_PREC, AX_PRECS, AX_SELF };
static const char* const axis_names[] = { "ancestor", "ancestor-or-self", "attribute", "child", "descendant", "descendant-or-self", "following", "following-sibling", "namespace", "parent", "preceding", "preceding-sibling", "self" };
inline bool reverse_axis(Axis a) { return a == AX_ANC || a == AX_ANCS || a == AX_PARENT || a == AX_PREC || a == AX_PRECS; }

enum TK { T_NAME, T_STAR, T_NSSTAR, T_NODE, T_TEXT, T_COMMENT, T_PI, T_PILIT };
struct E; typedef std::shared_ptr<E> EP;
struct Step { Axis ax = AX_CHILD; TK tk = T_NAME; std::string prefix, local; std::vector<EP> preds; };
enum Op { OR, AND, EQ, NE, LT, LE, GT, GE, ADD, SUB, MUL, DIV, MOD, NEG, UNION, PATH, LIT, NUM, VAR, CALL };
struct E
{
  Op op = NUM;
  std::vector<EP> a;                    // operands / arguments
  std::string s;                        // literal, function or variable name, spelling of a number
  double num = 0;
  // PATH
  bool abs = false; EP base; std::vector<EP> bpreds; std::vector<Step> steps;
};
inline EP mk(Op o) { EP e(new E); e->op = o; return e; }
inline EP lit(const std::string& s) { EP e = mk(LIT); e->s = s; return e; }
inline EP numlit(const std::string& s) { EP e = mk(NUM); e->s = s; e->num = strtod(s.c_str(), 0); return e; }
inline EP call(const std::string& f, std::vector<EP> a = std::vector<EP>()) { EP e = mk(CALL); e->s = f; e->a = a; return e; }
inline EP bin(Op o, EP x, EP y) { EP e = mk(o); e->a.push_back(x); e->a.push_back(y); return e; }

enum VT { V_NODES, V_NUM, V_STR, V_BOOL };
struct Value
{
  VT t = V_BOOL; std::vector<int> ns; double n = 0; std::string s; bool b = false;
  static Value N(double d) { Value v; v.t = V_NUM; v.n = d; return v; }
  static Value S(const std::string& d) { Value v; v.t = V_STR; v.s = d; return v; }
  static Value B(bool d) { Value v; v.t = V_BOOL; v.b = d; return v; }
  static Value NS(const std::vector<int>& d) { Value v; v.t = V_NODES; v.ns = d; return v; }
};

inline bool isws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
inline double str2num(const std::string& s)
{
  size_t b = 0, e = s.size();
  while(b < e && isws(s[b])) ++b;
  while(e > b && isws(s[e - 1])) --e;
  std::string t = s.substr(b, e - b);
  size_t i = 0; if(i < t.size() && t[i] == '-') ++i;
  size_t d = 0; bool dot = false;
  for(; i < t.size(); ++i) { if(isdigit(static_cast<unsigned char>(t[i]))) ++d; else if(t[i] == '.' && !dot) dot = true; else return NAN; }
  if(!d) return NAN;
  return strtod(t.c_str(), 0);
}
// XPath 1.0 section 4.2: decimal form, as many digits as needed to distinguish
inline std::string num2str(double d)
{
  if(std::isnan(d)) return "NaN";
  if(std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity";
  if(d == 0) return "0";
  char b[64]; int p = 1;
  for(; p < 17; ++p) { snprintf(b, sizeof b, "%.*e", p - 1, d); if(strtod(b, 0) == d) break; }
  snprintf(b, sizeof b, "%.*e", p - 1, d);
  std::string s(b); bool neg = s[0] == '-'; if(neg) s.erase(0, 1);
  size_t e = s.find('e'); int ex = atoi(s.c_str() + e + 1); std::string m = s.substr(0, e);
  std::string dig; for(char ch : m) if(ch != '.') dig += ch;
  while(dig.size() > 1 && dig.back() == '0') dig.erase(dig.size() - 1);
  std::string r;
  if(ex < 0) r = "0." + std::string(-ex - 1, '0') + dig;
  else if(static_cast<int>(dig.size()) <= ex + 1) r = dig + std::string(ex + 1 - dig.size(), '0');
  else r = dig.substr(0, ex + 1) + "." + dig.substr(ex + 1);
  return (neg ? "-" : "") + r;
}
inline double xround(double d)
{
  if(std::isnan(d) || std::isinf(d) || d == 0) return d;
  if(d < 0 && d >= -0.5) return -0.0;
  double f = std::floor(d);
  return d - f >= 0.5 ? f + 1 : f;
}
inline std::string normspace(const std::string& s)
{
  std::string r; bool sp = false;
  for(char c : s) if(isws(c)) sp = !r.empty(); else { if(sp) r += ' '; sp = false; r += c; }
  return r;
}

struct Ctx { int node; int pos; int size; };
struct BadType { };

struct Eval
{
  const XDoc& d;
  std::map<std::string, Value> vars;
  std::map<std::string, std::string> ns;   // prefix -> uri
  std::function<Value(const std::string&, const std::vector<Value>&, const Ctx&)> ext;
  long work = 0;
  bool blown = false;                  // the engine keeps duplicates between steps: flags explosive paths
  Eval(const XDoc& d_) : d(d_) { }

  bool b(const Value& v) const { switch(v.t) { case V_NODES: return !v.ns.empty(); case V_NUM: return !(std::isnan(v.n) || v.n == 0); case V_STR: return !v.s.empty(); default: return v.b; } }
  std::string s(const Value& v) const { switch(v.t) { case V_NODES: return v.ns.empty() ? "" : d.string_value(v.ns[0]); case V_NUM: return num2str(v.n); case V_STR: return v.s; default: return v.b ? "true" : "false"; } }
  double n(const Value& v) const { switch(v.t) { case V_NUM: return v.n; case V_BOOL: return v.b ? 1 : 0; default: return str2num(s(v)); } }

  void desc(int i, std::vector<int>& r) const { for(int k : d.n[i].kids) { r.push_back(k); desc(k, r); } }
  // nodes of an axis in axis order
  std::vector<int> axis(Axis ax, int c) const
  {
    std::vector<int> r; const XN& x = d.n[c];
    bool leafy = x.kind == ATTR || x.kind == NSN;
    switch(ax)
    {
      case AX_SELF: r.push_back(c); break;
      case AX_CHILD: r = x.kids; break;
      case AX_ATTR: r = x.attrs; break;
      case AX_NS: r = x.nss; break;
      case AX_PARENT: if(x.parent >= 0) r.push_back(x.parent); break;
      case AX_ANCS: r.push_back(c);
      case AX_ANC: for(int p = x.parent; p >= 0; p = d.n[p].parent) r.push_back(p); break;
      case AX_DESCS: r.push_back(c);
      case AX_DESC: desc(c, r); break;
      case AX_FOLLS: case AX_PRECS:
        if(!leafy && x.parent >= 0)
        {
          const std::vector<int>& k = d.n[x.parent].kids;
          for(int i : k) if(ax == AX_FOLLS ? i > c : i < c) r.push_back(i);
          if(ax == AX_PRECS) std::reverse(r.begin(), r.end());
        }
        break;
      case AX_FOLL: case AX_PREC:
        {
          std::set<int> anc; for(int p = x.parent; p >= 0; p = d.n[p].parent) anc.insert(p);
          std::vector<int> ds; desc(c, ds); std::set<int> de(ds.begin(), ds.end());
          for(auto& y : d.n)
          {
            if(y.kind == ATTR || y.kind == NSN || y.kind == ROOT) continue;
            if(ax == AX_FOLL ? (y.id > c && !de.count(y.id)) : (y.id < c && !anc.count(y.id))) r.push_back(y.id);
          }
          if(ax == AX_PREC) std::reverse(r.begin(), r.end());
        }
    }
    return r;
  }
  bool test(const Step& st, int i) const
  {
    const XN& x = d.n[i];
    NK principal = st.ax == AX_ATTR ? ATTR : st.ax == AX_NS ? NSN : ELEM;
    switch(st.tk)
    {
      case T_NODE: return true;
      case T_TEXT: return x.kind == TEXT;
      case T_COMMENT: return x.kind == COMMENT;
      case T_PI: return x.kind == PI;
      case T_PILIT: return x.kind == PI && x.local == st.local;
      case T_STAR: return x.kind == principal;
      case T_NSSTAR: { auto u = ns.find(st.prefix); return x.kind == principal && x.uri == (u == ns.end() ? "?" : u->second) && x.kind != NSN; }
      case T_NAME:
        if(x.kind != principal || x.local != st.local) return false;
        if(st.prefix.empty()) return x.uri.empty();
        auto u = ns.find(st.prefix); return x.uri == (u == ns.end() ? "?" : u->second) && x.kind != NSN;
    }
    return false;
  }
  std::vector<int> filter(std::vector<int> v, const std::vector<EP>& preds)
  {
    for(auto& p : preds)
    {
      std::vector<int> r;
      for(size_t i = 0; i < v.size(); ++i)
      {
        Ctx c = { v[i], static_cast<int>(i) + 1, static_cast<int>(v.size()) };
        Value x = eval(p, c);
        if(x.t == V_NUM ? x.n == c.pos : b(x)) r.push_back(v[i]);
      }
      v = r;
    }
    return v;
  }
  Value path(const EP& e, const Ctx& c)
  {
    std::set<int> cur; std::map<int, double> mult;
    if(e->base)
    {
      Value v = eval(e->base, c);
      if(e->bpreds.empty() && e->steps.empty()) return v;
      if(v.t != V_NODES) throw BadType();
      std::vector<int> f = filter(v.ns, e->bpreds); cur.insert(f.begin(), f.end());
    }
    else if(e->abs) cur.insert(0); else cur.insert(c.node);
    for(int i : cur) mult[i] = 1;
    for(auto& st : e->steps)
    {
      std::set<int> nx; std::map<int, double> nm; double tot = 0;
      for(int i : cur)
      {
        std::vector<int> cand; work += 1 + d.n.size() / 8;
        for(int j : axis(st.ax, i)) if(test(st, j)) cand.push_back(j);
        tot += mult[i] * (1 + cand.size());
        for(int j : filter(cand, st.preds)) { nx.insert(j); nm[j] += mult[i]; }
      }
      cur = nx; mult.swap(nm);
      if(tot > 4000) blown = true;
    }
    return Value::NS(std::vector<int>(cur.begin(), cur.end()));
  }
  template<class F> static bool cmpn(Op o, F x, F y)
  { switch(o) { case EQ: return x == y; case NE: return x != y; case LT: return x < y; case LE: return x <= y; case GT: return x > y; default: return x >= y; } }
  bool compare(Op o, const Value& l, const Value& r)
  {
    bool eq = o == EQ || o == NE;
    if(l.t == V_NODES && r.t == V_NODES)
    {
      for(int i : l.ns) for(int j : r.ns)
        if(eq ? cmpn(o, d.string_value(i), d.string_value(j)) : cmpn(o, str2num(d.string_value(i)), str2num(d.string_value(j)))) return true;
      return false;
    }
    if(l.t == V_NODES || r.t == V_NODES)
    {
      const Value& v = l.t == V_NODES ? r : l; const Value& s = l.t == V_NODES ? l : r; bool left = l.t == V_NODES;
      if(v.t == V_BOOL)
      {
        if(eq) return cmpn(o, b(l), b(r));
        return cmpn(o, b(l) ? 1.0 : 0.0, b(r) ? 1.0 : 0.0);
      }
      for(int i : s.ns)
      {
        std::string sv = d.string_value(i);
        if(eq && v.t == V_STR) { if(cmpn(o, sv, v.s)) return true; continue; }
        double x = str2num(sv), y = n(v);
        if(left ? cmpn(o, x, y) : cmpn(o, y, x)) return true;
      }
      return false;
    }
    if(!eq) return cmpn(o, n(l), n(r));
    if(l.t == V_BOOL || r.t == V_BOOL) return cmpn(o, b(l), b(r));
    if(l.t == V_NUM || r.t == V_NUM) return cmpn(o, n(l), n(r));
    return cmpn(o, s(l), s(r));
  }
  Value eval(const EP& e, const Ctx& c)
  {
    ++work;
    switch(e->op)
    {
      case OR: return Value::B(b(eval(e->a[0], c)) || b(eval(e->a[1], c)));
      case AND: return Value::B(b(eval(e->a[0], c)) && b(eval(e->a[1], c)));
      case EQ: case NE: case LT: case LE: case GT: case GE:
        { Value l = eval(e->a[0], c), r = eval(e->a[1], c); return Value::B(compare(e->op, l, r)); }
      case ADD: return Value::N(n(eval(e->a[0], c)) + n(eval(e->a[1], c)));
      case SUB: return Value::N(n(eval(e->a[0], c)) - n(eval(e->a[1], c)));
      case MUL: return Value::N(n(eval(e->a[0], c)) * n(eval(e->a[1], c)));
      case DIV: return Value::N(n(eval(e->a[0], c)) / n(eval(e->a[1], c)));
      case MOD: return Value::N(std::fmod(n(eval(e->a[0], c)), n(eval(e->a[1], c))));
      case NEG: return Value::N(-n(eval(e->a[0], c)));
      case UNION:
        {
          Value l = eval(e->a[0], c), r = eval(e->a[1], c);
          if(l.t != V_NODES || r.t != V_NODES) throw BadType();
          std::set<int> u(l.ns.begin(), l.ns.end()); u.insert(r.ns.begin(), r.ns.end());
          return Value::NS(std::vector<int>(u.begin(), u.end()));
        }
      case PATH: return path(e, c);
      case LIT: return Value::S(e->s);
      case NUM: return Value::N(e->num);
      case VAR: { auto v = vars.find(e->s); if(v == vars.end()) throw BadType(); return v->second; }
      case CALL: return fn(e, c);
    }
    return Value();
  }
  Value fn(const EP& e, const Ctx& c)
  {
    std::vector<Value> a; for(auto& x : e->a) a.push_back(eval(x, c));
    const std::string& f = e->s;
    auto nodearg = [&]() -> int { if(a.empty()) return c.node; if(a[0].t != V_NODES) throw BadType(); return a[0].ns.empty() ? -1 : a[0].ns[0]; };
    if(f == "last") return Value::N(c.size);
    if(f == "position") return Value::N(c.pos);
    if(f == "count") { if(a[0].t != V_NODES) throw BadType(); return Value::N(a[0].ns.size()); }
    if(f == "local-name" || f == "name" || f == "namespace-uri")
    {
      int i = nodearg(); if(i < 0) return Value::S("");
      const XN& x = d.n[i];
      if(f == "local-name") return Value::S(x.local);
      if(f == "namespace-uri") return Value::S(x.uri);
      return Value::S(x.qname());
    }
    if(f == "string") return Value::S(a.empty() ? d.string_value(c.node) : s(a[0]));
    if(f == "concat") { std::string r; for(auto& x : a) r += s(x); return Value::S(r); }
    if(f == "starts-with") { std::string x = s(a[0]), y = s(a[1]); return Value::B(x.compare(0, y.size(), y) == 0); }
    if(f == "contains") return Value::B(s(a[0]).find(s(a[1])) != std::string::npos);
    if(f == "substring-before") { std::string x = s(a[0]); size_t p = x.find(s(a[1])); return Value::S(p == std::string::npos ? "" : x.substr(0, p)); }
    if(f == "substring-after") { std::string x = s(a[0]), y = s(a[1]); size_t p = x.find(y); return Value::S(p == std::string::npos ? "" : x.substr(p + y.size())); }
    if(f == "substring")
    {
      std::string x = s(a[0]), r; double st = xround(n(a[1])); double en = a.size() > 2 ? st + xround(n(a[2])) : INFINITY;
      for(size_t i = 0; i < x.size(); ++i) { double p = i + 1.0; if(p >= st && p < en) r += x[i]; }
      return Value::S(r);
    }
    if(f == "string-length") return Value::N((a.empty() ? d.string_value(c.node) : s(a[0])).size());
    if(f == "normalize-space") return Value::S(normspace(a.empty() ? d.string_value(c.node) : s(a[0])));
    if(f == "translate")
    {
      std::string x = s(a[0]), from = s(a[1]), to = s(a[2]), r;
      for(char ch : x) { size_t p = from.find(ch); if(p == std::string::npos) r += ch; else if(p < to.size()) r += to[p]; }
      return Value::S(r);
    }
    if(f == "boolean") return Value::B(b(a[0]));
    if(f == "not") return Value::B(!b(a[0]));
    if(f == "true") return Value::B(true);
    if(f == "false") return Value::B(false);
    if(f == "number") return Value::N(a.empty() ? str2num(d.string_value(c.node)) : n(a[0]));
    if(f == "sum") { if(a[0].t != V_NODES) throw BadType(); 
      double r = 0, mag = 0; for(int i : a[0].ns) { double v = str2num(d.string_value(i)); r += v; mag += std::fabs(v); }
      // the order of summation is not specified: leave out sums that depend on it
      if(a[0].ns.size() > 2 && mag == mag && (mag > 4e9 || mag * 1048576 != std::floor(mag * 1048576))) blown = true;
      return Value::N(r); }
    if(f == "floor") return Value::N(std::floor(n(a[0])));
    if(f == "ceiling") return Value::N(std::ceil(n(a[0])));
    if(f == "round") return Value::N(xround(n(a[0])));
    if(ext) return ext(f, a, c);
    throw BadType();
  }
};

// ------------------------------------------------------------------ printer
struct Printer
{
  pbt::Ctx* c;                          // null: canonical
  Printer(pbt::Ctx* c_ = 0) : c(c_) { }
  std::string sp() { if(!c || !c->chance(1, 6)) return ""; return c->pick({ " ", "  ", "\n", "\t" }); }
  std::string sp1() { if(!c || !c->chance(1, 6)) return " "; return c->pick({ "  ", "\n", " \t" }); }
  bool abbr() { return !c || !c->chance(1, 4); }
  static int prec(Op o)
  {
    switch(o) { case OR: return 1; case AND: return 2; case EQ: case NE: return 3; case LT: case LE: case GT: case GE: return 4;
      case ADD: case SUB: return 5; case MUL: case DIV: case MOD: return 6; case NEG: return 7; case UNION: return 8; default: return 9; }
  }
  static const char* opname(Op o)
  {
    switch(o) { case OR: return "or"; case AND: return "and"; case EQ: return "="; case NE: return "!="; case LT: return "<"; case LE: return "<="; case GT: return ">"; case GE: return ">=";
      case ADD: return "+"; case SUB: return "-"; case MUL: return "*"; case DIV: return "div"; case MOD: return "mod"; case UNION: return "|"; default: return "?"; }
  }
  std::string quote(const std::string& s)
  {
    bool dq = s.find('"') == std::string::npos, sq = s.find('\'') == std::string::npos;
    if(dq && sq) { bool q = c && c->flip(); return q ? "\"" + s + "\"" : "'" + s + "'"; }
    return dq ? "\"" + s + "\"" : "'" + s + "'";
  }
  std::string test(const Step& st)
  {
    switch(st.tk)
    {
      case T_NODE: return "node" + sp() + "(" + sp() + ")";
      case T_TEXT: return "text" + sp() + "(" + sp() + ")";
      case T_COMMENT: return "comment" + sp() + "(" + sp() + ")";
      case T_PI: return "processing-instruction" + sp() + "(" + sp() + ")";
      case T_PILIT: return "processing-instruction" + sp() + "(" + sp() + quote(st.local) + sp() + ")";
      case T_STAR: return "*";
      case T_NSSTAR: return st.prefix + ":*";
      default: return st.prefix.empty() ? st.local : st.prefix + ":" + st.local;
    }
  }
  std::string preds(const std::vector<EP>& p) { std::string r; for(auto& x : p) r += sp() + "[" + sp() + expr(x, 0) + sp() + "]"; return r; }
  std::string step(const Step& st)
  {
    if(st.tk == T_NODE && st.preds.empty() && st.ax == AX_SELF && abbr()) return ".";
    if(st.tk == T_NODE && st.preds.empty() && st.ax == AX_PARENT && abbr()) return "..";
    std::string r;
    if(st.ax == AX_CHILD && abbr()) ;
    else if(st.ax == AX_ATTR && abbr()) r = "@" + sp();
    else r = std::string(axis_names[st.ax]) + sp() + "::" + sp();
    return r + test(st) + preds(st.preds);
  }
  static bool dos(const Step& s) { return s.ax == AX_DESCS && s.tk == T_NODE && s.preds.empty(); }
  std::string path(const E& e)
  {
    std::string r; bool need = false;            // need a '/' before the next step
    if(e.base) { r = primary(e.base) + preds(e.bpreds); need = true; }
    else if(e.abs) { r = "/"; }
    bool first = true;
    for(size_t i = 0; i < e.steps.size(); ++i)
    {
      if(dos(e.steps[i]) && i + 1 < e.steps.size() && (need || (e.abs && first)) && abbr())
      {
        if(e.abs && first) r = "//"; else r += sp() + "//";
        r += sp(); need = false; first = false;
        r += step(e.steps[++i]); need = true;
        continue;
      }
      if(need) r += sp() + "/";
      if(!(r.empty())) r += sp();
      r += step(e.steps[i]); need = true; first = false;
    }
    return r;
  }
  // an operand that must be a PrimaryExpr
  std::string primary(const EP& e)
  {
    if(e->op == LIT || e->op == NUM || e->op == VAR || e->op == CALL) return expr(e, 0);
    return "(" + sp() + expr(e, 0) + sp() + ")";
  }
  std::string expr(const EP& e, int ctx)
  {
    int p = prec(e->op);
    std::string r;
    switch(e->op)
    {
      case LIT: return quote(e->s);
      case NUM: return e->s;
      case VAR: return "$" + e->s;
      case CALL:
        r = e->s + sp() + "(" + sp();
        for(size_t i = 0; i < e->a.size(); ++i) { if(i) r += sp() + "," + sp(); r += expr(e->a[i], 0); }
        return r + sp() + ")";
      case PATH:
        r = path(*e); p = 9;
        // a lone "/" before an operator is fine in XPath; parenthesise to keep the text unambiguous
        if(e->abs && e->steps.empty() && !e->base && ctx > 0) return "(" + r + ")";
        break;
      case NEG: r = "-" + sp() + expr(e->a[0], 7); break;
      default:
      {
        std::string l = expr(e->a[0], p), q = expr(e->a[1], p + 1);
        bool word = e->op == OR || e->op == AND || e->op == DIV || e->op == MOD || e->op == SUB;
        r = l + (word ? sp1() : sp()) + opname(e->op) + (word && e->op != SUB ? sp1() : sp()) + q;
        // "<a" etc. never ambiguous; "*" after a name test needs no space either
      }
    }
    if(p < ctx || (c && ctx >= 0 && e->op != PATH && c->chance(1, 20))) return "(" + sp() + r + sp() + ")";
    return r;
  }
};

// ------------------------------------------------------------------ generator
struct EGen;
struct GOpts
{
  bool nsaxis = true, vars = false, textaxis = true;
  std::vector<std::string> names = { "a", "b", "c", "d", "item" };
  std::vector<std::string> prefixes;                          // usable prefixes
  std::vector<std::pair<std::string, VT> > varnames;
  std::vector<std::string> strings = { "", "a", "b", "ab", "x", "1", "2", " 1 ", "-1", "foo", "1.5", "NaN", "  a  b ", "0", "10" };
  std::vector<std::string> numbers = { "0", "1", "2", "3", "10", "1.5", "0.5", ".25", "2.", "100", "7" };
  int max_steps = 4;
  bool positional = true;
  bool abspath = true, unions = true, filters = true;
  // further node-set and boolean expressions (XSLT functions)
  std::function<EP(EGen&, int)> extra_nodes, extra_bool;
};

struct EGen
{
  pbt::Ctx& c; const GOpts& o; int budget;
  EGen(pbt::Ctx& c_, const GOpts& o_, int b) : c(c_), o(o_), budget(b) { }

  Step step(int depth, bool last)
  {
    Step s; --budget;
    int w = c.weighted({ 30, 8, 6, 5, 5, 4, 4, 4, 4, 4, 4, 4, o.nsaxis && last ? 2 : 0 });
    static const Axis ax[] = { AX_CHILD, AX_ATTR, AX_DESC, AX_SELF, AX_PARENT, AX_DESCS, AX_ANC, AX_ANCS, AX_FOLL, AX_FOLLS, AX_PREC, AX_PRECS, AX_NS };
    s.ax = ax[w];
    int t = s.ax == AX_SELF || s.ax == AX_PARENT ? c.weighted({ 3, 2, 1, 4, 1, 1, 1, 1 }) : c.weighted({ 10, 7, 2, 5, 3, 1, 1, 1 });
    s.tk = static_cast<TK>(t);
    if(s.tk == T_NSSTAR && o.prefixes.empty()) s.tk = T_STAR;
    if(s.ax == AX_NS && (s.tk == T_NAME || s.tk == T_NSSTAR)) s.tk = T_STAR;
    if(s.tk == T_NAME) { s.local = c.pick(o.names); if(!o.prefixes.empty() && c.chance(1, 5)) s.prefix = c.pick(o.prefixes); }
    if(s.tk == T_NSSTAR) s.prefix = c.pick(o.prefixes);
    if(s.tk == T_PILIT) s.local = c.pick({ "pi", "php", "target", "a" });
    if(budget > 0 && depth < 3 && c.chance(1, 3)) c.list(1, 2, [&](int) { s.preds.push_back(predicate(depth + 1)); });
    return s;
  }
  EP predicate(int depth)
  {
    if(o.positional && c.chance(1, 3)) return position(depth);
    return any(depth);
  }
  EP numfn()
  {
    switch(c.below(3))
    {
      case 0: return call("string-length", { lit(c.pick({ "x", "xy", "xyz" })) });
      case 1: return call("number", { lit(c.pick({ "1", "2", "3" })) });
      default: return call("floor", { numlit(c.pick({ "1.5", "2" })) });
    }
  }
  EP position(int)
  {
    --budget;
    switch(c.below(8))
    {
      case 5:
      {
        // counted against something else: another function call comes after position() or last()
        EP other = c.flip() ? numfn() : bin(c.flip() ? ADD : SUB, numfn(), numlit(c.pick({ "0", "1" })));
        return bin(c.chance(2, 3) ? EQ : LT, call(c.flip() ? "position" : "last"), other);
      }
      case 6: return bin(EQ, numfn(), call(c.flip() ? "position" : "last"));
      case 7: return call("not", { bin(EQ, call("position"), c.flip() ? call("last") : numlit("1")) });
      case 0: return numlit(c.pick({ "1", "2", "3" }));
      case 1: return call("last");
      case 2: return bin(c.flip() ? EQ : c.flip() ? LT : GT, call("position"), numlit(c.pick({ "1", "2", "3" })));
      case 3: return bin(EQ, call("position"), call("last"));
      default: return bin(EQ, bin(MOD, call("position"), numlit("2")), numlit(c.pick({ "0", "1" })));
    }
  }
  EP path(int depth)
  {
    EP e = mk(PATH); --budget;
    int w = c.weighted({ 10, o.abspath ? 4 : 0, o.filters && depth < 3 ? 3 : 0 });
    if(w == 1) e->abs = true;
    if(w == 2)
    {
      if(o.extra_nodes && c.chance(1, 3)) e->base = o.extra_nodes(*this, depth + 1);
      if(!e->base) e->base = nodeset(depth + 1);
      if(c.chance(1, 2)) c.list(1, 2, [&](int) { e->bpreds.push_back(predicate(depth + 1)); });
    }
    int maxs = std::max(1, std::min(o.max_steps, budget));
    int lo = w == 0 ? 1 : (w == 1 ? 0 : (e->bpreds.empty() ? 1 : 0));
    int n = 0;
    c.list(lo, maxs, [&](int) {
      if((n > 0 || w != 0) && c.chance(1, 4)) { Step d; d.ax = AX_DESCS; d.tk = T_NODE; e->steps.push_back(d); e->steps.push_back(step(depth, false)); }
      else e->steps.push_back(step(depth, false));
      ++n;
    });
    // the namespace axis only as the last step of an outermost path
    if(o.nsaxis && depth == 0 && c.chance(1, 12)) { Step s; s.ax = AX_NS; s.tk = c.flip() ? T_STAR : T_NODE; e->steps.push_back(s); }
    return e;
  }
  EP nodeset(int depth)
  {
    if(o.vars) for(auto& v : o.varnames) if(v.second == V_NODES && c.chance(1, 6)) { EP e = mk(VAR); e->s = v.first; return e; }
    if(o.extra_nodes && c.chance(1, 7)) { EP e = o.extra_nodes(*this, depth); if(e) return e; }
    if(o.unions && depth < 3 && c.chance(1, 5)) return bin(UNION, path(depth + 1), nodeset(depth + 1));
    return path(depth);
  }
  EP var(VT t)
  {
    std::vector<std::string> m; for(auto& v : o.varnames) if(v.second == t) m.push_back(v.first);
    if(!o.vars || m.empty()) return EP();
    EP e = mk(VAR); e->s = c.pick(m); return e;
  }
  EP any(int depth)
  {
    switch(c.weighted({ 4, 3, 3, 4 })) { case 0: return nodeset(depth); case 1: return number(depth); case 2: return string(depth); default: return boolean(depth); }
  }
  EP number(int depth)
  {
    --budget;
    if(depth > 4 || budget <= 0) return numlit(c.pick(o.numbers));
    if(o.vars && c.chance(1, 6)) { EP v = var(V_NUM); if(v) return v; }
    switch(c.weighted({ 4, 5, 2, 3, 2, 2, 2, 2 }))
    {
      case 0: return numlit(c.pick(o.numbers));
      case 1: { static const Op ops[] = { ADD, SUB, MUL, DIV, MOD }; Op op = ops[c.below(5)]; EP x = conv(depth + 1), y = conv(depth + 1); return bin(op, x, y); }
      case 2: { EP e = mk(NEG); e->a.push_back(conv(depth + 1)); return e; }
      case 3: return call("count", { nodeset(depth + 1) });
      case 4: return call("string-length", opt_string(depth));
      case 5: return call("sum", { nodeset(depth + 1) });
      case 6: return call(c.pick({ "floor", "ceiling", "round" }), { conv(depth + 1) });
      default: if(c.chance(1, 4)) return call(c.flip() ? "position" : "last"); if(c.chance(1, 4)) return call("number"); return call("number", { any(depth + 1) });
    }
  }
  EP conv(int depth) { return c.chance(3, 4) ? number(depth) : any(depth); }
  std::vector<EP> opt_string(int depth) { if(c.chance(1, 4)) return std::vector<EP>(); return { str(depth + 1) }; }
  EP str(int depth) { return c.chance(3, 4) ? string(depth) : any(depth); }
  EP string(int depth)
  {
    --budget;
    if(depth > 4 || budget <= 0) return lit(c.pick(o.strings));
    if(o.vars && c.chance(1, 6)) { EP v = var(V_STR); if(v) return v; }
    switch(c.weighted({ 5, 2, 2, 2, 3, 1, 2, 3 }))
    {
      case 0: return lit(c.pick(o.strings));
      case 1: if(c.chance(1, 4)) return call("string"); return call("string", { any(depth + 1) });
      case 2: { std::vector<EP> a; c.list(2, 3, [&](int) { a.push_back(str(depth + 1)); }); return call("concat", a); }
      case 3: return call(c.flip() ? "substring-before" : "substring-after", { str(depth + 1), str(depth + 1) });
      case 4: { std::vector<EP> a; a.push_back(str(depth + 1)); a.push_back(conv(depth + 1)); if(c.flip()) a.push_back(conv(depth + 1)); return call("substring", a); }
      case 5: return call("normalize-space", opt_string(depth));
      case 6: return call("translate", { str(depth + 1), lit(c.pick({ "a", "ab", "abc", "aab", "", "12", " " })), lit(c.pick({ "", "x", "xy", "xyz", "A" })) });
      default: { const char* f = c.pick({ "name", "local-name", "namespace-uri" }); if(c.chance(1, 3)) return call(f); return call(f, { nodeset(depth + 1) }); }
    }
  }
  EP boolean(int depth)
  {
    --budget;
    if(depth > 4 || budget <= 0) return call(c.flip() ? "true" : "false");
    if(o.vars && c.chance(1, 6)) { EP v = var(V_BOOL); if(v) return v; }
    if(o.extra_bool && c.chance(1, 12)) return o.extra_bool(*this, depth);
    switch(c.weighted({ 2, 6, 3, 2, 2, 2 }))
    {
      case 0: return call(c.flip() ? "true" : "false");
      case 1: { static const Op ops[] = { EQ, NE, LT, LE, GT, GE }; Op op = ops[c.below(6)]; EP x = any(depth + 1), y = any(depth + 1); return bin(op, x, y); }
      case 2: { Op op = c.flip() ? AND : OR; EP x = any(depth + 1), y = any(depth + 1); return bin(op, x, y); }
      case 3: return call("not", { any(depth + 1) });
      case 4: return call("boolean", { any(depth + 1) });
      default: return call(c.flip() ? "starts-with" : "contains", { str(depth + 1), str(depth + 1) });
    }
  }
};

inline bool uses_axis(const EP& e, Axis ax);
inline bool uses_axis_steps(const std::vector<Step>& ss, Axis ax)
{ for(auto& s : ss) { if(s.ax == ax) return true; for(auto& p : s.preds) if(uses_axis(p, ax)) return true; } return false; }
inline bool uses_axis(const EP& e, Axis ax)
{
  if(!e) return false;
  for(auto& x : e->a) if(uses_axis(x, ax)) return true;
  if(uses_axis(e->base, ax)) return true;
  for(auto& p : e->bpreds) if(uses_axis(p, ax)) return true;
  return uses_axis_steps(e->steps, ax);
}

} // namespace xp
