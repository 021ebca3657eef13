// XPath 1.0 lexical rules (section 3.7) and an independent recogniser over token sequences.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
namespace xt {

typedef std::vector<std::string> Toks;
inline bool nstart(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool nchar(char c) { return nstart(c) || (c >= '0' && c <= '9') || c == '-' || c == '.'; }
inline bool dig(char c) { return c >= '0' && c <= '9'; }

// tokens of a well-formed expression
inline Toks lex(const std::string& s)
{
  Toks t; size_t i = 0, n = s.size();
  auto at = [&](size_t k) { return k < n ? s[k] : '\0'; };
  while(i < n)
  {
    char ch = s[i]; size_t b = i;
    if(ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') { ++i; continue; }
    if(ch == '"' || ch == '\'') { i = s.find(ch, i + 1) + 1; }
    else if(dig(ch) || (ch == '.' && dig(at(i + 1)))) { while(dig(at(i))) ++i; if(at(i) == '.') { ++i; while(dig(at(i))) ++i; } }
    else if(nstart(ch) || ch == '$')
    {
      ++i; while(nchar(at(i))) ++i;
      if(at(i) == ':' && (nstart(at(i + 1)) || at(i + 1) == '*')) { ++i; if(at(i) == '*') ++i; else while(nchar(at(i))) ++i; }
    }
    else { std::string two = s.substr(i, 2); i += (two == "::" || two == "//" || two == ".." || two == "!=" || two == "<=" || two == ">=") ? 2 : 1; }
    t.push_back(s.substr(b, i - b));
  }
  return t;
}

enum Verdict { ACCEPT, REJECT, UNRESOLVED, EITHER };   // EITHER: an operator name run together with what follows it (1div2), which this library takes on purpose
// UNRESOLVED: grammatical, but names an unknown function, prefix or argument count

struct Recogniser
{
  enum K { NAMETEST, NODETYPE, FUNC, AXIS, OP, LITERAL, NUMBER, VARREF, PUNCT, BAD };
  struct T { K k; std::string s; };
  std::vector<T> t; size_t i = 0; bool unresolved = false, glued = false;
  std::map<std::string, std::pair<int, int> > functions;   // name -> arity range (-1: any)
  std::set<std::string> prefixes;

  Recogniser()
  {
    functions = { { "position", { 0, 0 } }, { "last", { 0, 0 } }, { "count", { 1, 1 } }, { "local-name", { 0, 1 } }, { "namespace-uri", { 0, 1 } }, { "name", { 0, 1 } },
      { "string", { 0, 1 } }, { "concat", { 2, -1 } }, { "starts-with", { 2, 2 } }, { "contains", { 2, 2 } }, { "substring-before", { 2, 2 } }, { "substring-after", { 2, 2 } },
      { "substring", { 2, 3 } }, { "string-length", { 0, 1 } }, { "normalize-space", { 0, 1 } }, { "translate", { 3, 3 } }, { "boolean", { 1, 1 } }, { "not", { 1, 1 } },
      { "true", { 0, 0 } }, { "false", { 0, 0 } }, { "number", { 0, 1 } }, { "sum", { 1, 1 } }, { "floor", { 1, 1 } }, { "ceiling", { 1, 1 } }, { "round", { 1, 1 } } };
  }
  bool operator_tok(const T& x) const { return x.k == OP || (x.k == PUNCT && (x.s == "/" || x.s == "//")); }
  void classify(const Toks& in)
  {
    for(size_t k = 0; k < in.size(); ++k)
    {
      const std::string& s = in[k]; T x; x.s = s;
      bool first = t.empty();
      bool after = !first && !(operator_tok(t.back()) || (t.back().k == PUNCT && (t.back().s == "@" || t.back().s == "::" || t.back().s == "(" || t.back().s == "[" || t.back().s == ",")));
      std::string next = k + 1 < in.size() ? in[k + 1] : "";
      if(s[0] == '"' || s[0] == '\'') x.k = LITERAL;
      else if(dig(s[0]) || (s[0] == '.' && s.size() > 1 && s != "..")) x.k = NUMBER;
      else if(s[0] == '$') x.k = s.size() > 1 ? VARREF : BAD;
      else if(s == "*") x.k = after ? OP : NAMETEST;
      else if(s == "|" || s == "+" || s == "-" || s == "=" || s == "!=" || s == "<" || s == "<=" || s == ">" || s == ">=") x.k = OP;
      else if(nstart(s[0]))
      {
        bool plain = s.find(':') == std::string::npos;
        if(after) for(const char* op : { "and", "or", "mod", "div" }) if(s.size() > strlen(op) && s.compare(0, strlen(op), op) == 0) glued = true;
        if(after && plain) x.k = (s == "and" || s == "or" || s == "mod" || s == "div") ? OP : BAD;
        else if(next == "(" && s[s.size() - 1] != '*')
          x.k = (s == "comment" || s == "text" || s == "processing-instruction" || s == "node") ? NODETYPE : FUNC;
        else if(next == "::" && plain) x.k = axis(s) ? AXIS : BAD;
        else x.k = NAMETEST;
      }
      else x.k = PUNCT;
      t.push_back(x);
    }
  }
  static bool axis(const std::string& s)
  {
    static const std::set<std::string> a = { "ancestor", "ancestor-or-self", "attribute", "child", "descendant", "descendant-or-self", "following", "following-sibling",
      "namespace", "parent", "preceding", "preceding-sibling", "self" };
    return a.count(s) != 0;
  }
  struct No { };
  bool is(K k, const char* s) const { return i < t.size() && t[i].k == k && t[i].s == s; }
  bool punct(const char* s) const { return is(PUNCT, s); }
  bool kind(K k) const { return i < t.size() && t[i].k == k; }
  void need(const char* s) { if(!punct(s)) throw No(); ++i; }
  void prefix(const std::string& s) { size_t c = s.find(':'); if(c != std::string::npos && !prefixes.count(s.substr(s[0] == '$' ? 1 : 0, c - (s[0] == '$' ? 1 : 0)))) unresolved = true; }

  void expr() { binary(0); }
  void binary(int level)
  {
    static const std::vector<std::vector<std::string> > ops = { { "or" }, { "and" }, { "=", "!=" }, { "<", "<=", ">", ">=" }, { "+", "-" }, { "*", "div", "mod" } };
    if(level == 6) { while(is(OP, "-")) ++i; uni(); return; }
    binary(level + 1);
    for(;;)
    {
      bool f = false;
      for(auto& o : ops[level]) if(is(OP, o.c_str())) f = true;
      if(!f) return;
      ++i; binary(level + 1);
    }
  }
  void uni() { path(); while(is(OP, "|")) { ++i; path(); } }
  bool primary_first() const { return kind(VARREF) || punct("(") || kind(LITERAL) || kind(NUMBER) || kind(FUNC); }
  bool step_first() const { return punct(".") || punct("..") || punct("@") || kind(AXIS) || kind(NAMETEST) || kind(NODETYPE); }
  void path()
  {
    if(primary_first())
    {
      primary();
      while(punct("[")) pred();
      if(punct("/") || punct("//")) { ++i; relative(); }
      return;
    }
    if(punct("/")) { ++i; if(step_first()) relative(); return; }
    if(punct("//")) { ++i; relative(); return; }
    relative();
  }
  void relative() { step(); while(punct("/") || punct("//")) { ++i; step(); } }
  void step()
  {
    if(punct(".") || punct("..")) { ++i; return; }
    if(punct("@")) ++i;
    else if(kind(AXIS)) { ++i; need("::"); }
    nodetest();
    while(punct("[")) pred();
  }
  void nodetest()
  {
    if(kind(NODETYPE)) { bool pi = t[i].s[0] == 'p'; ++i; need("("); if(pi && kind(LITERAL)) ++i; need(")"); return; }
    if(!kind(NAMETEST)) throw No();
    prefix(t[i].s); ++i;
  }
  void pred() { need("["); expr(); need("]"); }
  void primary()
  {
    if(kind(VARREF)) { prefix(t[i].s); ++i; return; }
    if(kind(LITERAL) || kind(NUMBER)) { ++i; return; }
    if(punct("(")) { ++i; expr(); need(")"); return; }
    if(!kind(FUNC)) throw No();
    std::string f = t[i].s; ++i; need("(");
    int n = 0;
    if(!punct(")")) { expr(); ++n; while(punct(",")) { ++i; expr(); ++n; } }
    need(")");
    auto g = functions.find(f);
    if(g == functions.end() || n < g->second.first || (g->second.second >= 0 && n > g->second.second)) unresolved = true;
  }
  Verdict run(const Toks& in)
  {
    classify(in);
    if(glued) return EITHER;
    for(auto& x : t) if(x.k == BAD) return REJECT;
    try { expr(); } catch(const No&) { return REJECT; }
    if(i != t.size()) return REJECT;
    return unresolved ? UNRESOLVED : ACCEPT;
  }
};

} // namespace xt
