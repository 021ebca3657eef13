// Match patterns: generator, spelling, default priority.
#pragma once
#include "xpref.hpp"

namespace xp {

inline EP gen_pattern(pbt::Ctx& c, const GOpts& g, int budget)
{
  EGen eg(c, g, budget);
  EP e = mk(PATH);
  int lead = c.weighted({ 5, 2, 2 });
  if(lead) e->abs = true;
  if(lead == 1 && c.chance(1, 4)) return e;                 // "/"
  bool dd = lead == 2; int n = 0;
  c.list(1, 4, [&](int) {
    if(dd || (n && c.chance(1, 3))) { Step d; d.ax = AX_DESCS; d.tk = T_NODE; e->steps.push_back(d); }
    dd = false;
    Step s; s.ax = c.chance(1, 5) ? AX_ATTR : AX_CHILD;
    s.tk = static_cast<TK>(c.weighted({ 10, 6, 2, 3, 3, 1, 1, 1 }));
    if(s.tk == T_NAME) { s.local = c.pick(g.names); if(c.chance(1, 5)) s.prefix = c.pick(g.prefixes); }
    if(s.tk == T_NSSTAR) s.prefix = c.pick(g.prefixes);
    if(s.tk == T_PILIT) s.local = c.pick({ "pi", "php", "target", "a" });
    if(c.chance(1, 3)) c.list(1, 2, [&](int) { s.preds.push_back(eg.predicate(2)); });
    e->steps.push_back(s); ++n;
  });
  return e;
}
inline double default_priority(const E& e)
{
  if(e.abs || e.steps.size() != 1 || !e.steps[0].preds.empty()) return 0.5;
  switch(e.steps[0].tk) { case T_NAME: case T_PILIT: return 0; case T_NSSTAR: return -0.25; default: return -0.5; }
}
// the pattern grammar allows child and attribute axes only; '//' must be spelt so
inline std::string pattern_text(pbt::Ctx& c, const E& e)
{
  Printer pr(&c); std::string one; bool need = false;
  if(e.abs) one = "/";
  for(size_t k = 0; k < e.steps.size(); ++k)
  {
    const Step& st = e.steps[k];
    if(st.ax == AX_DESCS) { one += e.abs && k == 0 ? "/" : "//"; need = false; continue; }
    if(need) one += "/"; need = true;
    one += (st.ax == AX_ATTR ? (c.chance(3, 4) ? "@" : "attribute::") : c.chance(4, 5) ? "" : "child::");
    Printer plain;
    one += (c.chance(1, 4) ? pr : plain).test(st) + pr.preds(st.preds);
  }
  return one;
}

} // namespace xp
