// W01: the same work done with three string classes gives the same result.
#include "strx.hpp"
using namespace strx;

namespace {
void same(const Lines& a, const Lines& b, const char* what)
{
  for(size_t i = 0; i < std::max(a.size(), b.size()); ++i)
  {
    S x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
    if(x != y) pbt::fail("line ", i + 1, " of the record differs\n  std::string: ", pbt::esc(x), "\n  ", what, ": ", pbt::esc(y));
  }
}
S plain(S s) { for(auto& ch : s) if(static_cast<unsigned char>(ch) >= 0x80) ch = 'x'; return s; }
bool ascii(const S& s) { for(char ch : s) if(static_cast<unsigned char>(ch) >= 0x80) return false; return true; }
S text(pbt::Ctx& c, bool wide) { S r; c.list(0, c.chance(1, 30) ? 700 : 4, [&](int) { r += c.pick({ "x", " ", "1", "ab", "<", "&", "\"", "'", "]]>", "\n", "\t", "-", ":", "p:" }); if(wide && c.chance(1, 3)) r += c.pick({ "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc4\x80", "\xef\xbf\xbd", "\xe4\xb8\xad" }); }); return r; }
}

PBT_PROPERTY(W01, "the record of what was delivered has at least 6 lines, or the text has characters outside ASCII")
{
  Job j; int what = c.weighted({ 4, 3, 5, 4, 3, 3, 2 }); bool accents = false;
  static const char* names[] = { "parse", "filters", "DOM", "XPath", "XSLT", "HTML", "helpers" }; c.label(names[what]);
  if(what <= 2)
  {
    j.f = saxx::gen_features(c); j.f.external = c.chance(1, 3); saxx::Doc d = saxx::DocMaker(c, j.f).make(); j.xml = d.xml; j.ext = d.ext; if(what == 2) { j.f.ns = j.f.prefixes = true; }
    if(c.chance(1, 12) && !j.xml.empty()) { size_t at = c.below(j.xml.size()); j.xml.insert(at, c.pick({ "<", "&", ">", "</a>", "\"", "&no;", "<a>", "]]>" })); }
    j.indent = c.below(4); j.encoding = c.pick({ "", "utf-8", "ISO-8859-1" });
    if(what == 2)
    {
      bool wide = c.flip();   // offsets count the units of the string type, so they are used with ASCII text only
      if(!wide) { j.xml = plain(j.xml); for(auto& e : j.ext) e.second = plain(e.second); }
      c.list(0, 1 + c.size() / 8, [&](int) { Op o; do o.k = c.below(24); while(wide && o.k >= 9 && o.k <= 13); o.i = c.below(40); o.j = c.below(40); o.n = c.below(8); o.a = c.pick({ "a", "b", "p:a", "xml:a", "xmlns", "xmlns:q", "q", "", "1", "a b", ":", "p:", "item", "Core", "XML" }); if(wide && c.chance(1, 4)) o.a = "\xc3\xa9"; o.b = text(c, wide); if(c.chance(1, 6)) o.b = c.pick({ "1.0", "2.0", "i1", "x" }); o.c = c.pick({ "", "u1", "u2", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespace" }); c << "op " << o.k << " " << o.i << " " << o.j << " " << o.n << " " << o.a << " " << pbt::esc(o.b) << " " << o.c << "\n"; j.ops.push_back(o); });
    }
  }
  else if(what == 3)
  {
    model::Opts o; o.max_nodes = 18; o.nasty = false; bool wide = c.chance(1, 3); o.nonascii = wide; if(!wide) o.texts = { "x", "1", "2", "10", " 1 ", "ab", "foo", "a b", "-1", "1.5", " ", "0", "aba" };
    model::NodeP d = model::gen_doc(c, o); j.xml = model::to_xml(&c, *d); if(!wide) j.xml = plain(j.xml);
    xp::GOpts g; g.prefixes = { "p", "q", "x" }; g.names = o.names; g.nsaxis = false;
    c.list(1, 4, [&](int) {
      if(wide) { S l = c.pick({ "'\xc3\xa9'", "'\xe2\x82\xac'", "'x'", "'\xf0\x9f\x98\x80'", "' \xc3\xa9  \xc3\xa9 '" }), p = c.pick({ "//*", "/*", "//text()", "//@*", "//comment()", "." }); j.exprs.push_back(c.pick({ "contains(", "starts-with(", "substring-before(", "substring-after(", "concat(" }) + S(c.flip() ? p + "," + l : l + "," + p) + ")"); if(c.chance(1, 3)) j.exprs.back() = p + "[.=" + l + "]"; if(c.chance(1, 4)) j.exprs.back() = "normalize-space(" + j.exprs.back() + ")"; if(c.chance(1, 6)) j.exprs.back() = "//\xc3\xa9 | //*[name()='\xc3\xa9'] | //@\xc3\xa9"; }
      else { xp::EGen eg(c, g, 3 + c.size() / 6); xp::Printer pr(&c); j.exprs.push_back(pr.expr(eg.any(0), 0)); if(c.chance(1, 12)) j.exprs.back().insert(c.below(j.exprs.back().size()), c.pick({ "(", "]", "'", "|", "$", "::", "!" })); }
      c << "expr " << j.exprs.back() << "\n"; });
  }
  else if(what == 4)
  {
    model::Opts o; o.max_nodes = 14; o.max_depth = 4; o.nasty = false; o.nonascii = false; o.ns = c.chance(1, 3); o.texts = { "x", "1", "2", "10", " 1 ", "ab", "foo", "a b", "-1", "1.5", " ", "0", "x" };
    xw::World w; xw::make_world(c, w, o, false); j.xml = model::to_xml(&c, *w.m); j.params = c.pick({ "", "x", "1" });
    xr::Prog p; xr::Opt so; so.trace = c.flip(); so.imports = false; so.max_tmpls = 6; so.body_depth = 3; so.expr_budget = 3; xr::Gen g(c, so, p); g.program(); xr::Render rd(c, p); try { xr::Interp(p, w).execute(0); } catch(const xr::Blown&) { throw pbt::Discard(); } catch(const xr::Stopped&) { } catch(const xp::BadType&) { throw pbt::Discard(); } model::NodeP sh = rd.module(0, [](int) { return S("none.xsl"); }); j.sheet = model::to_xml(&c, *sh);
    if(!ascii(j.sheet)) j.sheet = plain(j.sheet);
    c << "sheet " << pbt::esc(j.sheet) << "\n";
  }
  else if(what == 5)
  {
    c.list(1, 4 + c.size() / 4, [&](int) { j.html += c.pick({ "<p>", "<b>", "</b>", "</p>", "<div class=x id='y'>", "<table>", "<td>", "</table>", "<li>", "text", " ", "&amp;", "&nbsp;", "&eacute;", "&#233;", "&#x20ac;", "&bogus;", "<br/>", "<script>a<b</script>", "<!-- c -->", "<bogus a=b>", "<o:p>", "<a href='x?a=1&b=2'>", "<option selected>", "\xc3\xa9", "\xe2\x82\xac", "<textarea>", "<?pi x?>", "<!DOCTYPE html>", "<img alt=\"\xc3\xa9\">", "<", ">", "<svg xmlns=\"u\">" }); });
  }
  else c.list(1, 6, [&](int) { S s = text(c, true); j.strings.push_back(s); c << "string " << pbt::esc(s.substr(0, 200)) << "\n"; accents = accents || !ascii(s); });
  c << pbt::esc(j.xml) << pbt::esc(j.html) << "\n"; for(auto& e : j.ext) c << e.first << ": " << pbt::esc(e.second) << "\n";
  Lines a = run_narrow(j, what);
  same(a, run_opaque(j, what), "a class of one's own");
  same(a, run_wide(j, what), "std::wstring");
  for(auto& l : a) accents = accents || !ascii(l);
  c.nontrivial(a.size() >= 6 || accents);
}
