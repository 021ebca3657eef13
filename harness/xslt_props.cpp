// T01 - T05: XSLT.
#include "xsltref.hpp"
#include <XSLT/XSLT.hpp>
#include <fstream>
#include <regex>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
using namespace xw;
using namespace xr;

typedef Arabica::XSLT::Stylesheet<std::string> SS;
typedef Arabica::XSLT::StylesheetCompiler<std::string> SC;
typedef Arabica::XSLT::DOMSink<std::string> DOMSink;
typedef Arabica::XSLT::StreamSink<std::string> StreamSink;
typedef Arabica::SAX::InputSource<std::string> IS;

// a directory of our own for stylesheet modules, removed at exit
struct Scratch
{
  std::string dir; pid_t owner;
  Scratch() : owner(getpid()) { char t[] = "/tmp/pbt-xslt-XXXXXX"; if(!mkdtemp(t)) pbt::fail("harness: mkdtemp"); dir = t; mkdir((dir + "/sub").c_str(), 0700); }
  ~Scratch()
  {
    if(owner != getpid()) return;
    for(std::string d : { dir + "/sub", dir })
    { if(DIR* h = opendir(d.c_str())) { while(dirent* e = readdir(h)) if(e->d_name[0] == 'm' || e->d_name[0] == 'r') unlink((d + "/" + e->d_name).c_str()); closedir(h); } rmdir(d.c_str()); }
  }
};
static Scratch& scratch() { static std::unique_ptr<Scratch> s; if(!s || s->owner != getpid()) s.reset(new Scratch); return *s; }
static bool sub(int m) { return m % 3 == 2; }
static std::string file_of(int m) { return scratch().dir + (sub(m) ? "/sub/m" : "/m") + std::to_string(m) + ".xsl"; }
static std::string href(int from, int to)
{
  std::string n = "m" + std::to_string(to) + ".xsl";
  if(sub(from) == sub(to)) return n;
  return sub(to) ? "sub/" + n : "../" + n;
}
// the text of every module
static std::vector<std::string> texts(pbt::Ctx& c, Prog& p, std::vector<model::NodeP>* trees = 0)
{
  std::vector<std::string> r;
  for(size_t m = 0; m < p.mods.size(); ++m)
  {
    Render rd(c, p);
    model::NodeP d = rd.module(m, [&](int t) { return href(m, t); });
    r.push_back(model::to_xml(&c, *d));
    if(trees) trees->push_back(std::move(d));
  }
  return r;
}
static std::unique_ptr<SS> compile(SC& comp, const std::vector<std::string>& ts, bool stream)
{
  if(ts.size() == 1 && stream)
  { std::istringstream in(ts[0]); IS is(in); return comp.compile(is); }
  for(size_t m = 0; m < ts.size(); ++m) { std::ofstream f(file_of(m), std::ios::binary); f << ts[m]; }
  IS is(file_of(0));
  return comp.compile(is);
}
static std::string show(const std::vector<std::string>& ts)
{ std::string r; for(size_t m = 0; m < ts.size(); ++m) r += (ts.size() > 1 ? "\n m" + std::to_string(m) + (sub(m) ? " (sub): " : ": ") : std::string("\n ")) + ts[m]; return r; }

static model::Opts doc_opts(bool nasty = false)
{
  model::Opts o; o.max_nodes = 18; o.max_depth = 4; o.nasty = nasty; o.nonascii = nasty;
  if(!nasty) o.texts = { "x", "1", "2", "10", " 1 ", "ab", "foo", "a b", "-1", "1.5", " ", "0", "x" };
  return o;
}
// a document without random namespaces most of the time, so that rules apply
static void doc(pbt::Ctx& c, World& w, model::Opts o) { o.ns = c.chance(1, 3); make_world(c, w, o, false); }
static std::string canon_of(const model::Node& n) { std::string r; canon(n, r); return r; }
static std::string canon_of(const DNode& n) { if(n == 0) return ""; return canon_of(*from_dom(n)); }
static std::string canon_xml(const std::string& xml, const std::string& what)
{
  std::string err; DDoc d = domx::parse(xml, &err);
  if(!err.empty() || d == 0) pbt::fail("output does not parse: ", err, "\n ", xml, what);
  return canon_of(d);
}

struct Run
{
  Prog p; std::unique_ptr<Interp> in; model::NodeP want; std::vector<std::string> ts; bool stopped = false; int at = 0;
};
// generate a program and its expected result; false when the reference gives up
static bool prepare(pbt::Ctx& c, World& w, const Opt& o, Run& r)
{
  Gen g(c, o, r.p);
  if(!o.trace && !o.imports && !o.keys && c.chance(1, 15))
  {
    // a literal result element as the stylesheet
    r.p.lre = true; r.p.mods.resize(1);
    Tmpl t; Pat x; x.e = xp::mk(xp::PATH); x.e->abs = true; x.prio = 0.5; t.pats.push_back(x); t.pattern = "/"; t.prec = { 0 };
    t.body.push_back(g.literal(0)); r.p.tmpls.push_back(t); r.p.outs.clear();
    if(t.body[0]->fresh_ns) { t.body[0]->fresh_ns = false; t.body[0]->prefix = "p"; t.body[0]->uri = uri_of("p"); }
  }
  else g.program();
  r.at = 0;
  if(c.chance(1, 8)) { int i = c.below(w.x.n.size()); if(w.x.n[i].kind == xp::ELEM) r.at = i; }
  r.in.reset(new Interp(r.p, w));
  return true;
}
static bool reference_run(pbt::Ctx& c, Run& r)
{
  try { r.want = r.in->execute(r.at); }
  catch(const Blown&) { c.label("reference gave up"); return false; }
  catch(const Stopped&) { r.stopped = true; }
  catch(const xp::BadType&) { c.label("ill-typed"); return false; }
  return true;
}
static std::unique_ptr<SS> must_compile(pbt::Ctx& c, Run& r)
{
  SC comp;
  std::unique_ptr<SS> s = compile(comp, r.ts, c.flip());
  if(!s) pbt::fail("valid stylesheet refused: ", comp.error(), show(r.ts));
  pbt::require(comp.error().empty(), "error reported with a compiled stylesheet: ", comp.error());
  return s;
}
static std::string dom_result(SS& s, const DNode& at)
{
  DOMSink sink; s.set_output(sink);
  std::ostringstream msgs; s.set_error_output(msgs);
  s.execute(at);
  return canon_of(sink.node());
}

static void run_and_compare(pbt::Ctx& c, World& w, Run& r)
{
  r.ts = texts(c, r.p);
  c << "stylesheet" << show(r.ts) << "\n at " << w.show(r.at) << "\n";
  if(!reference_run(c, r)) throw pbt::Discard();
  std::unique_ptr<SS> s = must_compile(c, r);
  std::string got;
  try { got = dom_result(*s, w.dom[r.at]); }
  catch(const std::exception& x) { pbt::fail("execution failed: ", x.what(), show(r.ts), "\n on ", w.how); }
  std::string want = canon_of(*r.want);
  c << "result " << want.substr(0, 400) << "\n";
  if(got != want) pbt::fail("result is\n ", pbt::esc(got), "\n and should be\n ", pbt::esc(want), show(r.ts), "\n on ", w.how, " at ", w.show(r.at));
}

PBT_PROPERTY(T01, "at least 4 nodes were dispatched, at least 2 of them to template rules")
{
  World w; doc(c, w, doc_opts());
  Opt o; o.trace = true; o.imports = c.chance(2, 3); o.max_tmpls = 8; o.body_depth = 2; o.attrs = false; o.globals = c.chance(1, 4); o.expr_budget = 2;
  Run r; prepare(c, w, o, r);
  run_and_compare(c, w, r);
  c.nontrivial(r.in->applied >= 4 && r.in->chosen_user >= 2);
  if(r.p.mods.size() > 1) c.label("several modules");
}

PBT_PROPERTY(T02, "the result tree has at least 5 nodes")
{
  World w; doc(c, w, doc_opts());
  Opt o; o.imports = c.chance(1, 6); o.messages = c.chance(1, 4);
  Run r; prepare(c, w, o, r);
  run_and_compare(c, w, r);
  c.nontrivial(model::count(*r.want) > 5);
  if(r.in->sorted) c.label("sorted"); if(r.in->copied) c.label("copied"); if(r.in->called) c.label("called"); if(r.p.lre) c.label("literal result element stylesheet");
}

// ---------------------------------------------------------------- T04
PBT_PROPERTY(T04, "at least 2 key look-ups found at least 2 nodes")
{
  World w[2]; int nw = c.range(1, 2);
  for(int i = 0; i < nw; ++i) { auto o = doc_opts(); o.max_nodes = 24; doc(c, w[i], o); }
  Opt o; o.keys = true; o.imports = c.chance(1, 3); o.modes = false; o.globals = c.chance(1, 3); o.expr_budget = 2; o.max_tmpls = 3; o.body_depth = 2; o.attrs = false;
  Run r; Gen g(c, o, r.p); g.program();
  if(r.p.keys.empty()) throw pbt::Discard();
  r.ts = texts(c, r.p);
  c << "stylesheet" << show(r.ts) << "\n";
  std::unique_ptr<SS> s = must_compile(c, r);
  int keyed = 0, hits = 0, ran = 0;
  c.list(1, 4, [&](int) {
    World& x = w[c.below(nw)];
    // sometimes a value changes first
    if(c.chance(1, 3))
    {
      int n = c.below(x.x.n.size()); auto& xn = x.x.n[n];
      if((xn.kind == xp::ATTR || (xn.kind == xp::TEXT && x.dom[n].getNextSibling() == 0)) && x.dom[n] != 0)
      {
        std::string v = c.pick({ "x", "1", "2", "10", "ab", "foo" });
        DNode t = x.dom[n];
        if(xn.kind == xp::ATTR) { t.setNodeValue(v); xn.value = v; }
        else { t.setNodeValue(v); xn.value = v; }
        c << "changed " << x.show(n) << "\n";
      }
    }
    Interp in(r.p, x); int at = 0;
    if(c.chance(1, 5)) { at = c.below(x.x.n.size()); if(x.x.n[at].kind != xp::ELEM) at = 0; }
    model::NodeP want;
    try { want = in.execute(at); }
    catch(const Blown&) { return; }
    catch(const xp::BadType&) { return; }
    std::string got, exp = canon_of(*want);
    try { got = dom_result(*s, x.dom[at]); }
    catch(const std::exception& e) { pbt::fail("execution failed: ", e.what(), show(r.ts), "\n on ", x.how); }
    if(got != exp) pbt::fail("run ", ran, " gives\n ", pbt::esc(got), "\n and should give\n ", pbt::esc(exp), show(r.ts), "\n on ", x.how, " at ", x.show(at));
    ++ran; keyed += in.keyed; hits += in.keyhits;
  });
  if(!ran) throw pbt::Discard();
  c.nontrivial(keyed >= 2 && hits >= 2);
  if(ran > 1) c.label("several runs");
}

// ---------------------------------------------------------------- T03
// what the xsl:output elements amount to
static std::map<std::string, std::string> settings(Prog& p, std::set<std::string>& cdata)
{
  std::vector<Output*> os; for(auto& x : p.outs) os.push_back(&x);
  std::sort(os.begin(), os.end(), [](Output* a, Output* b) { return Interp::less(a->prec, b->prec) || (!Interp::less(b->prec, a->prec) && a->order < b->order); });
  std::map<std::string, std::string> r;
  for(auto* x : os)
    for(auto& a : x->at)
    {
      r[a.first] = a.second;
      if(a.first != "cdata-section-elements") continue;
      std::istringstream in(a.second); std::string q;
      while(in >> q) cdata.insert(q.find(':') == std::string::npos ? "{" + p.defns + "}" + q : clark(q));
    }
  return r;
}
// a canonical form that tells CDATA sections from text, or one that ignores white space around text
static void form(const model::Node& n, const std::set<std::string>* cdata, bool marks, bool trim, std::string& r)
{
  if(n.kind == model::COMMENT || n.kind == model::PI) { canon(n, r); return; }
  if(n.kind == model::ELEM)
  {
    model::Node e(model::ELEM); e.local = n.local; e.uri = n.uri; e.attrs = n.attrs; std::string h; canon(e, h); r += h.substr(0, h.size() - 3);
  }
  std::string run; bool t = false, d = false;
  auto flush = [&]() {
    if(trim) { size_t b = run.find_first_not_of(" \t\n\r"), e = run.find_last_not_of(" \t\n\r"); run = b == std::string::npos ? "" : run.substr(b, e - b + 1); }
    if(!run.empty()) r += std::string(marks ? t && d ? "M[" : d ? "D[" : "T[" : "T[") + run + "]";
    run = ""; t = d = false; };
  for(auto& k : n.kids)
  {
    if(k->kind != model::TEXT && k->kind != model::CDATA) { flush(); form(*k, cdata, marks, trim, r); continue; }
    if(k->value.empty()) continue;
    run += k->value;
    if(cdata ? n.kind == model::ELEM && cdata->count("{" + n.uri + "}" + n.local) : k->kind == model::CDATA) d = true; else t = true;
  }
  flush();
  if(n.kind == model::ELEM) r += "</>";
}
static std::string form(const model::Node& n, const std::set<std::string>* cdata, bool marks, bool trim) { std::string r; form(n, cdata, marks, trim, r); return r; }

static bool whole(const std::string& s)
{
  for(size_t i = 0; i < s.size(); )
  {
    unsigned char h = s[i]; int n = h < 0x80 ? 1 : h < 0xC2 ? 0 : h < 0xE0 ? 2 : h < 0xF0 ? 3 : h < 0xF5 ? 4 : 0;
    if(!n || i + n > s.size()) return false;
    for(int k = 1; k < n; ++k) if((static_cast<unsigned char>(s[i + k]) & 0xC0) != 0x80) return false;
    if((h == 0xE0 && static_cast<unsigned char>(s[i + 1]) < 0xA0) || (h == 0xED && static_cast<unsigned char>(s[i + 1]) > 0x9F) || (h == 0xF0 && static_cast<unsigned char>(s[i + 1]) < 0x90)) return false;
    i += n;
  }
  return true;
}
static std::string attribute_of(const std::string& decl, const std::string& name)
{
  size_t p = decl.find(name + "="); if(p == std::string::npos) return "";
  p += name.size() + 1; char q = decl[p]; size_t e = decl.find(q, p + 1); return decl.substr(p + 1, e - p - 1);
}

PBT_PROPERTY(T03, "the result tree has at least 4 nodes and one of: xsl:output, an attribute, a namespace, text that needs escaping")
{
  World w; doc(c, w, doc_opts(true));
  Opt o; o.outputs = c.chance(3, 4); o.nasty = true; o.imports = c.chance(1, 5); o.modes = false; o.globals = c.chance(1, 4); o.expr_budget = 2; o.max_tmpls = 5;
  Run r; prepare(c, w, o, r);
  std::set<std::string> cdata; std::map<std::string, std::string> set = settings(r.p, cdata);
  bool text = set["method"] == "text", indent = set["indent"] == "yes";
  r.ts = texts(c, r.p);
  c << "stylesheet" << show(r.ts) << "\n at " << w.show(r.at) << "\n";
  if(!reference_run(c, r)) throw pbt::Discard();
  model::NodeP want = std::move(r.want);
  // XML has no way to write a carriage return here: it reads back as a line feed
  std::function<void(model::Node&)> line_ends = [&](model::Node& n) {
    if(n.kind == model::COMMENT || n.kind == model::PI || (n.kind == model::TEXT && n.parent && n.parent->kind == model::ELEM && cdata.count("{" + n.parent->uri + "}" + n.parent->local)))
      n.value = std::regex_replace(n.value, std::regex("\r\n?"), "\n");
    for(auto& k : n.kids) line_ends(*k); };
  Interp si(r.p, w); si.stream = !text; si.cdata = cdata; model::NodeP swant;
  try { swant = si.execute(r.at); } catch(const Blown&) { throw pbt::Discard(); } catch(const xp::BadType&) { throw pbt::Discard(); }
  // string functions count the units of the string type, and may cut a character in two
  if(!whole(canon_of(*swant))) { c.label("cut character"); throw pbt::Discard(); }
  std::unique_ptr<SS> s = must_compile(c, r);
  std::ostringstream msgs; s->set_error_output(msgs);
  std::string where = show(r.ts) + "\n on " + w.how + " at " + w.show(r.at);

  // the tree
  DOMSink ds; s->set_output(ds);
  int times = c.range(1, 2);
  for(int i = 0; i < times; ++i)
  {
    try { s->execute(w.dom[r.at]); } catch(const std::exception& x) { pbt::fail("execution failed: ", x.what(), where); }
    model::NodeP got(new model::Node(model::FRAG)); if(ds.node() != 0) got = from_dom(ds.node());
    std::string g, x;
    if(text) { g = form(*got, 0, true, false); std::string t = want->text(); x = t.empty() ? "" : "T[" + t + "]"; if(indent) { g = form(*got, 0, false, true); } if(indent) { model::Node f(model::FRAG); f.add(model::TEXT, t); x = form(f, 0, false, true); } }
    else { g = form(*got, 0, !indent, indent); x = form(*want, &cdata, !indent, indent); }
    if(g != x) pbt::fail("tree ", i, " is\n ", pbt::esc(g), "\n and should be\n ", pbt::esc(x), where);
  }

  // the text
  std::ostringstream out; StreamSink ss(out); s->set_output(ss);
  for(int i = 0; i < times; ++i)
  {
  out.str(""); s->execute(w.dom[r.at]);
  std::string first = out.str();
  c << "output " << first.substr(0, 500) << "\n";
  if(text)
  {
    std::string t = swant->text();
    if(indent) { auto strip = [](std::string v) { size_t b = v.find_first_not_of(" \t\n\r"), e = v.find_last_not_of(" \t\n\r"); return b == std::string::npos ? std::string() : v.substr(b, e - b + 1); }; t = strip(t); first = strip(first); }
    if(first != t) pbt::fail("text method wrote\n ", pbt::esc(first), "\n and should write\n ", pbt::esc(t), where);
    c.nontrivial(t.size() > 2); c.label("text method");
    continue;
  }
  std::string rest = first, decl, dt;
  bool empty = swant->kids.empty();
  line_ends(*swant);
  if(rest.compare(0, 6, "<?xml ") == 0)
  {
    size_t e = rest.find("?>"); decl = rest.substr(0, e + 2); rest = rest.substr(e + 2); if(!rest.empty() && rest[0] == '\n') rest = rest.substr(1);
    pbt::require(set["omit-xml-declaration"] != "yes", "the declaration was to be omitted: ", pbt::esc(first), where);
    pbt::require_eq(attribute_of(decl, "version"), std::string("1.0"), "version in " + pbt::esc(first) + where);
    pbt::require_eq(attribute_of(decl, "standalone"), set["standalone"], "standalone in " + pbt::esc(first) + where);
  }
  else if(set["omit-xml-declaration"] != "yes" && !empty) pbt::fail("no XML declaration: ", pbt::esc(first), where);
  int elems = 0, texts_ = 0; const model::Node* root = 0;
  for(auto& k : swant->kids) { if(k->kind == model::ELEM) { if(!elems++) root = k.get(); } if(k->kind == model::TEXT) ++texts_; }
  size_t p = rest.find("<!DOCTYPE ");
  bool wantdt = !set["doctype-system"].empty() && root;
  if(wantdt != (p != std::string::npos)) pbt::fail(wantdt ? "no" : "unexpected", " document type declaration in ", pbt::esc(first), where);
  if(wantdt)
  {
    size_t e = rest.find('>', p); dt = rest.substr(p, e + 1 - p); rest = rest.substr(0, p) + rest.substr(e + 1 + (rest[e + 1] == '\n'));
    std::vector<std::string> tok, exp; std::string cur; char q = 0;
    for(char ch : dt.substr(2, dt.size() - 3)) { if(q) { if(ch == q) { tok.push_back("'" + cur); cur = ""; q = 0; } else cur += ch; } else if(ch == '"' || ch == '\'') q = ch; else if(isspace(static_cast<unsigned char>(ch))) { if(!cur.empty()) tok.push_back(cur); cur = ""; } else cur += ch; }
    if(!cur.empty()) tok.push_back(cur);
    size_t n = rest.find_first_of(" \t\n/>", rest.find("<", p) + 1); std::string q1 = rest.substr(rest.find("<", p) + 1, n - rest.find("<", p) - 1);
    exp = { "DOCTYPE", q1 };
    if(!set["doctype-public"].empty()) { exp.push_back("PUBLIC"); exp.push_back("'" + set["doctype-public"]); } else exp.push_back("SYSTEM");
    exp.push_back("'" + set["doctype-system"]);
    if(tok != exp) pbt::fail("document type declaration ", pbt::esc(dt), " in ", pbt::esc(first), where);
    c.label("doctype");
  }
  bool single = elems == 1 && !texts_;
  std::string doc = single ? (decl + rest) : "<w>" + rest + "</w>", err;
  DDoc d = domx::parse(doc, &err);
  if(!err.empty() || d == 0) pbt::fail("the output does not parse: ", err, "\n ", pbt::esc(first), where);
  model::NodeP back = from_dom(d);
  if(!single) { model::NodeP in = std::move(back->kids[0]); in->kind = model::FRAG; in->parent = 0; back = std::move(in); }
  std::string g = form(*back, 0, !indent, indent), x = form(*swant, &cdata, !indent, indent);
  if(g != x) pbt::fail("the output is\n ", pbt::esc(g), "\n and should be\n ", pbt::esc(x), "\n written as\n ", pbt::esc(first), where);
  bool spicy = !r.p.outs.empty();
  std::function<void(const model::Node&)> look = [&](const model::Node& n) { if(!n.attrs.empty() || !n.uri.empty() || n.value.find_first_of("<>&\"\r\n") != std::string::npos) spicy = true; for(auto& k : n.kids) look(*k); };
  look(*swant);
  c.nontrivial(model::count(*swant) > 4 && spicy);
  if(indent) c.label("indented"); if(!cdata.empty()) c.label("CDATA elements"); if(!single) c.label("not a document");
  }
}
// ---------------------------------------------------------------- T05
struct Fault { std::string name; std::function<void()> apply; };
static void faults(pbt::Ctx& c, Prog& p, model::Node& n, std::vector<Fault>& fs)
{
  using model::Node;
  auto xsl = [&p](const std::string& l) { model::NodeP e(new Node(model::ELEM)); e->prefix = p.xs; e->local = l; return e; };
  auto is = [&p](const Node& x, const char* l) { return x.kind == model::ELEM && x.prefix == p.xs && x.local == l; };
  auto attr = [](Node& x, const std::string& l) -> model::Attr* { for(auto& a : x.attrs) if(a.prefix.empty() && a.local == l) return &a; return 0; };
  auto put = [](Node& x, const std::string& l, const std::string& v) { for(auto& a : x.attrs) if(a.prefix.empty() && a.local == l) { a.value = v; return; } model::Attr a; a.local = l; a.value = v; x.attrs.push_back(a); };
  auto in = [](const std::string& l, std::initializer_list<const char*> s) { for(auto x : s) if(l == x) return true; return false; };
  if(n.kind == model::ELEM && n.prefix != p.xs)
    for(auto& a : n.attrs) if(a.prefix.compare(0, 5, "xmlns") != 0 && a.local != "xmlns")
    { auto* q = &a; fs.push_back({ "unbalanced brace in a literal element's attribute", [q, &c] { q->value += c.pick({ "{", "{a", "{a[}", "{]}", "{'a}" }); } }); }
  if(n.kind == model::ELEM && n.prefix == p.xs)
  {
    Node* x = &n; std::string L = n.local; bool root = in(L, { "stylesheet", "transform" });
    auto add = [&fs, L](const std::string& name, std::function<void()> f) { fs.push_back({ name + " on " + L, f }); };
    if(!root) add("unknown instruction", [x, &c] { x->local = c.pick({ "bogus", "Template", "if-not", "valueof", "stylesheet" }); });
    add("unknown attribute", [x, put, &c] { put(*x, c.pick({ "bogus", "selct", "Name", "tests" }), "1"); });
    // mandatory attributes
    static const std::vector<std::pair<const char*, const char*> > must = { {"value-of","select"},{"for-each","select"},{"if","test"},{"when","test"},{"copy-of","select"},{"variable","name"},{"param","name"},{"with-param","name"},{"call-template","name"},{"element","name"},{"attribute","name"},{"processing-instruction","name"},{"key","name"},{"key","match"},{"key","use"},{"import","href"},{"include","href"},{"stylesheet","version"},{"transform","version"} };
    for(auto& m : must) if(L == m.first) { std::string an = m.second; add("missing " + an, [x, an] { for(size_t i = 0; i < x->attrs.size(); ++i) if(x->attrs[i].prefix.empty() && x->attrs[i].local == an) x->attrs.erase(x->attrs.begin() + i--); }); }
    if(L == "template") add("neither match nor name", [x] { for(size_t i = 0; i < x->attrs.size(); ++i) if(x->attrs[i].local == "match" || x->attrs[i].local == "name" || x->attrs[i].local == "mode" || x->attrs[i].local == "priority") x->attrs.erase(x->attrs.begin() + i--); });
    // expressions and patterns
    for(auto an : { "select", "test", "use" })
      if(model::Attr* a = attr(n, an))
      {
        add("bad expression", [a, &c] { a->value = c.flip() ? a->value + c.pick({ " ]", " )", " +", "[", "/@" , " '", " \"x", "//", " 1 1", "::" }) : std::string(c.pick({ "", "(", "a[", "$", "1 +", "a b", "*x*", "..a", "@", "foo::a", "child::", "a[]", "f(", "f(,)", "/ a /" })); });
        add("unbound prefix", [a, &c] { a->value = c.pick({ "nope:a", "@nope:*", "a/nope:b", "nope:f()", "$nope:v" }); });
        add("unknown function", [a, &c] { a->value = c.pick({ "nope()", "a[nope(1)]", "document-root()" }); });
        add("wrong number of arguments", [a, &c] { a->value = c.pick({ "concat('a')", "not()", "true(1)", "contains('a')", "translate('a','b')", "count()" }); });
      }
    if(model::Attr* a = attr(n, "match"))
    {
      add("bad pattern", [a, &c] { a->value = c.flip() ? a->value + c.pick({ " ]", " |", "[", "/@", " and a", "//", "(" }) : std::string(c.pick({ "", "..", ".", "parent::a", "ancestor::a/b", "a + 1", "'x'", "1", "following-sibling::b", "f()", "a|", "$x", "descendant::a" })); });
      add("unbound prefix", [a, &c] { a->value = c.pick({ "nope:a", "@nope:*", "a/nope:b" }); });
    }
    if(in(L, { "element", "attribute", "processing-instruction" }))
      if(model::Attr* a = attr(n, "name")) add("bad attribute value template", [a, &c] { a->value += c.pick({ "{", "{a", "{a[}", "{]}", "{'a}" }); });
    // names
    if(in(L, { "variable", "param", "with-param", "call-template", "template", "key" }))
      if(model::Attr* a = attr(n, "name")) { add("bad name", [a, &c] { a->value = c.pick({ "1a", "a:", ":a", "a b", "a:b:c", "-x", "{a}" }); }); add("unbound prefix in a name", [a] { a->value = "nope:" + a->value.substr(a->value.find(':') == std::string::npos ? 0 : a->value.find(':') + 1); }); }
    if(in(L, { "template", "apply-templates" }) && (L != "template" || attr(n, "match")))
      add("bad mode", [x, put, &c] { put(*x, "mode", c.pick({ "1a", "nope:m", "a:", "a b" })); });
    if(L == "template" && attr(n, "match")) add("bad priority", [x, put, &c] { put(*x, "priority", c.pick({ "high", "1.2.3", "1e", "-", "." })); });
    if(L == "template" && !attr(n, "match")) add("mode without match", [x, put, &c] { put(*x, "mode", c.pick({ "a", "m" })); });
    if(L == "template") { add("empty attribute", [x, put, &c] { put(*x, c.pick({ "match", "name" }), ""); });
                          if(attr(n, "match")) add("bad priority", [x, put, &c] { put(*x, "priority", c.pick({ "", "high", "1 2", "1,5", "--1" })); }); }
    // enumerations
    if(in(L, { "text", "value-of" })) add("bad enumerated value", [x, put, &c] { put(*x, "disable-output-escaping", c.pick({ "maybe", "true", "", "YES" })); });
    if(L == "message") add("bad enumerated value", [x, put, &c] { put(*x, "terminate", c.pick({ "maybe", "true", "1" })); });
    if(L == "output") add("bad enumerated value", [x, put, &c] { put(*x, c.pick({ "indent", "omit-xml-declaration", "standalone", "method" }), c.pick({ "maybe", "true", "1" })); });
    if(root) add("wrong version", [x, put, &c] { put(*x, "version", c.pick({ "one", "" })); });
    // content
    auto stuff = [x, xsl, &c, &p] {
      int w = c.below(3);
      if(w == 0) x->add(model::TEXT, "stray"); else if(w == 1) { model::NodeP e(new Node(model::ELEM)); e->local = "stray"; x->add(std::move(e)); }
      else { model::NodeP e = xsl("text"); e->add(model::TEXT, "x"); x->add(std::move(e)); } };
    if(in(L, { "value-of", "copy-of", "apply-imports", "sort", "include", "import", "key", "output" })) add("content", stuff);
    if(in(L, { "variable", "param", "with-param" }) && attr(n, "select")) add("content and select", stuff);
    if(in(L, { "apply-templates", "call-template", "choose" })) add("stray content", stuff);
    if(L == "text") add("element content", [x, xsl, &c, &p] { if(c.flip()) { x->add(xsl("text")); } else { model::NodeP e(new Node(model::ELEM)); e->local = "b"; x->add(std::move(e)); } });
    if(L == "call-template" || L == "choose") add("sort", [x, xsl] { x->add(xsl("sort")); });
    bool content = false; for(auto& k : n.kids) if((k->kind == model::TEXT || k->kind == model::CDATA) ? k->value.find_first_not_of(" \t\r\n") != std::string::npos : k->kind == model::ELEM && !is(*k, "param") && !is(*k, "sort")) content = true;
    if(L == "choose")
    {
      add("no when", [x, is] { for(size_t i = 0; i < x->kids.size(); ++i) if(is(*x->kids[i], "when")) x->kids.erase(x->kids.begin() + i--); });
      add("two otherwise", [x, xsl] { x->add(xsl("otherwise")); x->add(xsl("otherwise")); });
      add("when after otherwise", [x, xsl, put] { x->add(xsl("otherwise")); model::NodeP w = xsl("when"); put(*w, "test", "1"); x->add(std::move(w)); });
    }
    if(in(L, { "template", "if", "for-each", "element", "copy", "when", "otherwise", "comment", "attribute", "message" }))
    {
      add("misplaced child", [x, xsl, put, &c] {
        std::string k = c.pick({ "when", "otherwise", "with-param", "template", "output", "key", "import", "include", "stylesheet", "attribute-set", "strip-space" });
        model::NodeP e = xsl(k); if(k == "when") put(*e, "test", "1"); if(k == "with-param") put(*e, "name", "x"); if(k == "template") put(*e, "match", "a"); if(k == "import" || k == "include") put(*e, "href", "m0.xsl"); if(k == "key") { put(*e, "name", "a"); put(*e, "match", "a"); put(*e, "use", "a"); }
        x->add(std::move(e)); });
      if(L != "for-each" || content) add("misplaced sort", [x, xsl] { x->add(xsl("sort")); });
      if(L != "template" || content) add("misplaced param", [x, xsl, put] { model::NodeP e = xsl("param"); put(*e, "name", "late"); x->add(std::move(e)); });
    }
    if(root)
    {
      add("text at the top level", [x, &c] { x->add(model::TEXT, c.pick({ "stray", "0", " . " })); });
      add("element in no namespace at the top level", [x] { model::NodeP e(new Node(model::ELEM)); e->local = "stray"; e->ns.push_back(std::make_pair("", "")); x->add(std::move(e)); });
      add("instruction at the top level", [x, xsl, put, &c] { std::string k = c.pick({ "if", "text", "apply-imports", "copy", "choose", "comment", "otherwise", "sort", "with-param" }); model::NodeP e = xsl(k); if(k == "if") put(*e, "test", "1"); if(k == "with-param") put(*e, "name", "x"); x->add(std::move(e)); });
      add("duplicate named template", [x, xsl, put] { for(int i = 0; i < 2; ++i) { model::NodeP e = xsl("template"); put(*e, "name", "twin"); x->add(std::move(e)); } });
      add("missing module", [x, xsl, put, &c] { model::NodeP e = xsl("include"); put(*e, "href", "missing.xsl"); x->add(std::move(e)); });
      add("includes itself", [x, xsl, put, &c] { model::NodeP e = xsl("include"); put(*e, "href", "m0.xsl"); x->add(std::move(e)); });
    }
  }
  for(auto& k : n.kids) faults(c, p, *k, fs);
}

PBT_PROPERTY(T05, "a faulty stylesheet was refused, or one stylesheet ran at least twice")
{
  if(c.chance(3, 5))
  {
    // one fault
    Prog p; Opt o; o.imports = c.chance(1, 3); o.keys = c.chance(1, 4); o.messages = c.chance(1, 3); o.outputs = c.chance(1, 4); o.expr_budget = 1; o.max_tmpls = 4;
    Gen g(c, o, p); g.program();
    std::vector<model::NodeP> trees; std::vector<std::string> good = texts(c, p, &trees), bad = good;
    SC comp;
    c << "stylesheet" << show(good) << "\n";
    if(c.chance(1, 2)) { std::unique_ptr<SS> s = compile(comp, good, c.flip()); if(!s) pbt::fail("valid stylesheet refused: ", comp.error(), show(good)); }
    std::string what;
    if(c.chance(1, 8))
    {
      what = "malformed XML"; size_t m = c.below(bad.size()); std::string& t = bad[m];
      switch(c.below(4))
      {
        case 0: t = t.substr(0, c.below(t.rfind("<") + 1)); break;
        case 1: t += c.pick({ "<a/>", "x", "</a>", "&amp;" }); break;
        case 2: { size_t e = t.rfind("</"); if(e == std::string::npos) throw pbt::Discard(); t.insert(e, c.pick({ "<a>", "</b>", "&nope;", "<", "<a b></a>", "<a b='1' b='2'/>", "<u:v/>", "<!-- -- -->" })); break; }
        default: t = c.flip() ? "" : "just text"; break;
      }
    }
    else
    {
      std::vector<Fault> fs; for(auto& t : trees) faults(c, p, *t, fs);
      // spread over the kinds of fault
      std::map<std::string, std::vector<Fault*> > by; for(auto& f : fs) by[f.name].push_back(&f);
      size_t k = c.below(by.size()); auto it = by.begin(); std::advance(it, k);
      what = it->first; it->second[c.below(it->second.size())]->apply();
      for(size_t m = 0; m < bad.size(); ++m) bad[m] = model::to_xml(&c, *trees[m]);
    }
    c << "fault: " << what << show(bad) << "\n"; 
    bool stream = c.flip();
    if(what.find("includes itself") != std::string::npos || what.find("missing module") != std::string::npos) stream = false;
    std::unique_ptr<SS> s;
    try { s = compile(comp, bad, stream); }
    catch(const std::exception& e) { pbt::fail("compile threw ", e.what(), " for ", what, show(bad)); }
    if(s) pbt::fail("accepted: ", what, show(bad));
    if(comp.error().empty()) pbt::fail("refused without an error: ", what, show(bad));
    // and the compiler is as good as new
    std::unique_ptr<SS> t = compile(comp, good, c.flip());
    if(!t) pbt::fail("valid stylesheet refused after a faulty one: ", comp.error(), show(good));
    pbt::require(comp.error().empty(), "error left over: ", comp.error());
    c.nontrivial(true); c.label(what.substr(0, what.find(" on ")).c_str());
    return;
  }

  // histories: stylesheets from one compiler, run over and over
  World w[2]; int nw = c.range(1, 2);
  for(int i = 0; i < nw; ++i) { auto o = doc_opts(); o.max_nodes = 14; doc(c, w[i], o); }
  struct One { Prog p; std::vector<std::string> ts; std::unique_ptr<SS> s; std::map<std::string, xp::Value> set; };
  std::unique_ptr<SC> comp(new SC);
  One all[2]; int na = c.weighted({ 3, 2 }) + 1;
  for(int i = 0; i < na; ++i)
  {
    One& x = all[i];
    Opt o; o.messages = true; o.terminate = c.flip(); o.imports = c.chance(1, 4); o.keys = c.chance(1, 4); o.max_tmpls = 4; o.body_depth = 2; o.expr_budget = 2;
    Gen g(c, o, x.p); g.program();
    x.ts = texts(c, x.p);
    c << "stylesheet " << i << show(x.ts) << "\n";
    x.s = compile(*comp, x.ts, c.flip());
    if(!x.s) pbt::fail("valid stylesheet refused: ", comp->error(), show(x.ts));
  }
  if(c.flip()) comp.reset();
  int ran = 0, failed = 0, params = 0;
  c.list(2, 7, [&](int) {
    One& x = all[c.below(na)];
    if(!x.s) return;
    // parameters
    std::vector<std::string> names; for(auto& gl : x.p.globals) names.push_back(gl.var->s);
    for(int k = c.weighted({ 4, 2, 1 }); k > 0 && !names.empty(); --k)
    {
      std::string n = c.chance(1, 8) ? "unheard-of" : c.pick(names);
      c << "  set " << n << " = ";
      switch(n[0])
      {
        case 'n': { double v = c.pick(std::vector<double>{ 0.0, 1.0, -2.0, 1.5, 1e10, std::nan("") }); x.s->set_parameter(n, v); x.set[n] = xp::Value::N(v); c << v << "\n"; ++params; break; }
        case 'b': { bool v = c.flip(); x.s->set_parameter(n, v); x.set[n] = xp::Value::B(v); c << v << "\n"; ++params; break; }
        case 's': case 'u': { std::string v = c.pick({ "", "x", "a<b&", "1", " p:k " }); if(c.flip()) x.s->set_parameter(n, v); else x.s->set_parameter(n, v.c_str()); x.set[n] = xp::Value::S(v); c << v << "\n"; ++params; break; }
        default: c << "(no)\n";
      }
    }
    if(c.chance(1, 10))
    {
      DOMSink sink; x.s->set_output(sink); bool threw = false;
      c << "  run on nothing\n";
      try { x.s->execute(DNode()); } catch(const std::exception&) { threw = true; }
      if(!threw) pbt::fail("executed on no document");
      ++failed;
    }
    World& y = w[c.below(nw)];
    int at = 0; if(c.chance(1, 6)) { at = c.below(y.x.n.size()); if(y.x.n[at].kind != xp::ELEM) at = 0; }
    Interp in(x.p, y); in.external = x.set;
    model::NodeP want; bool stopped = false;
    try { want = in.execute(at); }
    catch(const Blown&) { c << "  reference gave up\n"; return; }
    catch(const xp::BadType&) { c << "  ill-typed\n"; return; }
    catch(const Stopped&) { stopped = true; }
    c << "  run on " << y.show(at) << (stopped ? " stops" : "") << "\n";
    DOMSink sink; std::ostringstream text, msgs; StreamSink tsink(text);
    bool dom = stopped || c.chance(3, 4);
    if(dom) x.s->set_output(sink); else x.s->set_output(tsink);
    x.s->set_error_output(msgs);
    std::string threw;
    try { x.s->execute(y.dom[at]); } catch(const std::exception& e) { threw = e.what(); if(threw.empty()) threw = "?"; }
    ++ran;
    if(stopped) { ++failed; if(threw.empty()) pbt::fail("not terminated by xsl:message", show(x.ts), "\n on ", y.how); }
    else if(!threw.empty()) pbt::fail("run ", ran, " failed: ", threw, show(x.ts), "\n on ", y.how);
    if(stopped) return;
    if(dom)
    {
      std::string got = canon_of(sink.node()), exp = canon_of(*want);
      if(got != exp) pbt::fail("run ", ran, " gives\n ", pbt::esc(got), "\n and should give\n ", pbt::esc(exp), show(x.ts), "\n on ", y.how, " at ", y.show(at));
    }
    else
    {
      SC fresh; std::unique_ptr<SS> f = compile(fresh, x.ts, c.flip());
      if(!f) pbt::fail("valid stylesheet refused: ", fresh.error(), show(x.ts));
      for(auto& v : x.set) if(v.second.t == xp::V_NUM) f->set_parameter(v.first, v.second.n); else if(v.second.t == xp::V_BOOL) f->set_parameter(v.first, v.second.b); else f->set_parameter(v.first, v.second.s);
      std::ostringstream ftext, fmsgs; StreamSink fsink(ftext); f->set_output(fsink); f->set_error_output(fmsgs);
      f->execute(y.dom[at]);
      if(text.str() != ftext.str() && text.str().find("auto-ns") == std::string::npos) pbt::fail("run ", ran, " gives\n ", pbt::esc(text.str()), "\n and freshly compiled\n ", pbt::esc(ftext.str()), show(x.ts), "\n on ", y.how, " at ", y.show(at));
    }
    if(c.chance(1, 10)) { c << "  destroyed\n"; x.s.reset(); }
  });
  if(ran < 2) throw pbt::Discard();
  c.nontrivial(true);
  c.label("history"); if(failed) c.label("history with a failed run"); if(params) c.label("history with parameters");
}

static bool outputs_not_merged()
{
  std::istringstream in("<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:output omit-xml-declaration='yes'/><xsl:output indent='no'/><xsl:template match='/'><a/></xsl:template></xsl:stylesheet>");
  IS is(in); SC comp; std::unique_ptr<SS> s = comp.compile(is);
  if(!s) return true;
  std::string err; DDoc d = domx::parse("<d/>", &err); std::ostringstream out; StreamSink ss(out); s->set_output(ss); s->execute(d);
  return out.str().find("<?xml") != std::string::npos;
}
PBT_KNOWN(T03, "a second xsl:output resets the settings the first one made: <xsl:output omit-xml-declaration='yes'/><xsl:output indent='no'/> writes the XML declaration", outputs_not_merged);
