// S05-S09: the writer, the filters, and the SAX helpers
#include "saxscript.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/TextOnly.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/helpers/NamespaceSupport.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>

using namespace saxx;
typedef Arabica::SAX::XMLReader<S> Reader;
typedef Arabica::SAX::Writer<S> Writer;

// ---------------------------------------------------------------- S05
namespace {
bool blank(const S& s) { return s.find_first_not_of(" \t\r\n") == S::npos; }
// what a written document keeps: entity boundaries go, adjacent CDATA sections are one
std::vector<S> kept(const std::vector<S>& ev, bool drop_space, bool in_entity_markers = false)
{
  std::vector<S> r; bool dtd = false;
  for(size_t i = 0; i < ev.size(); ++i)
  {
    const S& e = ev[i];
    if((e.compare(0, 12, "startEntity ") == 0 || e.compare(0, 10, "endEntity ") == 0) && e.find("[dtd]") == S::npos) continue;
    if(e == "startCDATA" && !r.empty() && r.back() == "endCDATA") { r.pop_back(); continue; }
    if(e.compare(0, 8, "startDTD") == 0) dtd = true; if(e == "endDTD") dtd = false;
    S x = e;
    if(x.compare(0, 11, "characters ") == 0 && drop_space)
    {
      // indentation may add white space round an element's text
      bool cd = !r.empty() && r.back() == "startCDATA";
      if(!cd) { S t = x.substr(11); size_t b = t.find_first_not_of(" \n"); if(b == S::npos) continue; size_t l = t.find_last_not_of(" \n"); x = "characters " + t.substr(b, l - b + 1); }
    }
    if(x.compare(0, 11, "characters ") == 0 && !r.empty() && r.back().compare(0, 11, "characters ") == 0) r.back() += x.substr(11); else r.push_back(x);
  }
  (void)dtd; return r;
}
struct Sink : std::streambuf { };
}

PBT_PROPERTY(S05, "the document has markup characters in a value, a CDATA section, a namespace declaration or a DTD")
{
  int indent = c.chance(1, 3) ? c.range(1, 4) : 0; bool with_parent = c.flip(); bool nt = false;
  std::ostringstream os; Reader parser; ScriptReader script;
  std::unique_ptr<Writer> wp;
  S enc = c.chance(1, 4) ? "UTF-8" : "";
  if(with_parent) { if(enc.empty()) wp.reset(new Writer(os, parser, indent)); else wp.reset(new Writer(os, parser, enc, indent)); }
  else { wp.reset(new Writer(os, script, indent)); if(!enc.empty()) wp->setEncoding(enc); }
  Writer& w = *wp;
  c.list(1, 1 + 2 * c.size() / 100, [&](int) {
    os.str(""); Recorder down; down.attach(w); std::vector<S> want; Features f; std::map<S, S> ext; S what; Log upstream, downstream; bool threw = false;
    if(with_parent)
    {
      f = gen_features(c); f.external = c.chance(1, 3); Doc d = DocMaker(c, f).make(); what = d.xml; set(parser, f); ext = d.ext; down.entities = ext;
      Reader plain; set(plain, f); Recorder direct; direct.attach(plain); direct.entities = ext;
      { std::istringstream ss(d.xml); InputSource is(ss); plain.parse(is); }
      bool stop = c.chance(1, 8); if(stop) down.throw_at = direct.throw_at = c.below(d.ev.size());
      c << "parse and write (indent " << indent << (f.ns ? "" : ", no namespaces") << (f.prefixes ? "" : ", no prefixes") << (f.external ? ", external" : "") << ") " << esc(d.xml) << (stop ? " abandoned" : "") << "\n";
      std::istringstream ss(d.xml); InputSource is(ss); try { w.parse(is); } catch(const Thrown&) { threw = true; }
      if(threw) return;
      pbt::require_eq(down.messages, S(), "errors"); S df = diff(down.raw, direct.raw); pbt::require(df.empty(), "the writer did not forward what it received: ", df, "\n for ", esc(d.xml));
      want = d.ev;
    }
    else
    {
      model::Opts o; model::NodeP m = model::gen_doc(c, o); script.script.clear(); Scripter sc(c, script.script); sc.xmlns_atts = c.flip(); sc.ignorable = c.chance(1, 3);
      // values no parser would have delivered in one piece
      std::function<void(model::Node&)> spice = [&](model::Node& n) { if(n.kind == model::CDATA && c.chance(1, 3)) n.value += c.pick({ "]]>", "]]>]]>", "x]]>y", "]", "]]" }); for(auto& k : n.kids) spice(*k); };
      spice(*m); sc.doc(*m); what = model::to_xml(0, *m);
      c << "write (indent " << indent << (sc.xmlns_atts ? ", declarations among the attributes" : "") << ") " << esc(what) << "\n";
      want.push_back("startDocument"); node_events(*m, f, want); want.push_back("endDocument");
      if(c.chance(1, 8)) script.stop_at = c.below(script.script.size()); else script.stop_at = size_t(-1);
      Log a, b; a.attach(script); InputSource is("x"); try { script.parse(is); } catch(const Thrown&) { }
      b.attach(w); try { w.parse(is); } catch(const Thrown&) { threw = true; }
      S df = diff(b.lines, a.lines); pbt::require(df.empty(), "the writer did not forward what it received: ", df);
      if(threw) return;
    }
    S out = os.str();
    c << "wrote " << esc(out) << "\n";
    // and back
    Reader back; Features bf = f; set(back, bf); Recorder rec; rec.attach(back); rec.entities = ext; std::istringstream ss(out); InputSource is(ss); back.parse(is);
    pbt::require(rec.messages.empty(), "what was written is not well-formed: ", rec.messages, " in ", esc(out), "\n from ", esc(what));
    std::vector<S> g = kept(rec.ev, indent > 0), ww = kept(want, indent > 0);
    S df = diff(g, ww); pbt::require(df.empty(), df, "\n in ", esc(out), "\n from ", esc(what));
    if(!enc.empty()) pbt::require(out.find("encoding=\"UTF-8\"") != S::npos, "no encoding in ", esc(out));
    if(what.find("&") != S::npos || what.find("<![") != S::npos || what.find("xmlns") != S::npos || what.find("<!D") != S::npos) nt = true;
  });
  c.nontrivial(nt);
}

// ---------------------------------------------------------------- S06
namespace {
S norm_ws(const S& s) { S r; std::istringstream is(s); S w; for(size_t i = 0; i < s.size(); ++i) if(S(" \t\r\n").find(s[i]) != S::npos) { if(!r.empty() && r.back() != ' ') r += ' '; } else r += s[i]; if(!r.empty() && r.back() == ' ') r.erase(r.size() - 1); return r; }
S pyx(const S& s) { S r; for(char ch : s) if(ch == '\n') r += "\\n"; else if(ch == '\\') r += "\\\\"; else r += ch; return r; }
void play(Arabica::SAX::XMLReaderInterface<S, Arabica::default_string_adaptor<S> >& r, bool& threw) { InputSource is("in"); threw = false; try { r.parse(is); } catch(const Thrown&) { threw = true; } }

typedef Arabica::SAX::XMLFilterImpl<S, Arabica::default_string_adaptor<S> > Filter;
// does a filter pass on settings?
void settings(pbt::Ctx& c, Filter& f, ScriptReader& r)
{
  S n = c.pick({ "f1", "f2", "http://xml.org/sax/features/namespaces" }); bool v = c.flip();
  f.setFeature(n, v); pbt::require(r.features[n] == v && f.getFeature(n) == v, "feature ", n, " not passed on");
  try { f.getFeature("never-set"); pbt::fail("unknown feature found"); } catch(const Arabica::SAX::SAXNotRecognizedException&) { }
  try { f.setFeature("bad", true); pbt::fail("bad feature set"); } catch(const Arabica::SAX::SAXNotSupportedException&) { }
  pbt::require(f.getParent() == &r, "getParent");
}
void handlers(Filter& f, Log& l)
{
  pbt::require(f.getContentHandler() == &l && f.getErrorHandler() == &l && f.getLexicalHandler() == &l && f.getDeclHandler() == &l && f.getDTDHandler() == &l && f.getEntityResolver() == &l, "a handler getter does not give the handler set");
}
}

PBT_PROPERTY(S06, "the events include at least three elements and text the filter has something to do with")
{
  ScriptReader src; Filter plain(src); Arabica::SAX::TextCoalescer<S> coal(src); Arabica::SAX::TextOnly<S> only(src); Arabica::SAX::WhitespaceStripper<S> strip(src);
  Arabica::SAX::NamespaceTracker<S> nst(src); Arabica::SAX::XMLBaseTracker<S> base(src); std::ostringstream pos; Arabica::SAX::PYXWriter<S> pyxw(pos, src);
  Filter later; later.setParent(src); bool nt = false;
  int kind = c.below(8); static const char* const names[] = { "plain filter", "text coalescer", "text only", "white space stripper", "namespace tracker", "base tracker", "PYX writer", "two filters" };
  c << names[kind] << "\n"; c.label(names[kind]);
  c.list(1, 1 + 3 * c.size() / 100, [&](int) {
    model::Opts o; model::NodeP m = model::gen_doc(c, o);
    static const char* const bases[] = { "http://a.org/b/c/d.xml", "http://h/", "sub/dir/", "../up/", "x.xml", "/root/y.xml", "./z/" };
    std::map<const model::Node*, S> want_base;
    if(kind == 5)
    {
      std::function<void(model::Node&)> put = [&](model::Node& n) {
        for(size_t i = 0; i < n.attrs.size(); ++i) if(n.attrs[i].prefix == "xml" && n.attrs[i].local == "base") n.attrs.erase(n.attrs.begin() + i--);
        if(n.kind == model::ELEM && c.chance(1, 3)) { model::Attr a; a.prefix = "xml"; a.local = "base"; a.uri = model::XML_URI; a.value = bases[c.below(7)]; n.attrs.push_back(a); }
        for(auto& k : n.kids) put(*k); };
      put(*m);
    }
    src.script.clear(); Scripter sc(c, src.script); sc.xmlns_atts = c.chance(1, 3); sc.ignorable = true; sc.extras = true; if(kind == 4) sc.xmlns_atts = false; sc.doc(*m);
    src.stop_at = c.chance(1, 6) ? c.below(src.script.size()) : size_t(-1); src.sys = "http://doc.org/dir/doc.xml";
    c << "events for " << esc(model::to_xml(0, *m)); if(src.stop_at != size_t(-1)) c << " failing at " << src.stop_at; c << "\n";
    Log direct; direct.attach(src); bool threw; play(src, threw);
    Log down; bool t2; S df;
    int elems = 0; for(auto& e : src.script) if(e.k == E_START) ++elems;
    switch(kind)
    {
      case 0: case 7:
      {
        Filter& f = kind == 0 ? (c.flip() ? plain : later) : plain; settings(c, f, src);
        if(kind == 0) { down.attach(f); handlers(f, down); play(f, t2); }
        else { Filter outer; outer.setParent(f); down.attach(outer); handlers(outer, down); play(outer, t2); }
        pbt::require_eq(src.parsed, S("in"), "input source passed to the parent");
        df = diff(down.lines, direct.lines);
        // handlers may be missing
        if(df.empty() && c.chance(1, 4)) { Filter bare(src); bool t3; play(bare, t3); Log some; Filter half(src); half.setContentHandler(some); play(half, t3); std::vector<S> w;
          static const std::set<S> content = { "locator", "startDocument", "endDocument", "map", "unmap", "start", "end", "characters", "ignorable", "pi", "skipped" };
          for(auto& l : direct.lines) if(content.count(l.substr(0, l.find('|')))) w.push_back(l);
          S d2 = diff(some.lines, w); pbt::require(d2.empty(), "only a content handler: ", d2); }
        if(elems > 2) nt = true; break;
      }
      case 1:
      {
        down.attach(coal); play(coal, t2); std::vector<S> w; S buf;
        // a run of text is one event; what is reported of errors and resolution is not part of the document
        for(auto& l : direct.lines)
        {
          if(l.compare(0, 11, "characters|") == 0) { buf += l.substr(11); continue; } if(l.compare(0, 10, "ignorable|") == 0) { buf += l.substr(10); continue; }
          bool aside = l.compare(0, 7, "warning") == 0 || l.compare(0, 5, "error") == 0 || l.compare(0, 7, "resolve") == 0;
          if(!buf.empty() && !aside) { w.push_back("characters|" + buf); buf = ""; }
          w.push_back(l);
        }
        df = diff(down.lines, w); for(size_t i = 1; i < direct.lines.size(); ++i) if(elems > 2 && direct.lines[i].compare(0, 4, "char") == 0 && direct.lines[i-1].compare(0, 4, "char") == 0) nt = true; break;
      }
      case 2:
      {
        down.attach(only); play(only, t2); std::vector<S> w;
        for(auto& l : direct.lines) if(l.compare(0, 11, "characters|") == 0 || l.compare(0, 10, "ignorable|") == 0 || l == "startDocument" || l == "endDocument" || l.compare(0, 7, "locator") == 0 || l.compare(0, 7, "warning") == 0 || l.compare(0, 5, "error") == 0 || l.compare(0, 7, "resolve") == 0) w.push_back(l);
        df = diff(down.lines, w); if(elems > 2) nt = true; break;
      }
      case 3:
      {
        down.attach(strip); play(strip, t2); std::vector<S> w;
        for(auto& l : direct.lines) if(l.compare(0, 10, "ignorable|") == 0) continue; else if(l.compare(0, 11, "characters|") == 0) { S n = norm_ws(l.substr(11)); if(n != l.substr(11) && elems > 2) nt = true; w.push_back("characters|" + n); } else w.push_back(l);
        df = diff(down.lines, w); break;
      }
      case 4:
      {
        // ask at every start and end tag
        std::vector<std::map<S, S> > scope(1); scope[0]["xml"] = model::XML_URI; std::map<S, S> pending; size_t at = 0; S wrong;
        down.attach(nst);
        down.after = [&]() {
          const S& l = down.lines.back(); if(wrong.size()) return;
          if(l.compare(0, 4, "map|") == 0) { S r = l.substr(4); size_t b = r.find('|'); pending[r.substr(0, b)] = r.substr(b + 1); return; }
          bool st = l.compare(0, 6, "start|") == 0, en = l.compare(0, 4, "end|") == 0; if(!st && !en && l.compare(0, 5, "chara") != 0) return;
          if(st) { std::map<S, S> n = scope.back(); for(auto& p : pending) n[p.first] = p.second; pending.clear(); scope.push_back(n); }
          if(st || en || true)
          {
            const std::map<S, S>& now = scope.back(); std::map<S, S> want = now; want[""]; std::map<S, S> got = nst.inScopeNamespaces();
            if(got != want) { wrong = "inScopeNamespaces after " + l + " gives"; for(auto& g : got) wrong += " " + g.first + "=" + g.second; wrong += "; wanted"; for(auto& g : want) wrong += " " + g.first + "=" + g.second; return; }
            for(auto& p : want) if(nst.getURI(p.first) != p.second) wrong = "getURI of " + p.first;
            if(nst.getURI("nope") != "") wrong = "getURI of an undeclared prefix";
            S d = now.count("") ? now.at("") : S();
            if(nst.processElementName("loc").namespaceUri() != d || nst.processName("loc").namespaceUri() != "") wrong = "the default namespace";
            for(auto& p : now) if(!p.first.empty() && nst.processName(p.first + ":l").namespaceUri() != p.second) wrong = "processName with " + p.first;
            ++at;
          }
          if(en) scope.pop_back();
        };
        play(nst, t2); pbt::require(wrong.empty(), wrong); df = diff(down.lines, direct.lines);
        int maps = 0; for(auto& e : src.script) if(e.k == E_MAP) ++maps; if(maps > 1) nt = true; break;
      }
      case 5:
      {
        // the base in force, worked out by hand for these bases
        auto resolve = [](const S& b, const S& r) -> S {
          if(r.compare(0, 5, "http:") == 0) return r;
          size_t host = b.find('/', 7); S root = b.substr(0, host), path = host == S::npos ? "/" : b.substr(host);
          S p = r[0] == '/' ? r : path.substr(0, path.rfind('/') + 1) + r; std::vector<S> seg; size_t i = 1; bool dir = false;
          while(i <= p.size()) { size_t e = p.find('/', i); if(e == S::npos) e = p.size(); S s = p.substr(i, e - i); dir = false; if(s == "..") { if(!seg.empty()) seg.pop_back(); dir = true; } else if(s == ".") dir = true; else seg.push_back(s); i = e + 1; }
          S o; for(auto& s : seg) o += "/" + s; if(dir || o.empty()) o += "/"; return root + o; };
        std::vector<S> st(1, src.sys); S wrong; down.attach(base); bool mine = c.chance(1, 4); if(mine) { st[0] = "http://other.org/q/"; base.setDocumentLocation(st[0]); }
        down.after = [&]() {
          const S& l = down.lines.back(); if(wrong.size()) return; bool s = l.compare(0, 6, "start|") == 0, e = l.compare(0, 4, "end|") == 0;
          if(s) { S b = st.back(); size_t at = l.find("}base|xml:base|CDATA="); if(at != S::npos) { S v = l.substr(at + 21); size_t sp = v.find(' '); if(sp != S::npos) v = v.substr(0, sp); b = resolve(b, v); } st.push_back(b); }
          if(s || e || l.compare(0, 5, "chara") == 0)
          {
            if(base.currentBase() != st.back()) wrong = "base at " + l + " is " + base.currentBase() + ", wanted " + st.back();
            else if(base.makeAbsolute("r/s.t") != resolve(st.back(), "r/s.t")) wrong = "makeAbsolute at " + l + " gives " + base.makeAbsolute("r/s.t");
          }
          if(e) st.pop_back();
        };
        play(base, t2); pbt::require(wrong.empty(), wrong); df = diff(down.lines, direct.lines);
        if(model::to_xml(0, *m).find("xml:base") != S::npos && elems > 2) nt = true; break;
      }
      case 6:
      {
        pos.str(""); down.attach(pyxw); play(pyxw, t2); df = diff(down.lines, direct.lines); S w;
        for(size_t i = 0; i < src.script.size() && i < src.stop_at; ++i)
        {
          Ev& e = src.script[i];
          if(e.k == E_START) { w += "(" + e.a[1] + "\n"; for(int k = 0; k < e.atts.getLength(); ++k) w += "A" + (e.atts.getLocalName(k).empty() ? e.atts.getQName(k) : e.atts.getLocalName(k)) + " " + pyx(e.atts.getValue(k)) + "\n"; }
          else if(e.k == E_END) w += ")" + e.a[1] + "\n"; else if(e.k == E_CHARS) w += "-" + pyx(e.a[0]) + "\n"; else if(e.k == E_PI) w += "?" + e.a[0] + " " + pyx(e.a[1]) + "\n";
        }
        pbt::require_eq(pos.str(), w, "PYX written"); if(elems > 2) nt = true; break;
      }
    }
    pbt::require(df.empty(), names[kind], ": ", df); pbt::require_eq(t2, threw, "exception passed on");
  });
  c.nontrivial(nt);
}

// ---------------------------------------------------------------- S07
namespace {
typedef Arabica::SAX::AttributesImpl<S> AI;
struct At { S u, l, q, t, v; bool operator==(const At& o) const { return u == o.u && l == o.l && q == o.q && t == o.t && v == o.v; } };
void check_atts(const AI& a, const std::vector<At>& m)
{
  pbt::require_eq(a.getLength(), int(m.size()), "length");
  for(unsigned i = 0; i < m.size(); ++i)
  { pbt::require(a.getURI(i) == m[i].u && a.getLocalName(i) == m[i].l && a.getQName(i) == m[i].q && a.getType(i) == m[i].t && a.getValue(i) == m[i].v, "attribute ", i, " is {", a.getURI(i), "}", a.getLocalName(i), "|", a.getQName(i), "|", a.getType(i), "=", a.getValue(i)); }
  for(unsigned i : { unsigned(m.size()), unsigned(m.size() + 7), unsigned(-1) })
    pbt::require(a.getURI(i).empty() && a.getLocalName(i).empty() && a.getQName(i).empty() && a.getType(i).empty() && a.getValue(i).empty(), "something beyond the end at ", i);
  for(const char* u : { "", "u1", "u2" }) for(const char* l : { "a", "b", "c", "" })
  {
    int w = -1; for(unsigned i = 0; i < m.size() && w < 0; ++i) if(m[i].u == u && m[i].l == l) w = i;
    pbt::require(a.getIndex(u, l) == w && a.getValue(u, l) == (w < 0 ? S() : m[w].v) && a.getType(u, l) == (w < 0 ? S() : m[w].t), "look-up of {", u, "}", l);
  }
  for(const char* q : { "a", "p:a", "b", "p:b", "q:c", "", "zz" })
  {
    int w = -1; for(unsigned i = 0; i < m.size() && w < 0; ++i) if(m[i].q == q) w = i;
    pbt::require(a.getIndex(q) == w && a.getValue(S(q)) == (w < 0 ? S() : m[w].v) && a.getType(S(q)) == (w < 0 ? S() : m[w].t), "look-up of ", q);
  }
}
}

PBT_PROPERTY(S07, "at least four operations, one of them a change or removal, over lists of at least two attributes")
{
  std::vector<std::pair<std::unique_ptr<AI>, std::vector<At> > > ls; ls.emplace_back(std::unique_ptr<AI>(new AI), std::vector<At>());
  int ops = 0; bool changed = false, big = false;
  auto gen = [&]() { At a; a.u = c.pick({ "", "u1", "u2" }); a.l = c.pick({ "a", "b", "c", "" }); a.q = c.pick({ "a", "p:a", "b", "p:b", "q:c", "" }); a.t = c.pick({ "CDATA", "ID", "" }); a.v = c.pick({ "1", "2", "", "three" }); return a; };
  c.list(1, 2 + 14 * c.size() / 100, [&](int) {
    size_t w = c.below(ls.size()); AI& a = *ls[w].first; std::vector<At>& m = ls[w].second; ++ops; unsigned i = m.empty() || c.chance(1, 8) ? m.size() + c.below(3) : c.below(m.size()); bool in = i < m.size();
    auto refused = [&](std::function<void()> f) { try { f(); } catch(const std::out_of_range&) { pbt::require(!in, "in range, yet refused"); return true; } pbt::require(in, "out of range, yet accepted"); return false; };
    switch(c.weighted({ 6, 2, 2, 3, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1 }))
    {
      case 0: { At x = gen(); c << "#" << w << " add {" << x.u << "}" << x.l << " " << x.q << "=" << x.v << "\n"; if(c.flip()) a.addAttribute(x.u, x.l, x.q, x.t, x.v); else a.addAttribute(AI::Attr(x.u, x.l, x.q, x.t, x.v)); m.push_back(x); break; }
      case 1: { At x = gen(); c << "#" << w << " add or replace {" << x.u << "}" << x.l << "=" << x.v << "\n"; int at = -1; for(unsigned k = 0; k < m.size() && at < 0; ++k) if(m[k].u == x.u && m[k].l == x.l) at = k;
        a.addOrReplaceAttribute(x.u, x.l, x.q, x.t, x.v); if(at < 0) m.push_back(x); else { m[at].v = x.v; changed = true; } break; }
      case 2: { At x = gen(); c << "#" << w << " set " << i << " {" << x.u << "}" << x.l << " " << x.q << "=" << x.v << "\n"; refused([&] { a.setAttribute(i, x.u, x.l, x.q, x.t, x.v); }); if(in) { m[i] = x; changed = true; } break; }
      case 3: c << "#" << w << " remove " << i << "\n"; refused([&] { a.removeAttribute(i); }); if(in) { m.erase(m.begin() + i); changed = true; } break;
      case 4: c << "#" << w << " clear\n"; a.clear(); m.clear(); break;
      case 5: { S v = c.pick({ "", "u1", "u2" }); c << "#" << w << " uri " << i << " " << v << "\n"; refused([&] { a.setURI(i, v); }); if(in) { m[i].u = v; changed = true; } break; }
      case 6: { S v = c.pick({ "a", "b" }); c << "#" << w << " local " << i << " " << v << "\n"; refused([&] { a.setLocalName(i, v); }); if(in) { m[i].l = v; changed = true; } break; }
      case 7: { S v = c.pick({ "a", "p:a" }); c << "#" << w << " qname " << i << " " << v << "\n"; refused([&] { a.setQName(i, v); }); if(in) { m[i].q = v; changed = true; } break; }
      case 8: { S v = c.pick({ "NMTOKEN", "" }); c << "#" << w << " type " << i << " " << v << "\n"; refused([&] { a.setType(i, v); }); if(in) { m[i].t = v; changed = true; } break; }
      case 9: { S v = c.pick({ "x", "" }); c << "#" << w << " value " << i << " " << v << "\n"; refused([&] { a.setValue(i, v); }); if(in) { m[i].v = v; changed = true; } break; }
      case 10: if(ls.size() < 4) { c << "copy #" << w << "\n"; std::vector<At> mm = m; std::unique_ptr<AI> n; switch(c.below(3)) { case 0: n.reset(new AI(a)); break; case 1: n.reset(new AI(static_cast<const Attributes&>(a))); break; default: n.reset(new AI); *n = a; } ls.emplace_back(std::move(n), mm); } break;
      case 11: { size_t o = c.below(ls.size()); c << "#" << w << " = #" << o << "\n"; AI& r = c.flip() ? (a = *ls[o].first) : (a = static_cast<const Attributes&>(*ls[o].first)); pbt::require(&r == &a, "assignment gives something else"); std::vector<At> mm = ls[o].second; m = mm; break; }
      case 12: { size_t o = c.below(ls.size()); c << "#" << w << " setAttributes #" << o << "\n"; a.setAttributes(*ls[o].first); std::vector<At> mm = ls[o].second; m = mm; break; }
      default: { size_t o = c.below(ls.size()); pbt::require_eq(a == *ls[o].first, m == ls[o].second, "equality of lists"); }
    }
    for(auto& p : ls) { check_atts(*p.first, p.second); if(p.second.size() > 1) big = true; }
  });
  c.nontrivial(ops >= 4 && changed && big);
}

// ---------------------------------------------------------------- S08
PBT_PROPERTY(S08, "a prefix is declared in an inner context as well as in an outer one, or again in the same one, and a context is popped")
{
  Arabica::SAX::NamespaceSupport<S, Arabica::default_string_adaptor<S> > ns; std::vector<std::map<S, S> > m(1); m[0]["xml"] = model::XML_URI; bool shadow = false, popped = false;
  static const std::vector<S> pre = { "", "p", "q", "longer-prefix", "xm" }, uri = { "urn:1", "urn:2", "http://x/y", "" };
  auto get = [&](const S& p, S& u) { for(size_t i = m.size(); i--; ) { auto f = m[i].find(p); if(f != m[i].end()) { u = f->second; return true; } } u = ""; return false; };
  c.list(1, 3 + 16 * c.size() / 100, [&](int) {
    switch(c.weighted({ 3, 2, 6, 1, 1 }))
    {
      case 0: c << "push\n"; ns.pushContext(); m.push_back({}); break;
      case 1: if(m.size() > 1) { c << "pop\n"; ns.popContext(); m.pop_back(); popped = true; } break;
      case 2: { S p = c.pick(pre), u = c.pick(uri), d; if(!p.empty() && u.empty()) u = "urn:1"; c << "declare " << p << "=" << u << "\n"; if(get(p, d)) shadow = true; pbt::require(ns.declarePrefix(p, u), "declaration refused"); m.back()[p] = u; break; }
      case 3: { S p = c.pick({ "xml", "xmlns" }); c << "declare " << p << "\n"; pbt::require(!ns.declarePrefix(p, c.pick({ "urn:1", model::XML_URI })), p, " redeclared"); break; }
      default: if(c.chance(1, 4)) { c << "reset\n"; ns.reset(); m.assign(1, {}); m[0]["xml"] = model::XML_URI; }
    }
    std::map<S, S> now; for(auto& s : m) for(auto& p : s) now[p.first] = p.second;
    for(auto& p : { S(""), S("p"), S("q"), S("longer-prefix"), S("xm"), S("xml"), S("none") })
    {
      S u; bool there = get(p, u); pbt::require_eq(ns.getURI(p), u, "URI of " + p);
      if(p.empty())
      {
        auto e = ns.processName("el", false), a = ns.processName("el", true);
        pbt::require(e.namespaceUri() == u && e.localName() == "el" && e.rawName() == "el" && !e.has_prefix(), "element name without prefix gives {", e.namespaceUri(), "}", e.localName());
        pbt::require(a.namespaceUri().empty() && a.localName() == "el" && a.rawName() == "el", "attribute name without prefix");
      }
      else for(bool at : { false, true })
      { auto q = ns.processName(p + ":el", at); pbt::require(q.namespaceUri() == u && q.localName() == "el" && q.rawName() == p + ":el" && q.prefix() == p, "name with prefix ", p, " gives {", q.namespaceUri(), "}", q.localName()); }
      (void)there;
    }
    auto sorted = [](std::vector<S> v) { std::sort(v.begin(), v.end()); S r; for(auto& s : v) r += s + " "; return r; };
    std::vector<S> all, here; for(auto& p : now) if(!p.first.empty()) all.push_back(p.first); for(auto& p : m.back()) here.push_back(p.first);
    auto vec = [](const Arabica::SAX::NamespaceSupport<S, Arabica::default_string_adaptor<S> >::stringListT& l) { return std::vector<S>(l.begin(), l.end()); };
    pbt::require_eq(sorted(vec(ns.getPrefixes())), sorted(all), "prefixes in scope"); pbt::require_eq(sorted(vec(ns.getDeclaredPrefixes())), sorted(here), "prefixes declared in this context");
    for(auto& u : { S("urn:1"), S("urn:2"), S("http://x/y"), S(model::XML_URI), S("urn:none") })
    {
      std::vector<S> w; for(auto& p : now) if(!p.first.empty() && p.second == u) w.push_back(p.first);
      pbt::require_eq(sorted(vec(ns.getPrefixes(u))), sorted(w), "prefixes for " + u);
      S g = ns.getPrefix(u); pbt::require(w.empty() ? g.empty() : std::find(w.begin(), w.end(), g) != w.end(), "getPrefix(", u, ") gives '", g, "'");
    }
  });
  c.nontrivial(shadow && popped);
}

// ---------------------------------------------------------------- S09
namespace {
std::map<int, int> alive; 
struct Counted : std::istringstream { int id; Counted(int i, const S& s) : std::istringstream(s), id(i) { ++alive[i]; } ~Counted() { --alive[id]; } };
struct CountedIO : std::stringstream { int id; CountedIO(int i, const S& s) : std::stringstream(s), id(i) { ++alive[i]; } ~CountedIO() { --alive[id]; } };
struct Ref { int stream = -1; bool own = false; S pub, sys, enc; };
}

PBT_PROPERTY(S09, "a stream handed over is shared by two sources or handles, and one of them lets go before the other")
{
  alive.clear(); std::vector<std::unique_ptr<InputSource> > src; std::vector<Ref> sm; std::vector<std::unique_ptr<Arabica::SAX::IStreamHandle> > hs; std::vector<Ref> hm;
  std::vector<std::unique_ptr<std::istream> > lent; std::map<int, std::istream*> addr; int next = 0; bool shared = false, nt = false;
  auto hand_over = [&](Ref& r, int& id) { id = next++; r.stream = id; r.own = true; std::unique_ptr<std::istream> p(new Counted(id, "stream" + std::to_string(id))); addr[id] = p.get(); return p; };
  auto lend = [&](Ref& r) -> std::istream& { int id = next++; r.stream = id; r.own = false; lent.emplace_back(new Counted(id, "lent" + std::to_string(id))); addr[id] = lent.back().get(); return *lent.back(); };
  c.list(1, 3 + 18 * c.size() / 100, [&](int) {
    int id; size_t i = src.empty() ? 0 : c.below(src.size()), j = src.empty() ? 0 : c.below(src.size()); size_t h = hs.empty() ? 0 : c.below(hs.size()), g = hs.empty() ? 0 : c.below(hs.size());
    switch(c.weighted({ 3, 3, 3, 2, 2, 1, 2, 2, 2, 2, 2, 1, 1 }))
    {
      case 0: { Ref r; switch(c.below(4)) {
          case 0: c << "source, empty\n"; src.emplace_back(new InputSource); break;
          case 1: { auto p = hand_over(r, id); c << "source owning " << id << "\n"; src.emplace_back(new InputSource(std::move(p))); break; }
          case 2: { std::istream& s = lend(r); c << "source lent " << r.stream << "\n"; src.emplace_back(new InputSource(s)); break; }
          default: { int n = next++; r.stream = n; r.own = true; std::unique_ptr<std::iostream> p(new CountedIO(n, "stream" + std::to_string(n))); addr[n] = p.get(); c << "source owning iostream " << n << "\n"; src.emplace_back(new InputSource(std::move(p))); } }
        sm.push_back(r); break; }
      case 1: if(!src.empty() && src.size() < 8) { c << "copy source " << i << "\n"; src.emplace_back(new InputSource(*src[i])); Ref r = sm[i]; sm.push_back(r); } break;
      case 2: if(!src.empty()) { c << "source " << i << " = source " << j << "\n"; *src[i] = *src[j]; Ref r = sm[j]; sm[i] = r; } break;
      case 3: if(!src.empty()) { c << "destroy source " << i << "\n"; src.erase(src.begin() + i); sm.erase(sm.begin() + i); } break;
      case 4: if(!src.empty()) { auto p = hand_over(sm[i], id); c << "source " << i << " given " << id << "\n"; src[i]->setByteStream(std::move(p)); } break;
      case 5: if(!src.empty()) { std::istream& s = lend(sm[i]); c << "source " << i << " lent " << sm[i].stream << "\n"; src[i]->setByteStream(s); } break;
      case 6: if(!src.empty() && hs.size() < 8) { c << "handle from source " << i << "\n"; hs.emplace_back(new Arabica::SAX::IStreamHandle(src[i]->getByteStreamHandle())); hm.push_back(sm[i]); } break;
      case 7: if(!hs.empty()) { c << "handle " << h << " = handle " << g << "\n"; *hs[h] = *hs[g]; Ref r = hm[g]; hm[h] = r; } break;
      case 8: if(!hs.empty()) { c << "release handle " << h << "\n"; hs[h]->release(); hm[h] = Ref(); } break;
      case 9: if(!hs.empty()) { c << "destroy handle " << h << "\n"; hs.erase(hs.begin() + h); hm.erase(hm.begin() + h); } break;
      case 10: if(!hs.empty()) { switch(c.below(3)) { case 0: { auto p = hand_over(hm[h], id); c << "handle " << h << " given " << id << "\n"; *hs[h] = std::move(p); break; }
          case 1: { std::istream& s = lend(hm[h]); c << "handle " << h << " lent\n"; *hs[h] = s; break; }
          default: { int n = next++; hm[h].stream = n; hm[h].own = true; std::unique_ptr<std::iostream> p(new CountedIO(n, "s")); addr[n] = p.get(); c << "handle " << h << " given iostream\n"; *hs[h] = std::move(p); } } } break;
      case 11: { Ref r; c << "new handle\n"; switch(c.below(3)) { case 0: hs.emplace_back(new Arabica::SAX::IStreamHandle); break; case 1: { auto p = hand_over(r, id); hs.emplace_back(new Arabica::SAX::IStreamHandle(std::move(p))); break; } default: { std::istream& s = lend(r); hs.emplace_back(new Arabica::SAX::IStreamHandle(s)); } } hm.push_back(r); break; }
      default: if(!src.empty()) { S v = "v" + std::to_string(c.below(4)); switch(c.below(3)) { case 0: src[i]->setPublicId(v); sm[i].pub = v; break; case 1: src[i]->setSystemId(v); sm[i].sys = v; break; default: src[i]->setEncoding(v); sm[i].enc = v; } }
    }
    // everything as it should be
    std::map<int, int> owners; for(auto& r : sm) if(r.stream >= 0 && r.own) ++owners[r.stream]; for(auto& r : hm) if(r.stream >= 0 && r.own) ++owners[r.stream];
    for(int k = 0; k < next; ++k) { bool is_lent = false; for(auto& l : lent) if(static_cast<Counted*>(l.get())->id == k) is_lent = true; pbt::require_eq(alive[k], is_lent || owners[k] ? 1 : 0, "streams alive of number " + std::to_string(k)); if(owners[k] > 1) shared = true; }
    if(shared) for(int k = 0; k < next; ++k) if(owners[k] == 1) nt = true;
    auto use = [&](std::istream* s, const Ref& r) { pbt::require(s == (r.stream < 0 ? 0 : addr[r.stream]), "a source has the wrong stream"); if(s) { s->clear(); s->seekg(0); S t; *s >> t; pbt::require(!t.empty(), "stream unusable"); } };
    for(size_t k = 0; k < src.size(); ++k) { use(src[k]->getByteStream(), sm[k]); pbt::require(src[k]->getPublicId() == sm[k].pub && src[k]->getSystemId() == sm[k].sys && src[k]->getEncoding() == sm[k].enc, "ids of a source"); }
    for(size_t k = 0; k < hs.size(); ++k) use(hs[k]->get(), hm[k]);
  });
  src.clear(); hs.clear(); for(int k = 0; k < next; ++k) { bool is_lent = false; for(auto& l : lent) if(static_cast<Counted*>(l.get())->id == k) is_lent = true; pbt::require_eq(alive[k], is_lent ? 1 : 0, "streams alive at the end"); }
  c.nontrivial(nt);
}
