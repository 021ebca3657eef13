// U06: socket streams and the resolver that opens what a system id names.
// The peer is a scripted server on the loopback interface.
#include "saxx.hpp"
#include <io/socket_stream.hpp>
#include <SAX/helpers/InputSourceResolver.hpp>
#include <atomic>
#include <cerrno>
#include <fstream>
#include <poll.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace saxx;
using pbt::require;
using pbt::require_eq;

// ---------------------------------------------------------------- what a signal or a full buffer does to a call
namespace {
struct Faults { bool on = false; uint64_t x = 1; std::thread::id who; int shorts = 0, intr = 0; uint64_t next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; } } faults;
bool faulty() { return faults.on && std::this_thread::get_id() == faults.who; }
}
extern "C" ssize_t send(int s, const void* b, size_t n, int f)
{
  if(faulty()) { uint64_t r = faults.next() % 8; if(r == 0) { ++faults.intr; errno = EINTR; return -1; } if(r < 4 && n > 1) { n = 1 + faults.next() % (n - 1); ++faults.shorts; } }
  return sendto(s, b, n, f, 0, 0);
}
extern "C" ssize_t recv(int s, void* b, size_t n, int f)
{
  if(faulty()) { uint64_t r = faults.next() % 8; if(r == 0) { ++faults.intr; errno = EINTR; return -1; } if(r < 4 && n > 1) { n = 1 + faults.next() % std::min<size_t>(n - 1, 40); ++faults.shorts; } }
  return recvfrom(s, b, n, f, 0, 0);
}

namespace {
typedef Arabica::io::socketstream Socket;
using Arabica::SAX::InputSourceResolver;
typedef Arabica::SAX::InputSource<S> Source;
typedef Arabica::default_string_adaptor<S> SA;
enum { PATIENCE = 30000 };   // ms; only a peer that is really stuck takes this long

struct Fd { int fd; explicit Fd(int f = -1) : fd(f) { } ~Fd() { reset(); } void reset(int f = -1) { if(fd >= 0) ::close(fd); fd = f; } Fd(const Fd&) = delete; };
void no_wait(int fd) { linger l; l.l_onoff = 1; l.l_linger = 0; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
void push(int fd, const S& s)
{
  int one = 1; setsockopt(fd, IPPROTO_TCP, 1 /*TCP_NODELAY*/, &one, sizeof one);
  for(size_t i = 0; i < s.size(); ) { ssize_t n = sendto(fd, s.data() + i, s.size() - i, MSG_NOSIGNAL, 0, 0); if(n < 0) return; i += n; }
}
bool readable(int fd) { pollfd p; p.fd = fd; p.events = POLLIN; return poll(&p, 1, PATIENCE) > 0; }
// up to n bytes; fewer only at the end or when the peer is stuck
S pull(int fd, size_t n, bool* stuck = 0)
{
  S r; char b[4096];
  while(r.size() < n) { if(!readable(fd)) { if(stuck) *stuck = true; break; } ssize_t k = recvfrom(fd, b, std::min(sizeof b, n - r.size()), 0, 0, 0); if(k <= 0) break; r.append(b, k); }
  return r;
}

struct Listener
{
  Fd fd; int port = 0; S host;
  explicit Listener(bool listening = true) : fd(::socket(AF_INET, SOCK_STREAM, 0))
  {
    // a new loopback address each time, so that closed connections do not use up the ports
    static unsigned n = getpid() * 7919u; n += 1; host = "127." + std::to_string((n >> 14) & 127) + "." + std::to_string((n >> 7) & 127) + "." + std::to_string(1 + (n & 127));
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr(host.c_str());
    if(bind(fd.fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) throw pbt::Discard();
    socklen_t l = sizeof a; getsockname(fd.fd, reinterpret_cast<sockaddr*>(&a), &l); port = ntohs(a.sin_port);
    if(listening && listen(fd.fd, 4) != 0) throw pbt::Discard();
  }
  int take() { if(!readable(fd.fd)) return -1; return accept(fd.fd, 0, 0); }
};

S bytes(pbt::Ctx& c, size_t n)
{
  static const S alpha = S("abcdefghij \n\r\t<>&;\0\xff\xfe\xe9\x80\x7f", 24);
  S r; r.reserve(n); if(n <= 40) { while(r.size() < n) r += alpha[c.below(alpha.size())]; return r; }
  uint64_t x = 1 + c.below(1u << 30); while(r.size() < n) { x = x * 6364136223846793005ull + 1442695040888963407ull; r += static_cast<char>(x >> 56); } return r;
}
size_t length(pbt::Ctx& c)
{
  switch(c.weighted({ 5, 3, 2, 1 })) { case 0: return c.below(20); case 1: return c.below(400); case 2: return c.pick<size_t>({ 1023, 1024, 1025, 1020, 1028, 2047, 2048, 2049, 3072, 4096 }); default: return c.below(9000); }
}

struct Inject
{
  explicit Inject(pbt::Ctx& c) { faults = Faults(); if(c.chance(1, 3)) { faults.x = 1 + c.below(1u << 20); faults.who = std::this_thread::get_id(); faults.on = true; c.label("short and interrupted calls"); c << "with short and interrupted calls\n"; } }
  ~Inject() { faults.on = false; }
};

// one client, driven together with the far end of its connection
void session(pbt::Ctx& c)
{
  Inject inj(c); int conns = c.weighted({ 6, 3, 1 }) + 1; c.label(conns > 1 ? "stream opened again" : "one connection");
  std::unique_ptr<Socket> s; bool big = false;
  for(int k = 0; k < conns; ++k)
  {
    Listener l; c << "connect\n";
    if(!s && c.flip()) s.reset(new Socket(l.host.c_str(), l.port));
    else
    {
      if(!s) s.reset(new Socket());
      require(!s->is_open(), "a stream that is not connected is open");
      if(c.chance(1, 5)) { Listener dead(false); s->open(dead.host.c_str(), dead.port); require(!s->is_open() && s->bad(), "opening a connection nobody accepts must fail"); s->clear(); c << "refused\n"; }
      if(c.chance(1, 10)) { s->open("", l.port); require(!s->is_open() && s->bad(), "opening without a host must fail"); s->clear(); }
      if(c.chance(1, 10)) { *s << "lost" << std::flush; require(!s->good(), "writing to a stream that is not connected must fail"); s->clear(); }
      if(c.chance(1, 10)) { require(s->get() == EOF, "reading from a stream that is not connected"); s->clear(); }
      s->open(l.host.c_str(), l.port);
    }
    require(s->is_open() && s->good(), "could not connect"); Fd peer(l.take()); require(peer.fd >= 0, "the connection did not arrive"); no_wait(peer.fd);
    S pending, incoming; size_t at = 0; bool half = false, ended = false;
    auto check_out = [&](const char* when) { bool stuck = false; S got = pull(peer.fd, pending.size(), &stuck); if(got != pending) pbt::fail(S("bytes that arrived after ") + when + "\n  wanted (" + std::to_string(pending.size()) + ") " + pbt::esc(pending.substr(0, 200)) + "\n  got    (" + std::to_string(got.size()) + ") " + pbt::esc(got.substr(0, 200)) + (stuck ? "\n  and no more came" : "")); pending.clear(); };
    c.list(1, 3 + c.size() / 8, [&](int) {
      if(ended) return;
      switch(c.weighted({ 4, 3, 4, 5, 2, 1, 1 }))
      {
        case 0: { S b = bytes(c, length(c)); if(b.size() > 1000) big = true; c << "write " << b.size() << "\n"; if(c.flip()) s->write(b.data(), b.size()); else if(c.flip()) *s << b; else for(char ch : b) s->put(ch); require(s->good(), "writing failed"); pending += b; break; }
        case 1: { c << "flush\n"; if(c.flip()) s->flush(); else { *s << std::endl; pending += "\n"; } require(s->good(), "flushing failed"); check_out("a flush"); break; }
        case 2: { if(half) break; S b = bytes(c, length(c)); if(incoming.size() - at + b.size() > 50000) break; if(b.size() > 1000) big = true; c << "peer sends " << b.size() << "\n"; push(peer.fd, b); incoming += b; break; }
        case 3:
        {
          size_t left = incoming.size() - at; if(left == 0 && !half) break;
          size_t n = c.flip() ? c.below(left + 1) : left; if(half && c.chance(1, 3)) n = left + 1 + c.below(3);
          if(n == 0) break; c << "read " << n << " of " << left << "\n";
          S b(n, '?'); size_t got = 0;
          if(c.flip()) { s->read(&b[0], n); got = s->gcount(); } else for(; got < n; ++got) { int ch = s->get(); if(ch == EOF) break; b[got] = static_cast<char>(ch); }
          require_eq(got, std::min(n, left), "number of bytes read"); b.resize(got); if(b != incoming.substr(at, got)) pbt::fail("bytes read\n  wanted " + pbt::esc(incoming.substr(at, std::min<size_t>(got, 200))) + "\n  got    " + pbt::esc(b.substr(0, 200)));
          at += got; if(n > left) { require(s->eof(), "no end of file after the peer's last byte"); ended = true; } else require(s->good(), "reading failed");
          break;
        }
        case 4:
        {
          if(at == 0) break; int n = c.range(1, static_cast<int>(std::min<size_t>(4, at))); c << "put back " << n << "\n"; bool other = c.chance(1, 4); S exp;
          for(int i = 0; i < n; ++i) { if(other) { s->putback('Z'); exp = "Z" + exp; incoming[at - 1 - i] = 'Z'; } else { s->unget(); exp = incoming[at - 1 - i] + exp; } }
          require(s->good(), "four characters can always be put back"); for(char ch : exp) require_eq(s->get(), static_cast<int>(static_cast<unsigned char>(ch)), "character put back"); break;
        }
        case 5: { if(half) break; c << "peer has no more\n"; shutdown(peer.fd, SHUT_WR); half = true; break; }
        default: { Listener other; c << "open while open\n"; s->open(other.host.c_str(), other.port); require(s->bad(), "opening an open stream must fail"); require(s->is_open(), "a failed open closed the connection"); s->clear(); break; }
      }
    });
    // closing a connection with bytes unread resets it, and output may be lost then
    bool reset = at != incoming.size(); if(reset && !c.chance(1, 8)) { S b(incoming.size() - at, '?'); s->read(&b[0], b.size()); require(s->good() && b == incoming.substr(at), "reading the rest"); reset = false; }
    S last = c.pick({ "close", "destroy", "peer resets" }); c << last << "\n";
    if(ended) { s->clear(); if(last == "peer resets") last = "close"; }
    if(last == "peer resets")
    {
      // nothing but an error may come of writing to a peer that has gone
      peer.reset(); for(int i = 0; i < 3; ++i) *s << "into the void" << std::flush; s->clear(); s->close(); s->clear();
    }
    else if(last == "close") { s->close(); if(!ended && !reset) require(s->good(), "closing failed"); }
    if(last == "destroy") s.reset(); else require(!s->is_open(), "a closed stream is open");
    if(peer.fd >= 0 && !reset) { check_out("the end of the stream"); bool stuck = false; S more = pull(peer.fd, 1, &stuck); require(!stuck, "the connection was not closed"); require_eq(more, S(), "bytes nobody wrote"); }
  }
  c.nontrivial(big || conns > 1);
}

// ---------------------------------------------------------------- HTTP
struct Server
{
  Listener l; std::thread t; S request; std::vector<S> segments; bool stuck = false, came = false; size_t pause = 0;
  void start() { t = std::thread([this] { run(); }); }
  void run()
  {
    Fd p(l.take()); if(p.fd < 0) return; came = true; no_wait(p.fd);
    while(request.find("\n\n") == S::npos && request.find("\r\n\r\n") == S::npos) { S b = pull(p.fd, 1, &stuck); if(b.empty()) { shutdown(p.fd, SHUT_WR); return; } request += b; }
    for(auto& s : segments) { push(p.fd, s); if(pause) usleep(static_cast<useconds_t>(pause)); }
    shutdown(p.fd, SHUT_WR); while(!pull(p.fd, 4096, &stuck).empty()) { }
  }
  void join() { if(t.joinable()) { shutdown(l.fd.fd, SHUT_RDWR); t.join(); } }
  ~Server() { join(); }
};

S drain(std::istream& i, pbt::Ctx& c)
{
  S r; if(c.flip()) { std::ostringstream o; char b[777]; while(i.read(b, sizeof b), i.gcount()) o.write(b, i.gcount()); return o.str(); }
  for(int ch = i.get(); ch != EOF; ch = i.get()) r += static_cast<char>(ch); return r;
}

struct Reader : Arabica::SAX::DefaultHandler<S> { S text; S error; void characters(const S& s) override { text += s; } void fatalError(const Arabica::SAX::SAXParseException<S>& e) override { error = e.what(); } };

void http(pbt::Ctx& c)
{
  Inject inj(c); Server v; bool parse = c.chance(1, 4), crlf = !c.chance(1, 6); S nl = crlf ? "\r\n" : "\n";
  S path = c.pick({ "/", "/x.xml", "/a/b/c.xml", "/q?x=1&y=2", "/s?u=http://h/", "/t;v=1", "/%20", "" }); S frag = c.pick({ "", "", "#f", "#a/b?c" });
  if(path == "" && c.flip()) path = "?q";
  S url = "http://" + v.l.host + ":" + std::to_string(v.l.port) + path + frag;
  S head = S(c.pick({ "HTTP/1.0 200 OK", "HTTP/1.1 200 OK", "HTTP/1.1 200" })) + nl; size_t longest = 0;
  c.list(0, 6, [&](int) { S h = c.pick({ "Content-Type: text/xml", "Server: x", "Date: Thu, 19 Nov 2026 00:00:00 GMT", "X-A:", "Set-Cookie: a=b; path=/" }); if(c.chance(1, 6)) { size_t n = c.pick<size_t>({ 100, 990, 1000, 1021, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 3000 }); h = "X-Long: "; while(h.size() < n) h += "abc def"[h.size() % 7]; } longest = std::max(longest, h.size()); head += h + nl; });
  S body; bool cut = !parse && c.chance(1, 10); 
  if(parse) { S t; size_t n = length(c); while(t.size() < n) t += "abcdefg \n.-"[c.size() > 20 && t.size() > 50 ? t.size() * 7 % 11 : c.below(11)]; body = "<d>" + t + "</d>"; }
  else { body = bytes(c, length(c)); if(c.chance(1, 3)) body = S(c.pick({ "\r\n", "\n", "\r\n\r\n", "\r", "\n\n" })) + body; }
  S all = head + nl + body; if(cut) { all = head.substr(0, c.below(head.size() + 1)); body.clear(); c.label("response cut off in its header"); }
  for(size_t i = 0; i < all.size(); ) { size_t n = c.flip() ? all.size() - i : std::min(all.size() - i, 1 + length(c)); v.segments.push_back(all.substr(i, n)); i += n; if(v.segments.size() > 30) { v.segments.push_back(all.substr(i)); break; } }
  if(v.segments.size() > 1 && c.chance(1, 10)) v.pause = 300;
  c << "GET " << path << frag << "\nresponse " << pbt::esc(all.substr(0, 300)) << "\n" << all.size() << " bytes in " << v.segments.size() << " pieces\n"; c.label(parse ? "parse over HTTP" : "read over HTTP"); if(!crlf) c.label("lines ending in LF");
  c.nontrivial(longest > 1000 || body.size() > 1000 || v.segments.size() > 1);
  v.start(); S got, err;
  {
    Source src(url);
    if(parse) { Arabica::SAX::XMLReader<S> p; Reader h; p.setContentHandler(h); p.setErrorHandler(h); p.parse(src); got = "<d>" + h.text + "</d>"; err = h.error; }
    else { InputSourceResolver r(src, SA()); std::istream* i = r.resolve(); if(i) got = drain(*i, c); else if(!cut) err = "not opened"; }
  }
  v.join(); require(!v.stuck, "the client stopped reading or writing"); require(v.came, "no connection was made");
  require_eq(err, S(), "error"); if(got != body) pbt::fail("content\n  wanted (" + std::to_string(body.size()) + ") " + pbt::esc(body.substr(0, 200)) + "\n  got    (" + std::to_string(got.size()) + ") " + pbt::esc(got.substr(0, 200)));
  // the request
  std::vector<S> lines; { S q = v.request; for(size_t i; (i = q.find("\r\n")) != S::npos; ) { lines.push_back(q.substr(0, i)); q.erase(0, i + 2); } require_eq(q, S(), "request not in lines ending in CR LF: " + pbt::esc(v.request)); }
  require(lines.size() >= 2 && lines.back().empty(), "the request does not end in an empty line"); S want = path.empty() || path[0] != '/' ? "/" + path : path;
  require(lines[0] == "GET " + want + " HTTP/1.0" || lines[0] == "GET " + want + " HTTP/1.1", "request line: " + pbt::esc(lines[0]) + " for " + url);
  bool host = false; for(auto& x : lines) host = host || x == "Host: " + v.l.host || x == "Host: " + v.l.host + ":" + std::to_string(v.l.port); require(host, "no Host header: " + pbt::esc(v.request));
}

// ---------------------------------------------------------------- what a system id opens
int alive = 0; std::vector<S> asked; S served; bool refuse = false;
struct Counted : std::istringstream { explicit Counted(const S& s) : std::istringstream(s) { ++alive; } ~Counted() override { --alive; } };
std::istream* resolver1(const std::string& u) { asked.push_back("1 " + u); return refuse ? 0 : new Counted(served); }
std::istream* resolver2(const std::string& u) { asked.push_back("2 " + u); return refuse ? 0 : new Counted(served + "2"); }

struct Scratch
{
  S dir; std::vector<S> files; Scratch() { char t[] = "/tmp/arabica-u06-XXXXXX"; if(!mkdtemp(t)) throw pbt::Discard(); dir = t; }
  S add(const S& name, const S& content) { S f = dir + "/" + name; std::ofstream o(f.c_str(), std::ios::binary); o << content; files.push_back(f); return f; }
  ~Scratch() { for(auto& f : files) unlink(f.c_str()); rmdir(dir.c_str()); }
};

void resolving(pbt::Ctx& c)
{
  alive = 0; asked.clear(); refuse = false; Scratch d; std::map<S, int> reg; S content = bytes(c, length(c)); served = bytes(c, c.below(40)); bool odd = false; c.label("system ids");
  S file = d.add(c.pick({ "x.xml", "a b.xml", "a#b", "q?y.dtd", "x%20y" , "a&b", "z.XML", "c:d" }), content);
  struct Unregister { ~Unregister() { InputSourceResolver::unRegisterResolver("mem"); InputSourceResolver::unRegisterResolver("x-mem"); } } unreg;
  c.list(1, 2 + c.size() / 8, [&](int) {
    switch(c.weighted({ 2, 1, 4, 3, 3, 2, 1 }))
    {
      case 0: { S m = c.pick({ "mem", "x-mem" }); int w = c.range(1, 2); c << "register " << m << " " << w << "\n"; InputSourceResolver::registerResolver(m, w == 1 ? resolver1 : resolver2); reg[m] = w; break; }
      case 1: { S m = c.pick({ "mem", "x-mem", "y-mem" }); c << "unregister " << m << "\n"; InputSourceResolver::unRegisterResolver(m); reg.erase(m); break; }
      case 2:
      {
        S m = c.pick({ "mem", "x-mem" }), u = m + c.pick({ ":x", "://h/p", "://h:8/p?q#f", ":", ":a b" }); refuse = c.chance(1, 5); c << "resolve " << u << (refuse ? " (refused)" : "") << "\n"; asked.clear(); Source s(u); s.setPublicId("pub"); odd = true;
        { InputSourceResolver r(s, SA()); std::istream* i = r.resolve(); auto g = reg.find(m);
          if(g == reg.end() || refuse) require(i == 0, "something was opened for " + u); else { require(i != 0, "not opened: " + u); require_eq(drain(*i, c), served + (g->second == 2 ? "2" : ""), "content of " + u); }
          if(g == reg.end()) require(asked.empty(), "a resolver that is not registered was asked"); else { require_eq(asked.size(), size_t(1), "resolvers asked"); require_eq(asked[0], std::to_string(g->second) + " " + u, "asked for"); } }
        require_eq(alive, 0, "streams left behind"); refuse = false; break;
      }
      case 3: { S u = c.flip() ? file : "file://" + file; c << "resolve " << u << "\n"; Source s(u); InputSourceResolver r(s, SA()); std::istream* i = r.resolve(); require(i != 0, "not opened: " + u); S got = drain(*i, c); require(got == content, "content of " + u); break; }
      case 4: { S u = c.pick(std::vector<S>{ file, S("mem:x"), S("http://127.0.0.1:1/"), S(""), d.dir + "/none" }); c << "byte stream and " << u << "\n"; asked.clear(); std::unique_ptr<Counted> b(new Counted("own")); { Source s(u); s.setByteStream(*b); InputSourceResolver r(s, SA()); require(r.resolve() == b.get(), "the byte stream given was not used"); } require_eq(alive, 1, "the caller's stream was deleted"); require(asked.empty(), "a resolver was asked although there is a byte stream"); break; }
      case 5: { S u = c.pick(std::vector<S>{ d.dir + "/none", "file://" + d.dir + "/none", S("nosuch://h/p/none"), S("none/such/file") }); c << "resolve " << u << "\n"; Source s(u); InputSourceResolver r(s, SA()); require(r.resolve() == 0, "something was opened for " + u); break; }
      default: { Listener dead(false); S u = "http://" + dead.host + ":" + std::to_string(dead.port) + "/x"; c << "resolve " << u << " where nobody listens\n"; Source s(u); InputSourceResolver r(s, SA()); require(r.resolve() == 0, "something was opened for " + u); break; }
    }
  });
  c.nontrivial(odd);
}
} // namespace

PBT_PROPERTY(U06, "more than a kilobyte passes at once, the stream is opened again, a response comes in pieces or has a long header line, or a registered scheme is resolved")
{
  switch(c.weighted({ 5, 4, 3 })) { case 0: session(c); break; case 1: http(c); break; default: resolving(c); }
}
