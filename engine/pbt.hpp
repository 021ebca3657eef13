// Choice-sequence property-based testing engine.
//
// A property is a function of a Ctx: every random decision of a case is drawn
// through Ctx::below(), which records it.  A case is therefore a finite
// sequence of integers: it can be replayed from a file, and it is shrunk by
// deleting / lowering integers and re-running the property on the result, each
// attempt in a forked child so that crashes, sanitizer reports and hangs are
// shrunk exactly like ordinary assertion failures.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <unordered_set>

namespace pbt {

struct Fail { std::string msg; };
struct Discard { };

inline uint64_t mix64(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline uint64_t hash_str(const std::string& s)
{
  uint64_t h = 1469598103934665603ULL;
  for(unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix64(h);
}

class Ctx
{
public:
  enum Mode { RANDOM, REPLAY, BYTES };

  // random mode
  Ctx(uint64_t seed, int size, uint64_t* shared, uint64_t cap) :
    mode_(RANDOM), rng_(seed), size_(size), shared_(shared), cap_(cap) { }
  // replay mode
  Ctx(const std::vector<uint64_t>& r, int size, uint64_t* shared, uint64_t cap) :
    mode_(REPLAY), replay_(r), size_(size), shared_(shared), cap_(cap) { }
  // bytes (libFuzzer) mode
  Ctx(const uint8_t* d, size_t n) :
    mode_(BYTES), bytes_(d), nbytes_(n), size_(60), shared_(0), cap_(1u << 20) { }

  // uniform in [0, bound)
  uint64_t below(uint64_t bound)
  {
    if(bound <= 1) return 0;
    uint64_t v = 0;
    if(n_ < cap_)
      switch(mode_)
      {
        case RANDOM: rng_ += 0x9e3779b97f4a7c15ULL; v = mix64(rng_) % bound; break;
        case REPLAY: v = n_ < replay_.size() ? replay_[n_] % bound : 0; break;
        case BYTES:
          {
            int w = bound <= 256 ? 1 : bound <= 65536 ? 2 : 4;
            for(int i = 0; i < w; ++i)
              v = (v << 8) | (pos_ < nbytes_ ? bytes_[pos_++] : 0);
            v %= bound;
          }
      }
    if(shared_ && n_ < cap_) { shared_[1 + n_] = v; shared_[0] = n_ + 1; }
    ++n_;
    return v;
  }
  // inclusive
  int range(int lo, int hi) { return hi <= lo ? lo : lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo) + 1)); }
  // true with probability num/den; shrinks to false
  bool chance(int num, int den) { return below(den) >= static_cast<uint64_t>(den - num); }
  bool flip() { return below(2) == 1; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + below(l.size())); }
  // weighted index; index 0 is the simplest
  int weighted(std::initializer_list<int> w)
  {
    uint64_t t = 0; for(int x : w) t += x;
    uint64_t v = below(t); int i = 0;
    for(int x : w) { if(v < static_cast<uint64_t>(x)) return i; v -= x; ++i; }
    return 0;
  }
  // "one more element?" - keeps lists shrinkable by block deletion
  bool more(int num, int den) { return chance(num, den); }
  // calls f up to hi times (at least lo), average somewhere between
  template<class F> int list(int lo, int hi, F f)
  {
    int n = 0;
    int avg = lo + (hi - lo + 1) / 2; if(avg < 1) avg = 1;
    while(n < hi && (n < lo || chance(avg, avg + 1))) { f(n); ++n; }
    return n;
  }

  int size() const { return size_; }
  uint64_t draws() const { return n_; }

  // evidence
  void label(const std::string& l) { labels.insert(l); }
  void nontrivial(bool b = true) { if(b) nontrivial_ = true; }
  bool is_nontrivial() const { return nontrivial_; }
  template<class T> Ctx& operator<<(const T& t) { desc << t; return *this; }

  std::ostringstream desc;
  std::set<std::string> labels;

private:
  Mode mode_;
  uint64_t rng_ = 0;
  std::vector<uint64_t> replay_;
  const uint8_t* bytes_ = 0;
  size_t nbytes_ = 0, pos_ = 0;
  int size_ = 50;
  uint64_t* shared_;
  uint64_t cap_;
  uint64_t n_ = 0;
  bool nontrivial_ = false;
};

struct Property
{
  std::string id;
  std::string rule;
  void (*fn)(Ctx&);
};

inline std::vector<Property>& registry() { static std::vector<Property> r; return r; }
struct Reg { Reg(const char* id, const char* rule, void (*fn)(Ctx&)) { registry().push_back(Property{ id, rule, fn }); } };

// A known finding: a deterministic probe that returns true while the listed
// input still fails.
struct Known { std::string id; std::string key; bool (*fn)(); };
inline std::vector<Known>& known() { static std::vector<Known> r; return r; }
struct RegKnown { RegKnown(const char* id, const char* key, bool (*fn)()) { known().push_back(Known{ id, key, fn }); } };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_PROPERTY(ID, RULE) \
  static void PBT_CAT(pbt_prop_, ID)(pbt::Ctx& c); \
  static pbt::Reg PBT_CAT(pbt_reg_, ID)(#ID, RULE, PBT_CAT(pbt_prop_, ID)); \
  static void PBT_CAT(pbt_prop_, ID)(pbt::Ctx& c)
#define PBT_KNOWN(ID, KEY, FN) \
  static pbt::RegKnown PBT_CAT(pbt_known_, __LINE__)(#ID, KEY, FN)

template<class A> inline void show1(std::ostream& o, const A& a) { o << a; }
inline void show1(std::ostream& o, const std::wstring& a) { for(wchar_t w : a) { if(w < 127) o << char(w); else o << "\\u{" << std::hex << unsigned(w) << std::dec << "}"; } }
inline void show(std::ostream&) { }
template<class A, class... B> inline void show(std::ostream& o, const A& a, const B&... b) { show1(o, a); show(o, b...); }

template<class... B> [[noreturn]] inline void fail(const B&... b)
{ std::ostringstream o; show(o, b...); throw Fail{ o.str() }; }
template<class... B> inline void require(bool ok, const B&... b)
{ if(!ok) fail(b...); }
template<class A, class B2, class... B> inline void require_eq(const A& got, const B2& want, const B&... b)
{ if(!(got == want)) fail(b..., ": got [", got, "] want [", want, "]"); }

// printable form of a byte string
inline std::string esc(const std::string& s)
{
  std::string r; char b[8];
  for(unsigned char ch : s)
    if(ch == '\n') r += "\\n";
    else if(ch == '\\') r += "\\\\";
    else if(ch < 32 || ch == 127) { snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
    else r += static_cast<char>(ch);
  return r;
}

int run_main(int argc, char** argv);

} // namespace pbt
