// U01-U05: encodings, converting streams, URIs, names, text helpers
#include <pbt.hpp>
#include <convert/base64codecvt.hpp>
#include <convert/rot13codecvt.hpp>
#include <convert/utf8ucs2codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf16utf8codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <convert/utf8iso88591codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <io/convert_adaptor.hpp>
#include <io/convertstream.hpp>
#include <io/uri.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <XML/XMLCharacterClasses.hpp>
#include <XML/QName.hpp>
#include <XML/strings.hpp>
#include <XML/escaper.hpp>
#include <text/UnicodeCharacters.hpp>
#include <text/normalize_whitespace.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <libxml/chvalid.h>
#include <cwchar>
#include <map>
#include <memory>
#include <sstream>

using pbt::require; using pbt::require_eq; using pbt::Ctx;
typedef std::string S; typedef std::wstring W; typedef std::vector<long> U;   // U: any string as a list of units
typedef std::codecvt_base CB;

// ---------------------------------------------------------------- reference codecs
namespace {
U units(const S& s) { U r; for(size_t i = 0; i < s.size(); ++i) r.push_back(static_cast<unsigned char>(s[i])); return r; }
U units(const W& s) { return U(s.begin(), s.end()); }
template<class C> std::basic_string<C> text(const U& u) { std::basic_string<C> r; for(long x : u) r += static_cast<C>(x); return r; }
S hex(const U& u) { std::ostringstream o; o << std::hex; for(size_t i = 0; i < u.size() && i < 80; ++i) o << (i ? " " : "") << u[i]; if(u.size() > 80) o << " ... (" << std::dec << u.size() << ")"; return o.str(); }

enum End { OK, TAIL, BAD, TAIL_OR_BAD };   // how a conversion ends: all done, an unfinished character is left, malformed
struct Conv { U out; size_t used; End end; Conv() : used(0), end(OK) { } };

void put8(U& o, unsigned long c)
{
  if(c < 0x80) o.push_back(c);
  else if(c < 0x800) { o.push_back(0xC0 + c / 64); o.push_back(0x80 + c % 64); }
  else if(c < 0x10000) { o.push_back(0xE0 + c / 4096); o.push_back(0x80 + c / 64 % 64); o.push_back(0x80 + c % 64); }
  else { o.push_back(0xF0 + c / 262144); o.push_back(0x80 + c / 4096 % 64); o.push_back(0x80 + c / 64 % 64); o.push_back(0x80 + c % 64); }
}
// decodes UTF-8 into code points
Conv from8(const U& in, std::vector<size_t>* starts = 0)
{
  Conv r; size_t i = 0;
  while(i < in.size())
  {
    long b = in[i]; int n = b < 0x80 ? 1 : b >= 0xC2 && b <= 0xDF ? 2 : b >= 0xE0 && b <= 0xEF ? 3 : b >= 0xF0 && b <= 0xF4 ? 4 : 0;
    if(n == 0) { r.end = ((b & 0xC0) == 0xC0 && b < 0xF8 && i + 1 >= in.size()) ? TAIL_OR_BAD : BAD;
                 if(b >= 0xF5 && b < 0xF8 && i + 3 >= in.size()) r.end = TAIL_OR_BAD; break; }
    long c = n == 1 ? b : b & (n == 2 ? 0x1F : n == 3 ? 0x0F : 0x07); int k = 1; bool bad = false;
    for(; k < n && i + k < in.size(); ++k) { if((in[i + k] & 0xC0) != 0x80) { bad = true; break; } c = c * 64 + (in[i + k] & 0x3F); }
    if(bad) { r.end = BAD; break; }
    if(k < n) { bool over = k > 1 && ((b == 0xE0 && in[i + 1] < 0xA0) || (b == 0xF0 && in[i + 1] < 0x90) || (b == 0xF4 && in[i + 1] > 0x8F)); r.end = over ? TAIL_OR_BAD : TAIL; break; }
    if((n == 3 && c < 0x800) || (n == 4 && (c < 0x10000 || c > 0x10FFFF))) { r.end = BAD; break; }
    if(starts) starts->push_back(i);
    r.out.push_back(c); i += n;
  }
  r.used = i; return r;
}
enum Kind { UTF8_ENC, UTF8_DEC, U16BE_ENC, U16BE_DEC, U16LE_ENC, U16LE_DEC, ISO_TO_8, ISO_FROM_8, B64_ENC, B64_DEC, ROT, CAST };
const char* const kind_names[] = { "wide->utf8", "utf8->wide", "wide->utf16be", "utf16be->wide", "wide->utf16le", "utf16le->wide", "iso8859-1->utf8", "utf8->iso8859-1", "base64 encode", "base64 decode", "rot13", "cast" };
const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

Conv ref(Kind k, const U& in)
{
  Conv r;
  switch(k)
  {
    case UTF8_ENC: for(long x : in) { if(x < 0 || x > 0x10FFFF) { r.end = BAD; break; } put8(r.out, x); ++r.used; } return r;
    case UTF8_DEC: return from8(in);
    case U16BE_ENC: case U16LE_ENC:
      for(long x : in) { if(x < 0 || x > 0xFFFF) { r.end = BAD; break; } long h = x / 256, l = x % 256; r.out.push_back(k == U16BE_ENC ? h : l); r.out.push_back(k == U16BE_ENC ? l : h); ++r.used; } return r;
    case U16BE_DEC: case U16LE_DEC:
      for(size_t i = 0; i + 1 < in.size(); i += 2) { r.out.push_back(k == U16BE_DEC ? in[i] * 256 + in[i + 1] : in[i + 1] * 256 + in[i]); r.used += 2; }
      if(in.size() % 2) r.end = TAIL; return r;
    case ISO_TO_8: for(long x : in) put8(r.out, x); r.used = in.size(); return r;
    case ISO_FROM_8: r = from8(in); for(long& x : r.out) if(x > 0xFF) x = '?'; return r;
    case B64_ENC:
      for(size_t i = 0; i < in.size(); i += 3)
      {
        size_t n = std::min<size_t>(3, in.size() - i); long v = in[i] * 65536 + (n > 1 ? in[i + 1] * 256 : 0) + (n > 2 ? in[i + 2] : 0);
        r.out.push_back(B64[v >> 18]); r.out.push_back(B64[v >> 12 & 63]); r.out.push_back(n > 1 ? B64[v >> 6 & 63] : '='); r.out.push_back(n > 2 ? B64[v & 63] : '=');
      }
      r.used = in.size(); return r;
    case B64_DEC:
      {
        std::vector<int> q;
        for(long ch : in)
        {
          const char* p = ch ? std::strchr(B64, static_cast<int>(ch)) : 0;
          if(ch == '=') q.push_back(-1); else if(p) q.push_back(static_cast<int>(p - B64)); else continue;
          if(q.size() == 4)
          {
            r.out.push_back((q[0] << 2 | q[1] >> 4) & 255); if(q[2] >= 0) r.out.push_back((q[1] << 4 | q[2] >> 2) & 255); if(q[3] >= 0) r.out.push_back((q[2] << 6 | q[3]) & 255);
            q.clear();
          }
        }
        if(q.size() > 1) r.out.push_back((q[0] << 2 | q[1] >> 4) & 255); if(q.size() > 2 && q[2] >= 0) r.out.push_back((q[1] << 4 | q[2] >> 2) & 255);
        r.used = in.size(); return r;
      }
    case CAST: r.out = in; r.used = in.size(); return r;
    case ROT: for(long x : in) r.out.push_back(x >= 'a' && x <= 'z' ? (x - 'a' + 13) % 26 + 'a' : x >= 'A' && x <= 'Z' ? (x - 'A' + 13) % 26 + 'A' : x); r.used = in.size(); return r;
  }
  return r;
}

// ---------------------------------------------------------------- generators
long gen_cp(Ctx& c, long top)
{
  long v;
  switch(c.weighted({ 8, 3, 3, 3, 2, 2 }))
  {
    case 0: v = c.range(0x20, 0x7E); break;
    case 1: v = c.range(0x80, 0xFF); break;
    case 2: v = c.range(0x100, 0x7FF); break;
    case 3: { static const long edge[] = { 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFEFF, 0x0A, 0x0D, 0x20AC, 0x10000, 0x10FFFF, 0xFFFF, 0x3D, 0x00, 0x1F600, 0xFFFFF, 0x40000 }; v = edge[c.below(23)]; break; }
    case 4: v = c.range(0x800, 0xD7FF); break;
    default: v = c.flip() ? c.range(0xE000, 0xFFFF) : c.range(0x10000, 0x10FFFF);
  }
  return v > top ? v % (top < 0xD800 ? top + 1 : 0xD800) : v;
}
int gen_len(Ctx& c, bool big)
{
  if(!big) return c.range(0, 2 + c.size() / 5);
  switch(c.weighted({ 3, 3, 2, 1 })) { case 0: return c.range(0, 20); case 1: return 1024 * c.range(1, 3) - 6 + c.range(0, 12); case 2: return c.range(900, 2600); default: return 4096 * c.range(1, 2) - 5 + c.range(0, 10); }
}
// a text in code points; long ones repeat a short unit so that a failure stays small
U gen_text(Ctx& c, int len, long top)
{
  U t;
  if(len <= 60) { for(int i = 0; i < len; ++i) t.push_back(gen_cp(c, top)); return t; }
  U pat; int pl = c.range(1, 7); for(int i = 0; i < pl; ++i) pat.push_back(gen_cp(c, top));
  for(int i = 0; i < len; ++i) t.push_back(pat[i % pl]);
  c.list(0, 4, [&](int) { t[c.below(t.size())] = gen_cp(c, top); });
  return t;
}
// an input for the conversion, made from a text
U gen_input(Ctx& c, Kind k, int len, bool allow_bad, bool stream = false)
{
  U in; long top = (k == U16BE_ENC || k == U16LE_ENC || k == U16BE_DEC || k == U16LE_DEC) ? 0xFFFF : (k == ISO_TO_8 || k == B64_ENC || k == B64_DEC || k == ROT) ? 0xFF : k == CAST ? 0x7F : 0x10FFFF;
  U t = gen_text(c, len, top);
  switch(k)
  {
    case UTF8_DEC: case ISO_FROM_8: for(long x : t) put8(in, x); break;
    case U16BE_DEC: in = ref(U16BE_ENC, t).out; break;
    case U16LE_DEC: in = ref(U16LE_ENC, t).out; break;
    case B64_DEC:
      {
        // pieces encoded one by one, with line breaks between
        size_t i = 0;
        do
        {
          size_t n = c.chance(1, 2) ? t.size() - i : c.below(t.size() - i + 1); U e = ref(B64_ENC, U(t.begin() + i, t.begin() + i + n)).out;
          in.insert(in.end(), e.begin(), e.end()); i += n; if(c.chance(1, 4)) in.push_back('\n');
        } while(i < t.size() && c.more(2, 3));
        c.list(0, 2, [&](int) { static const char junk[] = "\n\r -_.,\t~"; in.insert(in.begin() + c.below(in.size() + 1), junk[c.below(9)]); });
        break;
      }
    default: in = t;
  }
  if(allow_bad && c.chance(1, 4))
  {
    if(k == UTF8_DEC || k == ISO_FROM_8)
    {
      static const char* const bad[] = { "\x80", "\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xC3\x28", "\xE2\x28\xA1", "\xE2\x82\x28", "\xF0\x28\x8C\xBC" };
      U b = units(S(bad[c.below(19)])); std::vector<size_t> at; from8(in, &at); at.push_back(in.size()); size_t p = c.flip() ? in.size() : at[c.below(at.size())];
      in.insert(in.begin() + p, b.begin(), b.end());
      if(c.chance(1, 3)) in.resize(c.below(in.size() + 1));
    }
    else if(k == UTF8_ENC) { static const long bad[] = { 0x110000, 0x7FFFFFFF, 0x200000, -1 }; in.insert(in.begin() + c.below(in.size() + 1), bad[c.below(stream ? 3 : 4)]); }
    else if(k == U16BE_ENC || k == U16LE_ENC) { static const long bad[] = { 0x10000, 0x10FFFF, 0x1F600, -1 }; in.insert(in.begin() + c.below(in.size() + 1), bad[c.below(stream ? 3 : 4)]); }
    else if(!in.empty() && (k == U16BE_DEC || k == U16LE_DEC || k == B64_DEC)) { if(k != B64_DEC || in.back() != '=') in.pop_back(); }
  }
  return in;
}
bool plain(const U& in) { for(long x : in) if(x >= 0x80) return false; return true; }
void same_end(End want, End got, const S& what)
{
  if(want == TAIL_OR_BAD) { require(got == TAIL || got == BAD, what + ": not reported as malformed or unfinished"); return; }
  static const char* const n[] = { "ok", "unfinished character", "malformed" };
  require_eq(S(n[got]), S(n[want]), what + ": how the conversion ended");
}

// ---------------------------------------------------------------- U01
typedef std::codecvt<wchar_t, char, std::mbstate_t> CvtWC; typedef std::codecvt<char, wchar_t, std::mbstate_t> CvtCW; typedef std::codecvt<char, char, std::mbstate_t> CvtCC;
namespace C = Arabica::convert;
std::locale with(int f)
{
  switch(f)
  {
    case 0: return std::locale(std::locale(), new C::utf8ucs2codecvt);
    case 1: return std::locale(std::locale(), new C::ucs2utf8codecvt);
    case 2: return std::locale(std::locale(), new C::utf16utf8codecvt);
    case 3: return std::locale(std::locale(), new C::utf16beucs2codecvt);
    case 4: return std::locale(std::locale(), new C::utf16leucs2codecvt);
    case 5: return std::locale(std::locale(), new C::utf8iso88591codecvt);
    case 6: return std::locale(std::locale(), new C::iso88591utf8codecvt);
    case 7: return std::locale(std::locale(), new C::base64codecvt);
    case 8: return std::locale(std::locale(), new C::rot13codecvt);
    default: return std::locale(std::locale(), new std::codecvt<char, wchar_t, std::mbstate_t>);
  }
}
const std::locale& loc(int f) { static std::vector<std::locale> l; if(l.empty()) for(int i = 0; i < 10; ++i) l.push_back(with(i)); return l[f]; }
const char* const facet_names[] = { "utf8ucs2", "ucs2utf8", "utf16utf8", "utf16beucs2", "utf16leucs2", "utf8iso88591", "iso88591utf8", "base64", "rot13", "char/wchar_t" };
Kind kind_of(int f, bool out)
{
  static const Kind k[10][2] = { { UTF8_DEC, UTF8_ENC }, { UTF8_ENC, UTF8_DEC }, { UTF8_ENC, UTF8_DEC }, { U16BE_DEC, U16BE_ENC }, { U16LE_DEC, U16LE_ENC }, { ISO_FROM_8, ISO_TO_8 }, { ISO_TO_8, ISO_FROM_8 }, { B64_DEC, B64_ENC }, { ROT, ROT }, { CAST, CAST } };
  return k[f][out];
}
template<class Cvt, class F, class T> CB::result call(const Cvt& cvt, std::true_type, std::mbstate_t& st, const F* f, const F* fe, const F*& fn, T* t, T* te, T*& tn) { return cvt.out(st, f, fe, fn, t, te, tn); }
template<class Cvt, class F, class T> CB::result call(const Cvt& cvt, std::false_type, std::mbstate_t& st, const F* f, const F* fe, const F*& fn, T* t, T* te, T*& tn) { return cvt.in(st, f, fe, fn, t, te, tn); }

// converts in, handing over the input and the room for the output a little at a time
template<class Cvt, class Out, class F, class T> Conv drive(Ctx& c, const Cvt& cvt, Out dir, const U& in, bool whole, bool b64enc, U* expect)
{
  Conv r; std::mbstate_t st = std::mbstate_t(); size_t given = 0; bool grow = true; int room_min = 0, calls = 0; size_t piece = 0;
  int maxin = whole ? 1 << 20 : c.range(1, 9), maxout = whole ? 1 << 20 : c.range(1, 9);
  for(;;)
  {
    if(grow)
    {
      piece = r.used; given = std::min(in.size(), given + (whole ? in.size() : 1 + c.below(maxin)));
    }
    size_t n = given - r.used, room = whole ? in.size() * 4 + 16 : std::max<size_t>(room_min, c.below(maxout + 1));
    // exact heap blocks, so that stepping outside them is seen
    std::unique_ptr<F[]> from(new F[n]); for(size_t i = 0; i < n; ++i) from[i] = static_cast<F>(in[r.used + i]);
    std::unique_ptr<T[]> to(new T[room]);
    const F* fn = 0; T* tn = 0;
    CB::result res = call(cvt, dir, st, static_cast<const F*>(from.get()), static_cast<const F*>(from.get() + n), fn, to.get(), to.get() + room, tn);
    require(fn >= from.get() && fn <= from.get() + n, "the input position is outside the input"); require(tn >= to.get() && tn <= to.get() + room, "the output position is outside the output");
    require(res == CB::ok || res == CB::partial || res == CB::error, "the conversion says there is nothing to convert");
    for(T* p = to.get(); p != tn; ++p) r.out.push_back(sizeof(T) == 1 ? static_cast<unsigned char>(*p) : static_cast<long>(*p));
    bool progress = fn != from.get() || tn != to.get(); r.used += fn - from.get();
    require(++calls < 20000 + 20 * static_cast<int>(in.size()), "the conversion makes no headway");
    if(res == CB::error) { r.end = BAD; return r; }
    if(res == CB::ok)
    {
      require(fn == from.get() + n, "reports success with input left over"); room_min = 0; grow = true;
      if(b64enc && expect) { U e = ref(B64_ENC, U(in.begin() + piece, in.begin() + given)).out; expect->insert(expect->end(), e.begin(), e.end()); piece = given; }
      if(given == in.size()) return r;
      continue;
    }
    grow = false;
    if(!progress)
    {
      if(room < 8) room_min = 8;
      else if(given < in.size()) grow = true;
      else { r.end = TAIL; return r; }
    }
  }
}
template<class Cvt, class I, class E> void codec_case(Ctx& c, int f, bool out)
{
  Kind k = kind_of(f, out); bool whole = c.chance(1, 5);
  U in = gen_input(c, k, gen_len(c, whole && c.flip()), true); Conv want = ref(k, in);
  S what = S(facet_names[f]) + (out ? " out (" : " in (") + kind_names[k] + ")";
  c << what << (whole ? " in one go: " : " in pieces: ") << hex(in) << "\n"; c.label(what);
  const Cvt& cvt = std::use_facet<Cvt>(loc(f)); U expect; Conv got;
  require(!cvt.always_noconv(), what + " claims there is nothing to convert");
  if(out) got = drive<Cvt, std::true_type, I, E>(c, cvt, std::true_type(), in, whole, k == B64_ENC, &expect); else got = drive<Cvt, std::false_type, E, I>(c, cvt, std::false_type(), in, whole, false, 0);
  require_eq(hex(got.out), hex(k == B64_ENC ? expect : want.out), what + ": result"); require(got.out == (k == B64_ENC ? expect : want.out), what + ": result");
  if(k == B64_ENC) require(ref(B64_DEC, got.out).out == in, what + ": does not decode to the original");
  require_eq(got.used, want.used, what + ": input converted"); same_end(want.end, got.end, what);
  c.nontrivial((k >= B64_ENC ? in.size() > 3 : !plain(in)) && (!whole || in.size() > 100));
  c.label(want.end == OK ? "complete" : want.end == TAIL ? "unfinished tail" : "malformed");
}
}

PBT_PROPERTY(U01, "the text has a character outside ASCII (Base64: more than one quad) and is handed over in pieces or is long")
{
  int f = static_cast<int>(c.below(10)); bool out = c.flip();
  if(f == 0 || f == 3 || f == 4) codec_case<CvtWC, wchar_t, char>(c, f, out);
  else if(f == 1 || f == 2 || f == 9) codec_case<CvtCW, char, wchar_t>(c, f, out);
  else codec_case<CvtCC, char, char>(c, f, out);
}

// ---------------------------------------------------------------- U02
namespace {
template<class Ch> class ChunkBuf : public std::basic_streambuf<Ch>
{
public:
  typedef std::basic_streambuf<Ch> B; typedef std::char_traits<Ch> T;
  ChunkBuf(const std::basic_string<Ch>& d, Ctx& c, int most) : data_(d), pos_(0), c_(c), most_(most) { }
  typename T::int_type underflow()
  {
    if(this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
    if(pos_ == data_.size()) return T::eof();
    size_t n = std::min<size_t>(data_.size() - pos_, most_ > 1 ? 1 + c_.below(most_) : 1); buf_.assign(data_.begin() + pos_, data_.begin() + pos_ + n); pos_ += n;
    this->setg(&buf_[0], &buf_[0], &buf_[0] + n); return T::to_int_type(*this->gptr());
  }
private:
  std::basic_string<Ch> data_; size_t pos_; Ctx& c_; int most_; std::vector<Ch> buf_;
};
template<class I> S show(const std::basic_string<I>& s) { return hex(units(s)); }

template<class I, class E> void read_case(Ctx& c, int f)
{
  Kind k = kind_of(f, false); S what = S("reading through ") + facet_names[f]; c.label(what);
  int streams = c.chance(1, 4) ? 2 : 1; std::vector<std::basic_string<E>> src; std::basic_string<I> want; std::vector<size_t> ends; bool many = false;
  for(int i = 0; i < streams; ++i)
  {
    U in = gen_input(c, k, gen_len(c, true), i + 1 == streams, true); Conv r = ref(k, in); want += text<I>(r.out); src.push_back(text<E>(in)); ends.push_back(want.size()); many = many || r.out.size() > 1024;
    c << what << ", " << in.size() << " units: " << hex(in) << "\n";
  }
  std::vector<std::unique_ptr<std::basic_streambuf<E>>> bufs; std::vector<std::unique_ptr<std::basic_istream<E>>> ext;
  for(auto& s : src) { int most = c.weighted({ 2, 1, 1, 1 }); static const int m[] = { 1 << 20, 1, 7, 1500 }; bufs.emplace_back(new ChunkBuf<E>(s, c, m[most])); ext.emplace_back(new std::basic_istream<E>(bufs.back().get())); }
  Arabica::io::iconvert_adaptor<I, std::char_traits<I>, E> is(*ext[0]); is.imbue(loc(f));
  size_t p = 0, at = 0; int back = 0; bool ended = false; int ops = 0;   // back: characters that can still be put back
  typedef std::char_traits<I> T;
  while(!ended || c.more(1, 2))
  {
    require(++ops < 40000, "never reaches the end");
    size_t end = ends[at];
    int op = ops > 60 ? 1 : c.weighted({ 4, 5, 2, 3, 2, 2, 1, 1 }); size_t left = end - p;
    switch(op)
    {
      case 0: { typename T::int_type g = is.get(); c << "get "; if(left) { require(!T::eq_int_type(g, T::eof()), what + ": ends too early after " + std::to_string(p)); require_eq(static_cast<long>(T::to_char_type(g)), static_cast<long>(want[p]), what + ": character " + std::to_string(p)); ++p; back = std::min(4, back + 1); } else { require(T::eq_int_type(g, T::eof()), what + ": character after the end"); ended = true; } break; }
      case 1: { size_t n = ops > 60 ? 700 : c.chance(1, 3) ? 1 + c.below(1100) : 1 + c.below(12); std::vector<I> b(n + 1); is.read(&b[0], n); c << "read " << n << " "; size_t got = static_cast<size_t>(is.gcount());
                require_eq(show(std::basic_string<I>(&b[0], got)), show(want.substr(p, std::min(n, left))), what + ": characters from " + std::to_string(p)); require(std::basic_string<I>(&b[0], got) == want.substr(p, std::min(n, left)), what + ": characters"); p += got; back = static_cast<int>(std::min<size_t>(4, back + got)); if(n > left) ended = true; break; }
      case 2: { typename T::int_type g = is.peek(); c << "peek "; if(left) require_eq(static_cast<long>(g), static_cast<long>(T::to_int_type(want[p])), what + ": peek at " + std::to_string(p)); else { require(T::eq_int_type(g, T::eof()), what + ": peek after the end"); ended = true; } break; }
      case 3: { if(!back) break; is.clear(); is.unget(); c << "unget "; require(is.good(), what + ": cannot take back character " + std::to_string(p - 1)); --p; --back; break; }
      case 4: { size_t n = 1 + c.below(c.chance(1, 3) ? 1500 : 5); is.ignore(n); c << "ignore " << n << " "; require_eq(static_cast<size_t>(is.gcount()), std::min(n, left), what + ": characters skipped"); back = static_cast<int>(std::min<size_t>(4, back + std::min(n, left))); p += std::min(n, left); if(n > left) ended = true; break; }
      case 5: { if(!back) break; is.clear(); is.putback(want[p - 1]); c << "putback "; require(is.good(), what + ": cannot put back character " + std::to_string(p - 1)); --p; --back; break; }
      case 6: { I delim = left ? want[p + c.below(left)] : static_cast<I>('x'); std::basic_string<I> l; std::getline(is, l, delim); c << "getline "; size_t e = want.find(delim, p); if(e == std::basic_string<I>::npos || e >= end) e = end;
                require_eq(show(l), show(want.substr(p, e - p)), what + ": line from " + std::to_string(p)); require(l == want.substr(p, e - p), what + ": line"); size_t took = e - p + (e < end ? 1 : 0); back = static_cast<int>(std::min<size_t>(4, back + took)); p += took; if(e == end) ended = true; break; }
      case 7: { c << "in_avail "; is.rdbuf()->in_avail(); break; }
    }
    if(is.rdstate()) is.clear();
    if(p == ends[at] && ended && at + 1 < ends.size()) { ++at; is.set_stream(*ext[at]); c << "\nnext stream: "; ended = false; }
    if(ops > 500 && p == ends[at] && ended) break;
  }
  c.nontrivial(many); c.label(many ? "longer than the buffer" : "short");
}
template<class I, class E> void write_case(Ctx& c, int f)
{
  Kind k = kind_of(f, true); S what = S("writing through ") + facet_names[f]; c.label(what);
  U in = gen_input(c, k, gen_len(c, true), true, true); c << what << ", " << in.size() << " units: " << hex(in) << "\n";
  std::basic_ostringstream<E> ext[2]; U want[2]; U pending; size_t p = 0; int at = 0; bool bad = false, closed = c.flip(); std::basic_string<I> t = text<I>(in);
  {
    Arabica::io::oconvert_adaptor<I, std::char_traits<I>, E> os(ext[0]); os.imbue(loc(f));
    auto flushed = [&]() { Conv r = ref(k, pending); want[at].insert(want[at].end(), r.out.begin(), r.out.end()); pending.erase(pending.begin(), pending.begin() + r.used); bad = r.end == BAD || (r.end == TAIL_OR_BAD); };
    auto check = [&]() { for(int i = 0; i < 2; ++i) { require_eq(hex(units(ext[i].str())), hex(want[i]), what + ": bytes written"); require(units(ext[i].str()) == want[i], what + ": bytes written"); } };
    int ops = 0;
    while(p < t.size())
    {
      int op = ++ops > 60 ? 1 : c.weighted({ 3, 5, 2, 3 });
      if(op == 3) { os.flush(); c << "flush "; flushed(); check(); if(bad) break; require(os.good(), what + ": stream failed"); if(c.chance(1, 4) && !at && pending.empty()) { at = 1; os.set_stream(ext[1]); c << "next stream "; } continue; }
      size_t n = op == 0 ? 1 : ops > 60 ? t.size() - p : std::min<size_t>(t.size() - p, 1 + c.below(c.chance(1, 3) ? 2000 : 9));
      if(op == 0) os.put(t[p]); else if(op == 1) os.write(t.data() + p, n); else os << t.substr(p, n);
      c << "write " << n << " "; pending.insert(pending.end(), in.begin() + p, in.begin() + p + n); p += n;
    }
    if(!bad) { if(!closed) { os.flush(); flushed(); check(); } else flushed(); }
    if(bad && !closed) { bool strict = ref(k, pending).end == BAD; if(strict) require(!os.good(), what + ": malformed text accepted"); }
    pending.clear(); if(bad) closed = false;
  }
  if(closed) for(int i = 0; i < 2; ++i) { require_eq(hex(units(ext[i].str())), hex(want[i]), what + ": bytes written when closed"); require(units(ext[i].str()) == want[i], what + ": bytes written when closed"); }
  c.nontrivial(in.size() > 1024); c.label(in.size() > 1024 ? "longer than the buffer" : "short");
}
template<class I, class E> void string_streams(Ctx& c, int f)
{
  S what = S("convert streams with ") + facet_names[f]; c.label(what); bool big = false;
  Arabica::io::basic_iconvertstream<I, std::char_traits<I>, E> is; Arabica::io::basic_oconvertstream<I, std::char_traits<I>, E> os; is.imbue(loc(f)); os.imbue(loc(f));
  c.list(1, 3, [&](int) {
    U in = gen_input(c, kind_of(f, false), gen_len(c, true), true, true); Conv r = ref(kind_of(f, false), in); c << what << " in " << hex(in) << "\n"; big = big || in.size() > 4096;
    is.clear(); is.str(text<E>(in)); std::basic_string<I> w = text<I>(r.out); require_eq(show(is.str()), show(w), what + ": converted"); require(is.str() == w, what + ": converted");
    std::basic_string<I> got; typename std::char_traits<I>::int_type g; while(!std::char_traits<I>::eq_int_type(g = is.get(), std::char_traits<I>::eof())) got += std::char_traits<I>::to_char_type(g);
    require(got == w, what + ": read back");
    U o = gen_input(c, kind_of(f, true), gen_len(c, true), true, true); Conv ro = ref(kind_of(f, true), o); c << what << " out " << hex(o) << "\n"; std::basic_string<I> ot = text<I>(o);
    size_t i = 0; while(i < ot.size()) { size_t n = std::min<size_t>(ot.size() - i, 1 + c.below(c.flip() ? 3000 : 5)); if(ot.size() - i > 3000) n = 3000; os << ot.substr(i, n); i += n; }
    std::basic_string<E> res = os.str(); require_eq(show(res), show(text<E>(ro.out)), what + ": written"); require(res == text<E>(ro.out), what + ": written");
    require(os.str().empty(), what + ": written twice");
    if(c.chance(1, 4)) { os.str(ot); require(os.str() == text<E>(ro.out), what + ": given string"); }
  });
  c.nontrivial(big);
}
void adaptors(Ctx& c)
{
  typedef Arabica::default_string_adaptor<S> SA; typedef Arabica::default_string_adaptor<W> WA; c.label("string adaptors");
  U t = gen_text(c, gen_len(c, true), 0x10FFFF); t.erase(std::remove(t.begin(), t.end(), 0), t.end()); U e; for(long x : t) put8(e, x); S n = text<char>(e); W w = text<wchar_t>(t);
  c << "string adaptors: " << hex(t) << "\n";
  require_eq(show(WA::construct_from_utf8(n.c_str())), show(w), "wide string from UTF-8"); require(WA::construct_from_utf8(n.c_str()) == w, "wide string from UTF-8");
  require(WA::construct_from_utf8(n.data(), static_cast<int>(n.size())) == w, "wide string from UTF-8 with length"); require(WA::asStdString(w) == n, "UTF-8 of a wide string"); require(WA::asStdWString(w) == w, "wide string of a wide string");
  require(SA::construct_from_utf16(w.c_str()) == n, "narrow string from wide"); require(SA::construct_from_utf16(w.data(), static_cast<int>(w.size())) == n, "narrow string from wide with length");
  require(SA::asStdWString(n) == w, "wide string of a narrow string"); require(SA::asStdString(n) == n, "narrow string of a narrow string"); require(SA::construct_from_utf8(n.c_str()) == n, "narrow string from UTF-8");
  require(WA::construct_from_utf16(w.c_str()) == w && WA::construct_from_utf16(w.data(), static_cast<int>(w.size())) == w, "wide string from wide");
  size_t k = t.empty() ? 0 : c.below(t.size()); U pre; for(size_t i = 0; i < k; ++i) put8(pre, t[i]);
  require(WA::construct_from_utf8(n.data(), static_cast<int>(pre.size())) == w.substr(0, k), "wide string from the start of a UTF-8 string");
  c.nontrivial(!plain(t) && t.size() > 4);
}
}

PBT_PROPERTY(U02, "the text is longer than the 1024 (streams) or 4096 (strings) units of the internal buffer, or mixes scripts")
{
  int f = static_cast<int>(c.below(10)), w = c.weighted({ 5, 5, 2, 1 });
  if(w == 3) { adaptors(c); return; }
  if(f == 0 || f == 3 || f == 4) { if(w == 0) read_case<wchar_t, char>(c, f); else if(w == 1) write_case<wchar_t, char>(c, f); else string_streams<wchar_t, char>(c, f); }
  else if(f == 1 || f == 2 || f == 9) { if(w == 0) read_case<char, wchar_t>(c, f); else if(w == 1) write_case<char, wchar_t>(c, f); else string_streams<char, wchar_t>(c, f); }
  else { if(w == 0) read_case<char, char>(c, f); else if(w == 1) write_case<char, char>(c, f); else string_streams<char, char>(c, f); }
}

// ---------------------------------------------------------------- U03
namespace {
struct Ref { bool has_scheme, has_auth, has_query, has_frag; S scheme, auth, path, query, frag; Ref() : has_scheme(false), has_auth(false), has_query(false), has_frag(false) { } };
// RFC 3986, appendix B
Ref split(S s)
{
  Ref r; size_t i = s.find_first_of(":/?#");
  if(i != S::npos && i > 0 && s[i] == ':' && std::isalpha(static_cast<unsigned char>(s[0]))) { r.has_scheme = true; r.scheme = s.substr(0, i); s.erase(0, i + 1); }
  if((i = s.find('#')) != S::npos) { r.has_frag = true; r.frag = s.substr(i + 1); s.erase(i); }
  if((i = s.find('?')) != S::npos) { r.has_query = true; r.query = s.substr(i + 1); s.erase(i); }
  if(s.compare(0, 2, "//") == 0) { r.has_auth = true; i = s.find('/', 2); r.auth = s.substr(2, i == S::npos ? S::npos : i - 2); s.erase(0, 2 + r.auth.size()); }
  r.path = s; return r;
}
S join(const Ref& r) { return (r.has_scheme ? r.scheme + ":" : "") + (r.has_auth ? "//" + r.auth : S()) + r.path + (r.has_query ? "?" + r.query : S()) + (r.has_frag ? "#" + r.frag : S()); }
// RFC 3986, 5.2.4, literally
S undot(S in)
{
  S out;
  while(!in.empty())
  {
    if(in.compare(0, 3, "../") == 0) in.erase(0, 3); else if(in.compare(0, 2, "./") == 0) in.erase(0, 2);
    else if(in.compare(0, 3, "/./") == 0) in.erase(0, 2); else if(in == "/.") in = "/";
    else if(in.compare(0, 4, "/../") == 0 || in == "/..") { in = in == "/.." ? S("/") : in.substr(3); size_t i = out.rfind('/'); out.erase(i == S::npos ? 0 : i); }
    else if(in == "." || in == "..") in.clear();
    else { size_t i = in.find('/', 1); out += in.substr(0, i); in.erase(0, i == S::npos ? in.size() : i); }
  }
  return out;
}
Ref resolve(const Ref& b, const Ref& r)
{
  Ref t;
  if(r.has_scheme) { t = r; t.path = undot(r.path); return t; }
  t.has_scheme = true; t.scheme = b.scheme; t.has_frag = r.has_frag; t.frag = r.frag;
  if(r.has_auth) { t.has_auth = true; t.auth = r.auth; t.path = undot(r.path); t.has_query = r.has_query; t.query = r.query; return t; }
  t.has_auth = b.has_auth; t.auth = b.auth; t.has_query = r.has_query; t.query = r.query;
  if(r.path.empty()) { t.path = b.path; if(!r.has_query) { t.has_query = b.has_query; t.query = b.query; } }
  else if(r.path[0] == '/') t.path = undot(r.path);
  else { S m; if(b.has_auth && b.path.empty()) m = "/" + r.path; else { size_t i = b.path.rfind('/'); m = (i == S::npos ? S() : b.path.substr(0, i + 1)) + r.path; } t.path = undot(m); }
  return t;
}
S seg(Ctx& c) { return c.pick({ "a", "b", "arabica", "news.xml", "c.d", "x-y_z~", "%20q", "..", ".", "..", ".", "...", ".a", "a:b", "", "a;p=1", "..b", "@", "v1.0" }); }
S gen_path(Ctx& c, bool rooted, int most)
{
  S p; int n = c.list(0, most, [&](int i) { S s = seg(c); if(i == 0 && s.empty()) s = "e"; if(i == 0 && !rooted && s.find(':') != S::npos) s = "e"; p += (i ? "/" : "") + s; });
  if(n && c.chance(1, 3)) p += "/";
  return (rooted ? "/" : "") + p;
}
S tail(Ctx& c) { S r; if(c.chance(1, 5)) r += S("?") + c.pick({ "q=1", "", "a/b", "x/../y", "u=http://h/p", "a:b" }); if(c.chance(1, 6)) r += S("#") + c.pick({ "frag", "", "a/b", "x?y", "s/../t" }); return r; }
S gen_auth(Ctx& c) { return S(c.pick({ "localhost", "www.jezuk.co.uk", "h", "10.0.0.1", "[::1]", "a-b.example" })) + (c.chance(1, 3) ? c.pick({ ":8080", ":80", ":1", ":443" }) : ""); }
S gen_abs(Ctx& c)
{
  if(c.chance(1, 5)) return S("file://") + (c.chance(1, 3) ? gen_auth(c) : S()) + gen_path(c, true, 5) ;
  S a = S(c.pick({ "http", "https", "ftp", "x-y+1.z" })) + "://" + gen_auth(c); if(!c.chance(1, 5)) a += gen_path(c, true, 5); return a + tail(c);
}
S rel(Ctx& c)
{
  switch(c.weighted({ 6, 3, 1, 2, 1, 1 })) { case 5: return S(c.pick({ "urn", "mailto", "news", "htt", "http", "https", "httpsx", "ft", "ftp", "ftps", "x-y", "fil", "files" })) + ":" + c.pick({ "isbn:0201", "a@b.example", "x", "five.xml", "g/h", "g?q#f" });
    case 0: { S r = gen_path(c, false, 6) + tail(c); return r; } case 1: return gen_path(c, true, 5) + tail(c); case 2: return "//" + gen_auth(c) + (c.flip() ? gen_path(c, true, 3) : S()) + tail(c); case 3: return gen_abs(c); default: { S t = tail(c); return t.empty() ? "?x" : t; } }
}
void check_uri(const Arabica::io::URI& u, const Ref& w, const S& what)
{
  S host = w.auth, port; size_t k = host.rfind(':'); if(k != S::npos && host.find(']', k) == S::npos) { port = host.substr(k + 1); host.erase(k); }
  if(port.empty()) port = w.scheme == "http" ? "80" : w.scheme == "https" ? "443" : "0";
  Ref p; p.path = w.path; p.has_query = w.has_query; p.query = w.query; p.has_frag = w.has_frag; p.frag = w.frag;
  require_eq(u.scheme(), w.scheme, what + ": scheme"); require_eq(u.host(), host, what + ": host"); require_eq(u.port(), port, what + ": port"); require_eq(u.path(), join(p), what + ": path");
  Ref s = split(u.as_string()); if(w.has_auth != s.has_auth && w.auth.empty() && s.auth.empty()) s.has_auth = w.has_auth;   // file:/x and file:///x
  require_eq(join(s), join(w), what + ": as a string");
}
}

PBT_PROPERTY(U03, "the reference has a dot segment, a query, a colon in a segment or a port")
{
  using Arabica::io::URI;
  auto special = [](const S& s) { return s.find("./") != S::npos || s.find("/.") != S::npos || s.find('?') != S::npos || s.find('#') != S::npos || s.rfind(':') > s.find("//"); };
  if(c.chance(1, 5))
  {
    // local paths: every character but the separators is part of a name
    S base = c.pick({ "", "/" }); bool rooted = !base.empty(); int depth = c.list(1, 4, [&](int i) { base += (i ? "/" : "") + S(c.pick({ "one", "two", "t h", "x#y", "q?", "a.xml" })); });
    S r; int up = 0; if(c.chance(1, 5)) r = "./"; while(up < depth - 1 && c.chance(1, 3)) { r += "../"; ++up; } S leaf = c.pick({ "five", "six.dtd", "a#1.xml", "sub/x.xml", "sub/./y", "sub/../z", "sub/deep/../../z", "b/c:d" }); r += leaf;
    c << "base " << base << " reference " << r << "\n"; c.label("local path"); c.nontrivial(special(r));
    URI b(base), u(b, r); require_eq(b.as_string(), base, "printing a local path"); require_eq(b.path(), base, "path of a local path"); require_eq(b.scheme(), S(), "scheme of a local path"); require(!b.is_absolute(), "a local path is not an absolute URI");
    S m = base.substr(0, base.rfind('/') == S::npos ? 0 : base.rfind('/') + 1) + r, want = undot(rooted ? m : "/" + m); if(!rooted) want.erase(0, 1);
    require_eq(u.path(), want, "resolved local path"); require_eq(u.as_string(), want, "resolved local path as a string"); require_eq(u.host(), S(), "host of a local path");
    URI abs("http://h:81/x/y"), v(b, "http://h:81/x/y"); require(abs == v, "an absolute reference against a local path"); return;
  }
  S bs = gen_abs(c), rs = rel(c); c << "base " << bs << " reference " << rs << "\n"; c.nontrivial(special(rs) || special(bs));
  Ref br = split(bs), rr = split(rs); c.label(rr.has_scheme ? "absolute reference" : rr.has_auth ? "network path" : rr.path.empty() ? "empty path" : rr.path[0] == '/' ? "absolute path" : "relative path");
  URI b(bs); check_uri(b, br, "parsed base"); require(b.is_absolute(), "absolute URI");
  require(URI(b.as_string()) == b, "printing and parsing again gives an equal URI"); require(!(b != b), "a URI equals itself");
  const bool opaque = rr.has_scheme && !rr.has_auth && rr.scheme != "file";
  if(opaque && rr.scheme == br.scheme) rr.has_scheme = false;   // RFC 3986, 5.2.2: the scheme of the base may be taken for none
  if(opaque && rr.has_scheme) { c.label("opaque reference"); URI r(rs), u(b, rs); require_eq(r.scheme(), rr.scheme, "scheme of an opaque reference"); require_eq(r.as_string(), rs, "printing an opaque reference"); require_eq(u.as_string(), rs, "resolved opaque reference"); require_eq(u.scheme(), rr.scheme, "scheme of a resolved opaque reference"); require_eq(u.host(), S(), "host of an opaque reference"); check_uri(b, br, "the base after resolving"); return; }
  if(!opaque && (!rr.has_auth || rr.has_scheme)) { URI r(rs); if(!rr.has_scheme) { require_eq(r.scheme(), S(), "scheme of a relative reference"); require_eq(r.path(), rs, "path of a relative reference"); require_eq(r.as_string(), rs, "printing a relative reference"); require(!r.is_absolute(), "relative reference"); } else check_uri(r, rr, "parsed reference"); }
  Ref want = resolve(br, rr); URI u(b, rs); check_uri(u, want, "resolved"); require(u.is_absolute(), "a resolved reference is absolute");
  Ref nofrag = br; nofrag.has_frag = false; nofrag.frag.clear(); check_uri(URI(b, ""), nofrag, "resolved empty reference");
  URI copy(u), assigned; assigned = u; require(copy == u && assigned == u, "copies are equal"); assigned.swap(b); check_uri(assigned, br, "swapped"); check_uri(b, want, "swapped");
  Ref other = want; if(c.flip()) other.path += "z"; else { other.has_auth = true; other.auth = other.auth.empty() ? "zz" : other.auth + "1"; if(other.path.empty() || other.path[0] != '/') other.path = "/" + other.path; }
  require(URI(join(other)) != u, "different URIs are not equal");
}

// ---------------------------------------------------------------- U04
namespace {
namespace X = Arabica::XML;
bool r_letter(unsigned c) { return xmlIsBaseCharQ(c) || xmlIsIdeographicQ(c); }
bool r_digit(unsigned c) { return xmlIsDigitQ(c); }
bool r_ncname_char(unsigned c) { return r_letter(c) || r_digit(c) || c == '.' || c == '-' || c == '_' || xmlIsCombiningQ(c) || xmlIsExtenderQ(c); }
void check_char(unsigned u)
{
  wchar_t w = static_cast<wchar_t>(u); std::ostringstream o; o << "U+" << std::hex << u << " "; S n = o.str();
  require_eq(X::is_base_char(w), xmlIsBaseCharQ(u) != 0, n + "base character"); require_eq(X::is_ideographic(w), xmlIsIdeographicQ(u) != 0, n + "ideographic"); require_eq(X::is_letter(w), r_letter(u), n + "letter");
  require_eq(X::is_digit(w), r_digit(u), n + "digit"); require_eq(X::is_combining_char(w), xmlIsCombiningQ(u) != 0, n + "combining character"); require_eq(X::is_extender(w), xmlIsExtenderQ(u) != 0, n + "extender");
  require_eq(X::is_space(w), u == 9 || u == 10 || u == 13 || u == 32, n + "white space"); require_eq(X::is_char(w), xmlIsCharQ(u) != 0, n + "character"); require_eq(X::is_letter_or_digit(w), r_letter(u) || r_digit(u), n + "letter or digit");
  require_eq(X::is_ncname_char(w), r_ncname_char(u), n + "NCName character"); require_eq(X::is_name_char(w), r_ncname_char(u) || u == ':', n + "name character");
}
template<class Ch> void check_constants()
{
  typedef Arabica::text::Unicode<Ch> T;
  const Ch got[] = { T::HORIZONTAL_TABULATION, T::LINE_FEED, T::CARRIAGE_RETURN, T::SPACE, T::EXCLAMATION_MARK, T::QUOTATION_MARK, T::NUMBER_SIGN, T::PERCENT_SIGN, T::AMPERSAND, T::APOSTROPHE, T::LEFT_PARENTHESIS, T::RIGHT_PARENTHESIS, T::ASTERISK, T::PLUS_SIGN, T::COMMA, T::HYPHEN_MINUS, T::FULL_STOP, T::SLASH,
    T::NUMBER_0, T::NUMBER_1, T::NUMBER_2, T::NUMBER_3, T::NUMBER_4, T::NUMBER_5, T::NUMBER_6, T::NUMBER_7, T::NUMBER_8, T::NUMBER_9, T::COLON, T::SEMI_COLON, T::LESS_THAN_SIGN, T::EQUALS_SIGN, T::GREATER_THAN_SIGN, T::QUESTION_MARK,
    T::CAPITAL_A, T::CAPITAL_B, T::CAPITAL_C, T::CAPITAL_D, T::CAPITAL_E, T::CAPITAL_F, T::CAPITAL_G, T::CAPITAL_H, T::CAPITAL_I, T::CAPITAL_J, T::CAPITAL_K, T::CAPITAL_L, T::CAPITAL_M, T::CAPITAL_N, T::CAPITAL_O, T::CAPITAL_P, T::CAPITAL_Q, T::CAPITAL_R, T::CAPITAL_S, T::CAPITAL_T, T::CAPITAL_U, T::CAPITAL_V, T::CAPITAL_W, T::CAPITAL_X, T::CAPITAL_Y, T::CAPITAL_Z,
    T::LEFT_SQUARE_BRACKET, T::BACK_SLASH, T::RIGHT_SQUARE_BRACKET, T::LOW_LINE,
    T::LOWERCASE_A, T::LOWERCASE_B, T::LOWERCASE_C, T::LOWERCASE_D, T::LOWERCASE_E, T::LOWERCASE_F, T::LOWERCASE_G, T::LOWERCASE_H, T::LOWERCASE_I, T::LOWERCASE_J, T::LOWERCASE_K, T::LOWERCASE_L, T::LOWERCASE_M, T::LOWERCASE_N, T::LOWERCASE_O, T::LOWERCASE_P, T::LOWERCASE_Q, T::LOWERCASE_R, T::LOWERCASE_S, T::LOWERCASE_T, T::LOWERCASE_U, T::LOWERCASE_V, T::LOWERCASE_W, T::LOWERCASE_X, T::LOWERCASE_Y, T::LOWERCASE_Z };
  const char want[] = "\t\n\r !\"#%&'()*+,-./0123456789:;<=>?ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]_abcdefghijklmnopqrstuvwxyz";
  require_eq(sizeof(got) / sizeof(Ch), sizeof(want) - 1, "number of constants");
  for(size_t i = 0; i + 1 < sizeof(want); ++i) require_eq(static_cast<long>(got[i]), static_cast<long>(want[i]), S("constant for ") + want[i]);
}
bool r_ncname(const U& s, bool narrow)
{
  for(size_t i = 0; i < s.size(); ++i)
  {
    bool multi = narrow && s[i] >= 0x80;   // part of a multi-byte character
    if(!multi && !(i ? r_ncname_char(s[i]) : r_letter(s[i]) || s[i] == '_')) return false;
  }
  return !s.empty();
}
bool r_qname(const U& s, bool narrow)
{
  U::const_iterator k = std::find(s.begin(), s.end(), ':'); if(k == s.end()) return r_ncname(s, narrow);
  return r_ncname(U(s.begin(), k), narrow) && r_ncname(U(k + 1, s.end()), narrow);
}
template<class Str> struct Names
{
  typedef Arabica::default_string_adaptor<Str> SA; typedef X::QualifiedName<Str> QN; typedef typename Str::value_type Ch;
  static Str str(const U& u) { return text<Ch>(u); }
  static void check(Ctx& c, const U& u)
  {
    const bool narrow = sizeof(Ch) == 1; Str s = str(u); S n = S(narrow ? "narrow " : "wide ") + hex(u);
    require_eq(X::is_ncname<SA>(s), r_ncname(u, narrow), "NCName? " + n); require_eq(X::is_qname<SA>(s), r_qname(u, narrow), "QName? " + n);
    size_t k = std::find(u.begin(), u.end(), ':') - u.begin(); bool pre = k < u.size(); Str prefix = pre ? s.substr(0, k) : Str(), local = pre ? s.substr(k + 1) : s;
    std::map<Str, Str> ns; Str uris[] = { Str(), str(units(S("urn:a"))), str(units(S("urn:b"))), str(units(S("urn:default"))) };
    int bound = c.range(0, 2); if(bound) ns[prefix] = uris[bound]; if(c.flip()) ns[Str()] = uris[3]; ns[str(units(S("other")))] = uris[2]; bool attr = c.flip();
    Str want_uri = pre ? (ns.count(prefix) ? ns[prefix] : Str()) : attr ? Str() : ns.count(Str()) ? ns[Str()] : Str();
    try
    {
      QN q = QN::parseQName(s, attr, ns);
      require(r_qname(u, narrow), "accepted as a QName: " + n);
      require(q.prefix() == prefix && q.localName() == local, "prefix and local name of " + n); require(q.namespaceUri() == want_uri, "namespace of " + n); require(q.rawName() == s, "raw name of " + n);
      require_eq(q.has_prefix(), pre, "has a prefix: " + n); require_eq(q.has_namespaceUri(), !want_uri.empty(), "has a namespace: " + n); require(q.has_rawName(), "has a raw name: " + n);
      Str clark = want_uri.empty() ? local : str(units(S("{"))) + want_uri + str(units(S("}"))) + local; require(q.clarkName() == clark, "Clark name of " + n);
      QN copy(q), same = QN::parseQName(local, false, [&](const Str&) { return want_uri; }); require(copy == q && !(copy != q), "a copy is equal"); require(same == q, "same name with another prefix is equal");
      QN other = QN::parseQName(local, false, [&](const Str&) { return want_uri + str(units(S("x"))); }); require(other != q && !(other == q), "same local name in another namespace differs");
      QN longer = QN::parseQName(local + str(units(S("x"))), false, [&](const Str&) { return want_uri; }); require(longer != q, "another local name differs");
      longer = q; require(longer == q && longer.rawName() == s && longer.prefix() == prefix, "assignment");
      longer.set_prefix(uris[1]); require(longer.prefix() == uris[1] && longer == q, "setting the prefix");
    }
    catch(const std::runtime_error&) { require(!r_qname(u, narrow), "refused as a QName: " + n); }
  }
};
}

PBT_PROPERTY(U04, "a string with a colon or a character outside ASCII, or a block of code points")
{
  if(c.chance(1, 8))
  {
    // a block of code points, most often in the part of the table where the productions change
    unsigned block = static_cast<unsigned>(c.chance(9, 10) ? c.below(0x320) : c.below(0x11000)) * 256; if(c.chance(1, 8)) block = 0;
    if(block >= 0x20000 && block <= 0x32000) block -= 0x20000;
    c << "code points from " << block << "\n"; c.label("code point block"); for(unsigned u = block; u < block + 256 && u <= 0x10FFFF; ++u) check_char(u);
    if(block == 0) { check_constants<char>(); check_constants<wchar_t>(); } c.nontrivial(); return;
  }
  U u; int colons = c.weighted({ 3, 4, 1 });
  auto part = [&]() { c.list(c.chance(1, 8) ? 0 : 1, 5, [&](int i) {
      static const long odd[] = { '.', '-', '0', '9', ' ', '/', '@', '[', '`', '{', 0x7F, 0xB7, 0xD7, 0xF7, 0x300, 0x3005, 0x660, 0xE9, 0x4E00, 0x2160, 0x1F600, '*', '+', 0x132, 0x37E, 0x387 };
      switch(c.weighted({ 6, 1, 2, 2 })) { case 0: u.push_back("abzAZ_"[c.below(6)]); break; case 1: u.push_back(odd[c.below(26)]); break; case 2: { long x = c.flip() ? c.range(0xC0, 0x17F) : c.range(0x370, 0x3400); u.push_back(i == 0 && !r_letter(x) ? 'q' : x); break; } default: u.push_back("0.-x"[c.below(4)]); if(i == 0 && !c.chance(1, 6)) u.back() = 'x'; } }); };
  part(); for(int i = 0; i < colons; ++i) { u.push_back(':'); part(); }
  c << "name " << hex(u) << "\n"; U bytes; bool ascii = true; for(long x : u) { put8(bytes, x); ascii = ascii && x < 0x80; }
  c.nontrivial(colons || !ascii); c.label(r_qname(u, false) ? "QName" : "not a QName");
  Names<W>::check(c, u); Names<S>::check(c, bytes);
}

// ---------------------------------------------------------------- U05
namespace {
template<class Str> Str r_normalise(const Str& s)
{
  Str r; bool word = false, gap = false;
  for(size_t i = 0; i < s.size(); ++i) { bool sp = s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'; if(sp) { gap = word; continue; } if(gap) r += static_cast<typename Str::value_type>(' '); gap = false; word = true; r += s[i]; }
  return r;
}
// checks that esc is s with nothing but what must be (or > which may be) replaced by a reference to itself
void check_escaped(const U& s, const U& esc, bool attribute, const S& what)
{
  size_t j = 0;
  for(long x : s)
  {
    require(j < esc.size(), what + ": lost the end"); bool must = x == '<' || x == '&' || x == '\r' || (attribute && (x == '"' || x == '\t' || x == '\n')), may = must || x == '>';
    if(esc[j] == x && x != '&') { require(!must, what + ": not escaped: " + hex(U(1, x))); ++j; continue; }
    require(may && esc[j] == '&', what + ": changed " + hex(U(1, x)) + " in " + hex(esc)); U::const_iterator e = std::find(esc.begin() + j, esc.end(), ';'); require(e != esc.end(), what + ": unfinished reference");
    S n = text<char>(U(esc.begin() + j + 1, e)); long v = n == "lt" ? '<' : n == "gt" ? '>' : n == "amp" ? '&' : n == "quot" ? '"' : n.compare(0, 2, "#x") == 0 ? std::strtol(n.c_str() + 2, 0, 16) : n.compare(0, 1, "#") == 0 ? std::strtol(n.c_str() + 1, 0, 10) : -1;
    require_eq(v, x, what + ": reference &" + n + ";"); j = e - esc.begin() + 1;
  }
  require_eq(j, esc.size(), what + ": something added");
}
struct Catch : Arabica::SAX::DefaultHandler<S> { S text, attr; bool ok; Catch() : ok(true) { } void characters(const S& t) { text += t; } void startElement(const S&, const S&, const S&, const Arabica::SAX::Attributes<S>& a) { attr = a.getValue("a"); } void fatalError(const Arabica::SAX::SAXParseException<S>&) { ok = false; } };
}

PBT_PROPERTY(U05, "the string has white space to be normalised or a character to be escaped")
{
  U u; c.list(0, 3 + c.size() / 4, [&](int) { static const char sp[] = " \t\n\r <>&\"']"; switch(c.weighted({ 3, 4, 1 })) { case 0: u.push_back("abc;#x"[c.below(6)]); break; case 1: u.push_back(sp[c.below(11)]); break; default: { long x = gen_cp(c, 0x10FFFF); u.push_back(x < 0x20 || x == 0xFFFF || (x >= 0xFFFE && x <= 0xFFFF) ? 'n' : x); } } });
  U bytes; for(long x : u) put8(bytes, x); S s = text<char>(bytes); W w = text<wchar_t>(u); c << "string " << pbt::esc(s) << "\n"; c.nontrivial(s.find_first_of("<&\"\r\t\n ") != S::npos);
  typedef Arabica::default_string_adaptor<S> SA; typedef Arabica::default_string_adaptor<W> WA;
  S n = Arabica::text::normalize_whitespace<S, SA>(s); require_eq(n, r_normalise(s), "normalised"); require_eq(Arabica::text::normalize_whitespace<S, SA>(n), n, "normalised twice");
  require((Arabica::text::normalize_whitespace<W, WA>(w) == r_normalise(w)), "normalised wide string");
  std::ostringstream t, a; std::for_each(s.begin(), s.end(), X::text_escaper<char>(t)); std::for_each(s.begin(), s.end(), X::attribute_escaper<char>(a));
  std::wostringstream wt, wa; std::for_each(w.begin(), w.end(), X::text_escaper<wchar_t>(wt)); std::for_each(w.begin(), w.end(), X::attribute_escaper<wchar_t>(wa));
  check_escaped(bytes, units(t.str()), false, "text"); check_escaped(bytes, units(a.str()), true, "attribute"); check_escaped(u, units(wt.str()), false, "wide text"); check_escaped(u, units(wa.str()), true, "wide attribute");
  Catch h; Arabica::SAX::XMLReader<S> p; p.setContentHandler(h); p.setErrorHandler(h); std::istringstream is("<r a=\"" + a.str() + "\">" + t.str() + "</r>"); Arabica::SAX::InputSource<S> src(is); p.parse(src);
  require(h.ok, "the markup is not well-formed"); require_eq(h.text, s, "text read back"); require_eq(h.attr, s, "attribute value read back");
}
