// L10: char_, StrRef, SliceRef, usize and isize agree with char, &str, &[T], usize and isize of Rust.
#include "support/rs_std/char.h"
#include "support/rs_std/int.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"
#include "support/rs_std/unit.h"
#include "pbt.h"
#include <array>
#include <cstring>
#include <sstream>
#include <string_view>
using namespace std::string_literals;
using rs_std::StrRef; using rs_std::SliceRef; using rs_std::char_;
extern "C" {
int r_char(uint32_t, uint8_t*); int r_char_cmp(uint32_t, uint32_t); bool r_utf8(const uint8_t*, size_t);
int r_str(const void*, size_t*, uint64_t*); void r_sub(const void*, size_t, size_t, void*); int r_str_cmp(const void*, const void*);
}
static_assert(sizeof(StrRef) == 2 * sizeof(void*) && sizeof(char_) == 4 && sizeof(SliceRef<int>) == 2 * sizeof(void*));
static std::string hex(std::string_view s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); o += b; } return o; }
static uint64_t fnv(std::string_view s) { uint64_t h = 0xcbf29ce484222325; for (unsigned char c : s) h = (h ^ c) * 0x100000001b3; return h; }

static void one_char(uint32_t u, bool note) {
  uint8_t want[4]; int n = r_char(u, want);
  auto c = char_::from_u32(u);
  ++pbt::evals;
  auto bad = [&](const char* w) { pbt::fail("char " + std::to_string(u) + ": " + w); };
  if (c.has_value() != (n >= 0)) return bad("from_u32 accepts what char::from_u32 does not, or the reverse");
  if (!c) return;
  if (note) pbt::note("c" + std::to_string(u));
  if (static_cast<uint32_t>(*c) != u) return bad("the code point differs");
  if (std::memcmp(&*c, &u, 4)) return bad("the representation differs");
  if ((int)c->len_utf8() != n) return bad("len_utf8 differs");
  for (int extra : {0, 1, 4}) {
    uint8_t buf[16]; std::memset(buf, 0xee, 16);
    StrRef s = c->encode_utf8(std::span<uint8_t>(buf + 4, n + extra));
    if (s.size() != (size_t)n || (const uint8_t*)s.data() != buf + 4 || std::memcmp(buf + 4, want, n)) return bad("encode_utf8 differs");
    for (int i = 0; i < 16; ++i) if ((i < 4 || i >= 4 + n) && buf[i] != 0xee) return bad("encode_utf8 writes outside of its result");
  }
}
static void one_str(const std::string& s, bool note) {
  // On the heap, with its exact size.
  std::unique_ptr<char[]> p(new char[s.size()]); std::memcpy(p.get(), s.data(), s.size());
  std::string_view v(p.get(), s.size());
  bool want = r_utf8((const uint8_t*)p.get(), s.size());
  auto got = StrRef::FromUtf8(v);
  ++pbt::evals;
  if (got.has_value() != want) return pbt::fail("FromUtf8(" + hex(s) + ") is " + (got ? "accepted" : "refused") + ", Rust says otherwise");
  if (!got) return;
  if (note) pbt::note("s" + s);
  if (got->to_string_view() != v || std::string_view(*got) != v || got->size() != s.size() || got->len() != s.size() || got->empty() != s.empty()) return pbt::fail("contents of StrRef(" + hex(s) + ")");
  size_t n = 99; uint64_t h = 0;
  if (int e = r_str(&*got, &n, &h)) return pbt::fail("Rust cannot use StrRef(" + hex(s) + ") as &str: " + std::to_string(e));
  if (n != s.size() || h != fnv(s)) return pbt::fail("Rust reads StrRef(" + hex(s) + ") differently");
  StrRef u = StrRef::FromUtf8Unchecked(v);
  if (u != *got || !(u == v) || r_str(&u, &n, &h) || n != s.size()) return pbt::fail("FromUtf8Unchecked(" + hex(s) + ")");
}
static rc::Gen<std::string> gen_cp() {
  return rc::gen::map(rc::gen::weightedOneOf<uint32_t>({{4, rc::gen::inRange<uint32_t>(0x20, 0x80)}, {1, rc::gen::inRange<uint32_t>(0, 0x20)}, {2, rc::gen::inRange<uint32_t>(0x80, 0x800)},
    {2, rc::gen::inRange<uint32_t>(0x800, 0xd800)}, {1, rc::gen::inRange<uint32_t>(0xe000, 0x10000)}, {2, rc::gen::inRange<uint32_t>(0x10000, 0x110000)},
    {2, rc::gen::element<uint32_t>(0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff)}}),
    [](uint32_t u) { uint8_t b[4]; int n = r_char(u, b); return std::string((char*)b, n); });
}
static rc::Gen<std::string> gen_str() {
  return rc::gen::map(rc::gen::container<std::vector<std::string>>(gen_cp()), [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x; return s; });
}
static rc::Gen<std::string> gen_bytes() {
  return rc::gen::mapcat(gen_str(), [](std::string s) {
    return rc::gen::map(rc::gen::tuple(rc::gen::inRange(0, 6), rc::gen::arbitrary<size_t>(), rc::gen::arbitrary<char>(), rc::gen::element<std::string>("\xc0\x80"s, "\xed\xa0\x80"s, "\xf4\x90\x80\x80"s, "\xe0\x9f\xbf"s, "\xf0\x8f\xbf\xbf"s, "\xc1\xbf"s, "\xf5\x80\x80\x80"s, "\xff"s, "\x80"s, "\xf8\x88\x80\x80\x80"s)),
      [s](const std::tuple<int, size_t, char, std::string>& t) {
        auto [k, at, c, w] = t; std::string r = s;
        if (r.empty()) return r;
        at %= r.size();
        switch (k) { case 1: r[at] = c; break; case 2: r.erase(at, 1); break; case 3: r.insert(at, 1, c); break; case 4: r.resize(at); break; case 5: r.insert(at, w); break; }
        return r; }); });
}
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

template <class R, class P> void ints(const char* name) {
  pbt::prop(name, 4000, 200000, [](P a, P b) {
    pbt::note(std::to_string((uint64_t)a) + "," + std::to_string((uint64_t)b));
    using U = std::make_unsigned_t<P>;
    bool wraps = std::is_signed_v<P>; P s, d; wraps = wraps && (__builtin_add_overflow(a, b, &s) | __builtin_sub_overflow(a, b, &d));
    R x = a, y = b;
    RC_ASSERT((P)x == a); RC_ASSERT(std::memcmp(&x, &a, sizeof a) == 0 && sizeof x == sizeof a);
    RC_ASSERT((x == y) == (a == b)); RC_ASSERT((x != y) == (a != b)); RC_ASSERT((x < y) == (a < b)); RC_ASSERT((x <= y) == (a <= b)); RC_ASSERT((x > y) == (a > b)); RC_ASSERT((x >= y) == (a >= b));
    RC_ASSERT(sgn(x <=> y) == (a < b ? -1 : a > b));
    if (!wraps) {
      RC_ASSERT((P)(x + y) == (P)((U)a + (U)b)); RC_ASSERT((P)(x - y) == (P)((U)a - (U)b));
      R z = x; z += y; RC_ASSERT((P)z == (P)((U)a + (U)b)); R w = x; w -= y; RC_ASSERT((P)w == (P)((U)a - (U)b)); RC_ASSERT((P)x == a); RC_ASSERT((P)y == b);
      R q = x; R& r = (q += y); RC_ASSERT(&r == &q); R& t = (q -= y); RC_ASSERT(&t == &q && (P)q == a);
    }
    R def; RC_ASSERT((P)def == 0); def = x; RC_ASSERT((P)def == a);
  });
}

int main() {
  // Every code point, and those beyond.
  if (!getenv("PBT_ONLY")) {
    for (uint32_t u = 0; u < 0x110400 && !pbt::failed; ++u) one_char(u, (u & 0x3f) == 0x3f || u < 256);
    for (int b = 21; b < 32; ++b) for (int d = -2; d < 3; ++d) one_char((1u << b) + d, false);
    for (uint32_t u : {0xffffffffu, 0x80000041u, 0x110000u, 0x11000041u}) one_char(u, false);
    // Every text of up to two bytes, and those of up to five out of the bytes at which anything changes.
    one_str("", false);
    for (int a = 0; a < 256; ++a) { one_str(std::string(1, a), false); for (int b = 0; b < 256; ++b) one_str({(char)a, (char)b}, false); }
    const unsigned char edge[] = {0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff};
    for (char a : edge) for (char b : edge) for (char c : edge) { one_str({a, b, c}, false); if (pbt::failed) break; for (char d : edge) one_str({a, b, c, d}, false); }
    for (char a : {'\xf0', '\xf1', '\xf4', '\xe0', '\xc2', '\x41'}) for (char b : edge) for (char c : {'\x80', '\xbf', '\x41', '\xc2'}) for (char d : {'\x80', '\xbf', '\xe1'}) for (char e : edge) one_str({a, b, c, d, e}, false);
    static_assert(static_cast<uint32_t>(char_(U'\U0010ffff')) == 0x10ffff && static_cast<uint32_t>(char_('A')) == 'A' && char_::MAX == char_(U'\U0010ffff') && static_cast<uint32_t>(char_()) == 0);
    { char_ z; uint8_t b; StrRef s = z.encode_utf8(std::span<uint8_t>(&b, 1)); if (s != StrRef::FromUtf8Unchecked(std::string_view("\0", 1))) pbt::fail("encoding NUL"); }
    for (auto [u, n] : {std::pair{0x41u, 1}, {0x7ffu, 2}, {0x800u, 3}, {0xffffu, 3}, {0x10000u, 4}}) {
      char_ c = *char_::from_u32(u);
      uint8_t b[8];
      if (!pbt::dies([&] { c.encode_utf8(std::span<uint8_t>(b, n - 1)); })) pbt::fail("encoding into a buffer which is too small does not abort");
    }
    // Text known when compiling.
    constexpr StrRef k = "a\u00e9\u6771\U0001f600"; static_assert(k.size() == 10); if (k != std::string_view("a\u00e9\u6771\U0001f600")) pbt::fail("literal");
    constexpr StrRef e = ""; static_assert(e.empty() && e == StrRef()); size_t n; uint64_t h; if (r_str(&e, &n, &h) || n) pbt::fail("empty literal");
    StrRef dflt; if (r_str(&dflt, &n, &h) || n) pbt::fail("default StrRef");
  }
  pbt::prop("chars", 3000, 100000, [] {
    uint32_t a = *rc::gen::weightedOneOf<uint32_t>({{1, rc::gen::inRange<uint32_t>(0, 0x110000)}, {1, rc::gen::element<uint32_t>(0, 'a', 0xd7ff, 0xe000, 0x10ffff, 0xffff, 0x10000)}});
    uint32_t b = *rc::gen::weightedOneOf<uint32_t>({{3, rc::gen::inRange<uint32_t>(0, 0x110000)}, {1, rc::gen::just(a)}, {1, rc::gen::just(a + 1)}});
    auto x = char_::from_u32(a), y = char_::from_u32(b);
    RC_PRE(x && y);
    int w = r_char_cmp(a, b);
    RC_ASSERT((*x == *y) == (w == 0)); RC_ASSERT((*x < *y) == (w < 0)); RC_ASSERT((*x >= *y) == (w >= 0)); RC_ASSERT(sgn(*x <=> *y) == w);
    char_ z = *x; RC_ASSERT(z == *x); z = *y; RC_ASSERT(z == *y); RC_ASSERT(z <= char_::MAX);
  });
  pbt::prop("UTF-8", 12000, 400000, [] { auto s = *gen_bytes(); one_str(s, true); RC_ASSERT(!pbt::failed); });
  pbt::prop("strings", 4000, 100000, [] {
    auto s = *gen_str(); auto t = *rc::gen::weightedOneOf<std::string>({{2, gen_str()}, {1, rc::gen::just(s)}, {1, rc::gen::map(gen_cp(), [s](std::string x) { return s + x; })}});
    if (s.size() && t.size()) pbt::note(s + "|" + t);
    StrRef a = *StrRef::FromUtf8(s), b = *StrRef::FromUtf8(t);
    std::string_view va = s, vb = t;
    int w = r_str_cmp(&a, &b);
    RC_ASSERT((a == b) == (w == 0)); RC_ASSERT((a != b) == (w != 0)); RC_ASSERT((a < b) == (w < 0)); RC_ASSERT((a > b) == (w > 0)); RC_ASSERT(sgn(a <=> b) == w);
    RC_ASSERT((a == vb) == (w == 0)); RC_ASSERT((va == b) == (w == 0)); RC_ASSERT((a != vb) == (w != 0)); RC_ASSERT((va != b) == (w != 0)); RC_ASSERT(sgn(a <=> vb) == w); RC_ASSERT(sgn(va <=> b) == w); RC_ASSERT((va < b) == (w < 0));
    if (t.find('\0') == std::string::npos) { RC_ASSERT((a == t.c_str()) == (w == 0)); RC_ASSERT((t.c_str() == a) == (w == 0)); RC_ASSERT(sgn(a <=> t.c_str()) == w); RC_ASSERT(sgn(t.c_str() <=> a) == -w); RC_ASSERT((a < t.c_str()) == (w < 0)); }
    std::ostringstream os; os << a << "|" << b; RC_ASSERT(os.str() == s + "|" + t);
    struct Sink { std::string o; void Append(std::string_view v) { o += v; } } sink; AbslStringify(sink, a); AbslStringify(sink, b); RC_ASSERT(sink.o == s + t);
    size_t i = *rc::gen::inRange(0, 9), j = *rc::gen::inRange(0, 9);
    StrRef part; r_sub(&a, i, j, &part);
    RC_ASSERT(part.size() <= s.size()); RC_ASSERT(s.find(part.to_string_view()) != std::string::npos); RC_ASSERT(StrRef::FromUtf8(part.to_string_view()).has_value());
    size_t n; uint64_t h; RC_ASSERT(r_str(&part, &n, &h) == 0); RC_ASSERT(n == part.size() && h == fnv(part));
    StrRef c = a; c = b; RC_ASSERT(c == b); SliceRef<const uint8_t> bytes = a; RC_ASSERT(bytes.size() == s.size() && std::equal(s.begin(), s.end(), (const char*)bytes.data()));
  });
  ints<rs_std::usize, uintptr_t>("usize"); ints<rs_std::isize, intptr_t>("isize");
  return pbt::finish();
}
