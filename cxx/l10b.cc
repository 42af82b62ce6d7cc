// L10, second part: SliceRef<T> is &[T] or &mut [T] of Rust.
#include "support/rs_std/slice_ref.h"
#include "pbt.h"
#include <array>
#include <span>
using rs_std::SliceRef;
template <class T> struct Fns;
#define FNS(T, N) extern "C" { uint64_t sum_##N(const void*, size_t*); void inc_##N(void*, T); void sub_##N(const void*, size_t, size_t, void*); bool eq_##N(const void*, const void*); } \
  template <> struct Fns<T> { static constexpr auto sum = sum_##N; static constexpr auto inc = inc_##N; static constexpr auto sub = sub_##N; static constexpr auto eq = eq_##N; static constexpr const char* name = #N; };
FNS(uint8_t, u8) FNS(uint16_t, u16) FNS(int32_t, i32) FNS(uint64_t, u64) FNS(int8_t, i8)

template <class T> void slices() {
  using F = Fns<T>;
  pbt::prop((std::string("slices of ") + F::name).c_str(), 1500, 40000, [](const std::vector<T>& w, std::vector<T> other, size_t a, size_t b, bool same, T by) {
    if (same) { other = w; if (!other.empty() && (a & 1)) other[a % other.size()] ^= 1; }
    if (w.size() > 1) pbt::note(F::name + std::string((char*)w.data(), w.size() * sizeof(T)));
    std::vector<T> v = w; v.shrink_to_fit(); other.shrink_to_fit();
    auto sum = [](const std::vector<T>& x) { uint64_t h = 7; for (T t : x) h = h * 31 + (uint64_t)t; return h; };
    auto good = [&](auto s, const std::vector<T>& want, const T* at) {
      size_t n = 0; uint64_t h = F::sum(&s, &n);
      RC_ASSERT(n == want.size()); RC_ASSERT(h == sum(want));
      RC_ASSERT(s.size() == want.size()); RC_ASSERT((s.data() == nullptr) == want.empty());
      if (!want.empty()) RC_ASSERT(s.data() == at);
      auto sp = s.to_span(); RC_ASSERT(sp.size() == want.size() && sp.data() == s.data());
      std::span<typename std::remove_pointer_t<decltype(s.data())>> sq = s; RC_ASSERT(sq.size() == want.size() && sq.data() == s.data());
    };
    SliceRef<const T> c1(v.data(), v.size()); good(c1, v, v.data());
    SliceRef<const T> c2 = v; good(c2, v, v.data());
    SliceRef<const T> c3 = std::span<const T>(v); good(c3, v, v.data());
    SliceRef<const T> c4 = std::span<T>(v); good(c4, v, v.data());
    SliceRef<T> m1(v.data(), v.size()); good(m1, v, v.data());
    SliceRef<T> m2{std::span<T>(v)}; good(m2, v, v.data());
    SliceRef<T> m3(v); good(m3, v, v.data());
    SliceRef<const T> c5 = m1; good(c5, v, v.data());
    SliceRef<const T> c6; good(c6, {}, nullptr);
    c6 = c1; good(c6, v, v.data());
    good(SliceRef<const T>(nullptr, a % 7), {}, nullptr); good(SliceRef<T>(nullptr, a % 7), {}, nullptr); good(SliceRef<const T>(v.data(), 0), {}, nullptr);
    if (v.size() >= 3) { std::array<T, 3> arr{v[0], v[1], v[2]}; good(SliceRef<const T>(arr), {v[0], v[1], v[2]}, arr.data()); T raw[2] = {v[1], v[2]}; good(SliceRef<const T>(raw), {v[1], v[2]}, raw); }
    SliceRef<const T> d(other); SliceRef<T> e(other);
    bool want = v == other;
    RC_ASSERT(F::eq(&c1, &d) == want);
    RC_ASSERT((c1 == d) == want); RC_ASSERT((c1 != d) == !want); RC_ASSERT((d == c1) == want);
    RC_ASSERT((m1 == e) == want); RC_ASSERT((m1 != e) == !want); RC_ASSERT((c1 == e) == want); RC_ASSERT((e == c1) == want); RC_ASSERT((c1 != e) == !want); RC_ASSERT((e != c1) == !want);
    RC_ASSERT((c1 == other) == want); RC_ASSERT((other == c1) == want); RC_ASSERT((m1 == other) == want); RC_ASSERT((other == m1) == want); RC_ASSERT((other != c1) == !want); RC_ASSERT((c1 != other) == !want);
    // Rust picks a part.
    SliceRef<const T> sub; F::sub(&c1, a % 9, b % 9, &sub);
    size_t x = std::min({a % 9, v.size()}), y = std::min({b % 9, v.size()}); if (x > y) std::swap(x, y);
    good(sub, std::vector<T>(v.begin() + x, v.begin() + y), v.data() + x);
    // Rust changes the elements.
    std::vector<T> inc = v; for (T& t : inc) t = (T)((std::make_unsigned_t<T>)t + (std::make_unsigned_t<T>)by);
    F::inc(&m1, by); RC_ASSERT(v == inc); good(c1, inc, v.data());
  });
}


int main() {
  slices<uint8_t>(); slices<uint16_t>(); slices<int32_t>(); slices<uint64_t>(); slices<int8_t>();
  return pbt::finish();
}
