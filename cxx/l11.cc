// L11: MemSwap, Slot, Movable, MoveAssignOrDestroyAndConstruct and the aliasing check behave as specified for every value and history.
#include <array>
#include <csignal>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "support/rs_std/str_ref.h"
#include "support/rs_std/slice_ref.h"
#include "support/internal/check_no_mutable_aliasing.h"
#include "support/internal/memswap.h"
#include "support/internal/move_assign.h"
#include "support/internal/offsetof.h"
#include "support/internal/sizeof.h"
#include "support/internal/slot.h"
#include "support/movable.h"
#include "pbt.h"
using namespace crubit::internal;
using Ranges = std::vector<std::pair<uint8_t, uint8_t>>;

// What overlap means: some byte belongs to a mutable reference and to another reference.
static bool overlap(const std::vector<PtrData>& m, const std::vector<PtrData>& c) {
  std::map<uintptr_t, int> byte;
  for (auto& p : m) for (uintptr_t i = p.start; i < p.end; ++i) if (byte[i]++) return true;
  for (auto& p : c) for (uintptr_t i = p.start; i < p.end; ++i) if (byte.count(i)) return true;
  return false;
}
template <size_t M, size_t N> static bool fixed(const std::vector<PtrData>& m, const std::vector<PtrData>& c) {
  std::array<PtrData, M> a; std::array<PtrData, N> b;
  for (size_t i = 0; i < M; ++i) a[i] = m[i];
  for (size_t i = 0; i < N; ++i) b[i] = c[i];
  return HasMutableAliasing(std::move(a), std::move(b));
}
template <size_t M, size_t N> static void fixed_check(const std::vector<PtrData>& m, const std::vector<PtrData>& c) {
  std::array<PtrData, M> a; std::array<PtrData, N> b;
  for (size_t i = 0; i < M; ++i) a[i] = m[i];
  for (size_t i = 0; i < N; ++i) b[i] = c[i];
  CheckNoMutableAliasing(std::move(a), std::move(b));
}
template <size_t... I> static auto table(std::index_sequence<I...>) { return std::array<bool (*)(const std::vector<PtrData>&, const std::vector<PtrData>&), sizeof...(I)>{fixed<I / 7, I % 7>...}; }
template <size_t... I> static auto table2(std::index_sequence<I...>) { return std::array<void (*)(const std::vector<PtrData>&, const std::vector<PtrData>&), sizeof...(I)>{fixed_check<I / 7, I % 7>...}; }

// Objects which know whether they are alive.
struct Bad { std::string what; };
static std::map<const void*, int> alive;   // object -> value
static std::string trouble;
static void bad(const std::string& s) { if (trouble.empty()) trouble = s; }
static const int MOVED = -1;
struct Tracked {
  int v; std::unique_ptr<int> heap;
  void born() { if (alive.count(this)) bad("an object was created where one is alive"); alive[this] = v; }
  void used() const { if (!alive.count(this)) bad("an object which is not alive was used"); else if (alive[this] != v || (v != MOVED && (!heap || *heap != v))) bad("an object was overwritten"); }
  explicit Tracked(int x) : v(x), heap(new int(x)) { born(); }
  Tracked(const Tracked& o) : v(o.v), heap(o.v == MOVED ? nullptr : new int(o.v)) { o.used(); born(); }
  Tracked(Tracked&& o) : v((o.used(), o.v)), heap(std::move(o.heap)) { o.v = MOVED; alive[&o] = MOVED; born(); }
  Tracked(crubit::UnsafeRelocateTag, Tracked&& o) : v(o.v) { o.used(); new (&heap) std::unique_ptr<int>(std::move(o.heap)); alive.erase(&o); born(); }
  Tracked& operator=(const Tracked& o) { used(); o.used(); if (this != &o) { v = o.v; heap.reset(v == MOVED ? nullptr : new int(v)); alive[this] = v; } return *this; }
  Tracked& operator=(Tracked&& o) { used(); o.used(); if (this != &o) { v = o.v; heap = std::move(o.heap); alive[this] = v; o.v = MOVED; alive[&o] = MOVED; } return *this; }
  ~Tracked() { used(); alive.erase(this); v = -77; }
};
struct Rel : private Tracked {   // as bindings of Rust types without Copy and Default: relocation only
  using Tracked::v; using Tracked::used;
  explicit Rel(int x) : Tracked(x) {}
  Rel(crubit::UnsafeRelocateTag t, Rel&& o) : Tracked(t, static_cast<Tracked&&>(o)) {}
  Rel(const Rel&) = delete; Rel(Rel&&) = delete; Rel& operator=(const Rel&) = delete; Rel& operator=(Rel&&) = delete;
};
struct RelMov : private Tracked {   // with Default: movable and relocatable
  using Tracked::v; using Tracked::used;
  RelMov() : Tracked(0) {}
  explicit RelMov(int x) : Tracked(x) {}
  RelMov(crubit::UnsafeRelocateTag t, RelMov&& o) : Tracked(t, static_cast<Tracked&&>(o)) {}
  RelMov(RelMov&& o) = default; RelMov& operator=(RelMov&&) = default;
};
struct Mov : private Tracked { using Tracked::v; using Tracked::used; explicit Mov(int x) : Tracked(x) {} Mov(Mov&&) = default; Mov& operator=(Mov&&) = default; };
struct MovNoAssign : private Tracked { using Tracked::v; using Tracked::used; explicit MovNoAssign(int x) : Tracked(x) {} MovNoAssign(MovNoAssign&&) = default; };
struct Cpy : private Tracked { using Tracked::v; using Tracked::used; Cpy() : Tracked(0) {} explicit Cpy(int x) : Tracked(x) {} Cpy(const Cpy&) = default; Cpy(Cpy&&) = default; Cpy& operator=(const Cpy&) = default; Cpy& operator=(Cpy&&) = default; };
struct CpyNoAssign : private Tracked { using Tracked::v; using Tracked::used; explicit CpyNoAssign(int x) : Tracked(x) {} CpyNoAssign(const CpyNoAssign&) = default; };
struct CpyRel : private Tracked { using Tracked::v; using Tracked::used; explicit CpyRel(int x) : Tracked(x) {} CpyRel(crubit::UnsafeRelocateTag t, CpyRel&& o) : Tracked(t, static_cast<Tracked&&>(o)) {} CpyRel(const CpyRel&) = default; CpyRel(CpyRel&&) = default; CpyRel& operator=(const CpyRel&) = default; CpyRel& operator=(CpyRel&&) = default; };

#define OKAY() do { if (!trouble.empty()) { std::string t; t.swap(trouble); alive.clear(); RC_FAIL(t + " (line " + std::to_string(__LINE__) + ")"); } } while (0)

template <class T> void movable(const char* name) {
  pbt::prop((std::string("Movable of ") + name).c_str(), 1200, 60000, [name](const std::vector<std::array<uint8_t, 4>>& ops) {
    alive.clear(); trouble.clear();
    using M = rs::Movable<T>;
    {
      alignas(M) char mem[4][sizeof(M)];
      M* p[4] = {}; std::optional<std::optional<int>> model[4];   // absent, valueless or a value
      std::string key = name;
      auto where = [&](size_t i) { return reinterpret_cast<M*>(mem[i]); };
      auto put = [&](size_t i, std::optional<int> v) { p[i] = std::launder(where(i)); model[i] = v; };
      int next = 1;
      for (auto [op, a, b, c] : ops) {
        size_t i = a % 4, j = b % 4; int val = next++;
        switch (op % 12) {
          case 0: if (!p[i]) { new (where(i)) M(std::in_place, val); put(i, val); } break;
          case 1: if constexpr (std::is_move_constructible_v<T>) { if (!p[i]) { new (where(i)) M(T(val)); put(i, val); } } break;
          case 2: if (!p[i]) { crubit::Slot<T> s; new (s.Get()) T(val); new (where(i)) M(M::TakeFromSlot(std::move(s))); put(i, val); } break;
          case 3: if constexpr (std::is_default_constructible_v<T>) { if (!p[i]) { new (where(i)) M(); put(i, 0); } } else static_assert(!std::is_default_constructible_v<M>); break;
          case 4: if (p[i] && !p[j]) { new (where(j)) M(std::move(*p[i])); put(j, *model[i]); model[i] = std::optional<int>(); } break;
          case 5: if (p[i] && p[j]) { *p[j] = std::move(*p[i]); if (i != j) { model[j] = *model[i]; model[i] = std::optional<int>(); } } break;
          case 6: if constexpr (std::is_copy_constructible_v<T>) { if (p[i] && !p[j]) { new (where(j)) M(static_cast<const M&>(*p[i])); put(j, *model[i]); } } else static_assert(!std::is_copy_constructible_v<M>); break;
          case 7: if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) { if (p[i] && p[j]) { *p[j] = static_cast<const M&>(*p[i]); model[j] = *model[i]; } } else static_assert(!std::is_copy_assignable_v<M>); break;
          case 8: if (p[i]) { p[i]->~M(); p[i] = nullptr; model[i].reset(); } break;
          case 9: if constexpr (std::is_move_constructible_v<T>) { if (p[i] && *model[i] && **model[i] != MOVED) { T t(*std::move(*p[i])); RC_ASSERT(t.v == **model[i]); bool copy = !std::is_same_v<T, CpyNoAssign>; if (copy) model[i] = std::optional<int>(MOVED); } } break;
          case 10: if constexpr (std::is_copy_constructible_v<T>) { if (!p[i]) { const T t(val); new (where(i)) M(t); put(i, val); } } break;
          case 11: if constexpr (std::is_move_assignable_v<T>) { if (p[i] && *model[i]) { **p[i] = T(val); model[i] = std::optional<int>(val); } } break;
        }
        key += (char)('a' + op % 12); key += (char)('0' + i); key += (char)('0' + j);
        size_t n = 0;
        for (size_t k = 0; k < 4; ++k) if (p[k]) {
          bool has = model[k]->has_value(); n += has;
          RC_ASSERT(p[k]->valueless_after_move() == !has); RC_ASSERT(static_cast<bool>(*p[k]) == has);
          if (has) { (**p[k]).used(); RC_ASSERT((**p[k]).v == **model[k]); RC_ASSERT((*p[k])->v == **model[k]); RC_ASSERT((*static_cast<const M&>(*p[k])).v == **model[k]); RC_ASSERT(static_cast<const M*>(p[k])->operator->() == &**p[k]); }
        }
        OKAY();
        RC_ASSERT(alive.size() == n);
      }
      if (ops.size() > 4) pbt::note(key);
      for (auto q : p) if (q) q->~M();
    }
    OKAY(); RC_ASSERT(alive.empty());
  });
}

template <class T> void slot(const char* name) {
  pbt::prop((std::string("Slot of ") + name).c_str(), 400, 8000, [name](const std::vector<uint8_t>& vals, uint8_t how) {
    alive.clear(); trouble.clear();
    pbt::note(name + std::string(vals.begin(), vals.end()) + char(how));
    for (uint8_t v : vals) {
      {
        crubit::Slot<T> s; RC_ASSERT(alive.empty());
        new (s.Get()) T(v); RC_ASSERT(alive.size() == 1 && s.Get()->v == v);
        if constexpr (std::is_move_constructible_v<T>) if (how & 1) {   // moved into another slot
          crubit::Slot<T> s2(std::move(s)); OKAY(); s.Get()->used(); RC_ASSERT(alive.size() == 2 && s2.Get()->v == v);
          std::destroy_at(s.Get()); OKAY();
          T got = std::move(s2).AssumeInitAndTakeValue(); got.used(); RC_ASSERT(got.v == v && alive.size() == 1);
          goto next;
        }
        { T got = std::move(s).AssumeInitAndTakeValue(); got.used(); OKAY(); RC_ASSERT(got.v == v && alive.size() == 1); }
        RC_ASSERT(alive.empty());
      next:;
      }
      OKAY(); RC_ASSERT(alive.empty());
      if constexpr (std::is_move_constructible_v<T>) {
        { T x(v); crubit::Slot<T> s(std::move(x)); RC_ASSERT(alive.size() == 2 && s.Get()->v == v); crubit::Slot d(T(v + 1)); T b = std::move(d).AssumeInitAndTakeValue(); RC_ASSERT(b.v == v + 1); T got = std::move(s).AssumeInitAndTakeValue(); RC_ASSERT(got.v == v && alive.size() == 3); }
        OKAY(); RC_ASSERT(alive.empty());
      }
      // Arrays.
      {
        using A = std::array<T, 3>;
        crubit::Slot<A> s; RC_ASSERT(alive.empty());
        if constexpr (requires(T x) { T(crubit::UnsafeRelocateTag{}, std::move(x)); } || std::is_move_constructible_v<T>) {
          for (int i = 0; i < 3; ++i) new (s.Get()->data() + i) T(v + i);
          A got = std::move(s).AssumeInitAndTakeValue(); OKAY(); RC_ASSERT(alive.size() == 3);
          for (int i = 0; i < 3; ++i) { got[i].used(); RC_ASSERT(got[i].v == v + i); }
        }
      }
      OKAY(); RC_ASSERT(alive.empty());
      if constexpr (std::is_move_constructible_v<T>) {
        { std::array<T, 2> x{T(v), T(v + 1)}; crubit::Slot<std::array<T, 2>> s(std::move(x)); OKAY(); RC_ASSERT(alive.size() == 4); auto got = std::move(s).AssumeInitAndTakeValue(); RC_ASSERT(got[0].v == v && got[1].v == v + 1 && alive.size() == 4); }
        OKAY(); RC_ASSERT(alive.empty());
      }
    }
  });
}

template <class T> void assign(const char* name) {
  pbt::prop((std::string("MoveAssignOrDestroyAndConstruct of ") + name).c_str(), 400, 5000, [name](uint8_t a, uint8_t b, bool how) {
    alive.clear(); trouble.clear(); pbt::note(name + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(how));
    { T x(a); T y(b);
      if constexpr (std::is_copy_constructible_v<T>) if (how) { crubit::MoveAssignOrDestroyAndConstruct(&x, static_cast<const T&>(y)); OKAY(); y.used(); RC_ASSERT(x.v == b && y.v == b && alive.size() == 2); return; }
      crubit::MoveAssignOrDestroyAndConstruct(&x, std::move(y)); OKAY(); x.used(); y.used(); RC_ASSERT(x.v == b && alive.size() == 2);
      if constexpr (std::is_move_assignable_v<T>) { crubit::MoveAssignOrDestroyAndConstruct(&x, T(a)); OKAY(); RC_ASSERT(x.v == a && alive.size() == 2); }
    }
    OKAY(); RC_ASSERT(alive.empty());
  });
}

template <size_t N, size_t A = 1> struct alignas(A) Bytes { unsigned char b[N]; };
template <class T> void swap_bytes(const std::vector<uint8_t>& s, uint8_t i, uint8_t j) {
  std::unique_ptr<T[]> t(new T[4]); size_t n = 4 * sizeof(T);
  std::vector<unsigned char> m(n); for (size_t k = 0; k < n; ++k) m[k] = s.empty() ? k : s[k % s.size()] + k;
  std::memcpy((void*)t.get(), m.data(), n);
  crubit::MemSwap(t[i % 4], t[j % 4]);
  for (size_t k = 0; k < sizeof(T); ++k) std::swap(m[i % 4 * sizeof(T) + k], m[j % 4 * sizeof(T) + k]);
  RC_ASSERT(std::memcmp(t.get(), m.data(), n) == 0);
}
template <size_t... I> void swap_all(std::index_sequence<I...>, const std::vector<uint8_t>& s, uint8_t i, uint8_t j) { (swap_bytes<Bytes<I + 1>>(s, i, j), ...); }

struct Base { int a; char b; Base() {} }; struct Derived : Base { char c; }; struct alignas(16) Wide { char c; };
static_assert(CRUBIT_SIZEOF(Base) % alignof(Base) == 0 && CRUBIT_SIZEOF(Base) == 8 && CRUBIT_SIZEOF(char) == 1 && CRUBIT_SIZEOF(Wide) == 16 && CRUBIT_SIZEOF(std::array<char, 3>) == 3 && CRUBIT_SIZEOF(std::map<int, int>) == sizeof(std::map<int, int>));
template <class A, class B> struct Pair { A a; B b; };
static_assert(CRUBIT_OFFSET_OF(b, Pair<char, int>) == 4 && CRUBIT_OFFSET_OF(b, Pair<long, std::array<char, 2>>) == 8 && CRUBIT_OFFSET_OF(a, Pair<char, int>) == 0);

int main() {
  static const auto T = table(std::make_index_sequence<49>()); static const auto T2 = table2(std::make_index_sequence<49>());
  pbt::prop("aliasing of up to six mutable and six shared ranges", 60000, 2000000, [](Ranges m, Ranges c, uint8_t spread, uint8_t maxlen, uint8_t die) {
    if (m.size() > 6) m.resize(6);
    if (c.size() > 6) c.resize(6);
    size_t sp = spread % 60 + 1, ml = maxlen % 9;
    static char arena[128]; uintptr_t o = reinterpret_cast<uintptr_t>(arena);
    auto conv = [&](const Ranges& r) { std::vector<PtrData> v; for (auto [a, l] : r) { uintptr_t s = o + a % sp; v.push_back({s, s + (ml ? l % (ml + 1) : 0)}); } return v; };
    std::vector<PtrData> M = conv(m), C = conv(c);
    bool want = overlap(M, C);
    if (M.size() && M.size() + C.size() > 1) { std::string k; for (auto& p : M) k += "m" + std::to_string(p.start - o) + "-" + std::to_string(p.end - o); for (auto& p : C) k += " c" + std::to_string(p.start - o) + "-" + std::to_string(p.end - o); pbt::note(k); }
    RC_ASSERT(T[M.size() * 7 + C.size()](M, C) == want);
    std::vector<PtrData> a = M, b = C; RC_ASSERT(HasMutableAliasingSpans(a, b) == want);
    if (die == 250 && spread % 2) {
      RC_ASSERT(pbt::dies([&] { T2[M.size() * 7 + C.size()](M, C); }) == want);
      RC_ASSERT(pbt::dies([&] { std::vector<PtrData> x = M, y = C; CheckNoMutableAliasingSpans(x, y); }) == want);
    }
  });
  pbt::prop("ranges of pointers, references, strings and slices", 2500, 60000, [](uint8_t at, uint8_t n, uint8_t at2, uint8_t n2, std::array<uint8_t, 3> s) {
    static uint32_t buf[64]; static char text[64]; static Bytes<24, 8> big[4];
    uint32_t* p = buf + at % 40; size_t k = n % 20; const char* t = text + at2 % 40; size_t tk = n2 % 20;
    pbt::note(std::to_string(at % 40) + "/" + std::to_string(k) + "/" + std::to_string(at2 % 40) + "/" + std::to_string(tk));
    auto eq = [](PtrData d, const void* s, size_t len) { return d.start == reinterpret_cast<uintptr_t>(s) && d.end == d.start + len; };
    auto& B = big[s[0] % 4]; const auto& CB = big[s[1] % 4];
    auto c = AsPtrDatas<const uint32_t*, const uint32_t&, rs_std::StrRef, rs_std::SliceRef<const uint32_t>, const Bytes<24, 8>&>(p, *p, rs_std::StrRef::FromUtf8Unchecked(std::string_view(t, tk)), rs_std::SliceRef<const uint32_t>(p, k), CB);
    RC_ASSERT(c.size() == 5 && eq(c[0], p, 4) && eq(c[1], p, 4) && eq(c[4], &CB, 24));
    if (tk) RC_ASSERT(eq(c[2], t, tk)); else RC_ASSERT(c[2].start == c[2].end);
    if (k) RC_ASSERT(eq(c[3], p, 4 * k)); else RC_ASSERT(c[3].start == c[3].end);
    auto m = AsMutPtrDatas<uint32_t*, uint32_t&, rs_std::SliceRef<uint32_t>, Bytes<24, 8>&, Bytes<24, 8>*>(p, *p, rs_std::SliceRef<uint32_t>(p, k), B, &B);
    RC_ASSERT(m.size() == 5 && eq(m[0], p, 4) && eq(m[1], p, 4) && eq(m[3], &B, 24) && eq(m[4], &B, 24));
    if (k) RC_ASSERT(eq(m[2], p, 4 * k)); else RC_ASSERT(m[2].start == m[2].end);
  });
  pbt::prop("MemSwap", 1500, 40000, [](const std::vector<uint8_t>& s, uint8_t i, uint8_t j) {
    pbt::note(std::string(s.begin(), s.end()) + "|" + std::to_string(i % 4) + std::to_string(j % 4));
    swap_all(std::make_index_sequence<40>(), s, i, j);
    swap_bytes<Bytes<64, 16>>(s, i, j); swap_bytes<Bytes<1000>>(s, i, j); swap_bytes<Bytes<24, 8>>(s, i, j); swap_bytes<uint64_t>(s, i, j); swap_bytes<double>(s, i, j);
  });
  movable<Rel>("Rel"); movable<RelMov>("RelMov"); movable<Mov>("Mov"); movable<MovNoAssign>("MovNoAssign"); movable<Cpy>("Cpy"); movable<CpyNoAssign>("CpyNoAssign"); movable<CpyRel>("CpyRel");
  slot<Rel>("Rel"); slot<RelMov>("RelMov"); slot<Mov>("Mov"); slot<MovNoAssign>("MovNoAssign"); slot<Cpy>("Cpy"); slot<CpyNoAssign>("CpyNoAssign"); slot<CpyRel>("CpyRel");
  assign<RelMov>("RelMov"); assign<Mov>("Mov"); assign<MovNoAssign>("MovNoAssign"); assign<Cpy>("Cpy"); assign<CpyNoAssign>("CpyNoAssign"); assign<CpyRel>("CpyRel");
  return pbt::finish();
}
