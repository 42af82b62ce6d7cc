"""A type model shared by the end-to-end generators.

Every type knows how to spell itself and its values in Rust and in C++, and the canonical text
(`ser`) that serialisers on both sides must produce for a value. Python picks the values, so the
expected text never comes from the code under test.
"""
import threading

INTS = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "isize": (64, 1),
        "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "usize": (64, 0)}
CC_INT = {"i8": "std::int8_t", "i16": "std::int16_t", "i32": "std::int32_t", "i64": "std::int64_t",
          "isize": "std::intptr_t", "u8": "std::uint8_t", "u16": "std::uint16_t", "u32": "std::uint32_t",
          "u64": "std::uint64_t", "usize": "std::uintptr_t"}


def hexs(b):
    return '"' + b.hex() + '"'


class Ty:
    copy = False       # Rust Copy
    default = True     # Rust Default
    clone = True
    def cc(self, ctx): raise NotImplementedError
    def deps(self): return set()
    def depth(self): return 0
    def drops(self): return False  # needs drop glue
    def align16(self): return False  # C++ has no 128-bit tag for an enum around such a type


class Int(Ty):
    copy = True
    def __init__(self, n): self.n = n; self.bits, self.signed = INTS[n]
    def rs(self): return self.n
    def cc(self, ctx): return CC_INT[self.n] if ctx != "spec" or self.n not in ("isize", "usize") else {"isize": "std::int64_t", "usize": "std::uint64_t"}[self.n]
    def rng(self): return (-(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1) if self.signed else (0, (1 << self.bits) - 1)
    def val(self, r):
        lo, hi = self.rng()
        k = r.random()
        if k < .15: return lo
        if k < .3: return hi
        if k < .5: return max(lo, min(hi, r.choice([0, 1, -1, 2, 127, 128, 255, 256, 32767, 65535, 2**31, -2**31])))
        return r.randint(lo, hi)
    def lit(self, v):
        if self.signed:
            return f"static_cast<{CC_INT[self.n]}>({v}LL)" if v != -2**63 else f"static_cast<{CC_INT[self.n]}>(-9223372036854775807LL - 1)"
        return f"static_cast<{CC_INT[self.n]}>({v}ULL)"
    def rsx(self, v): return f"({v}{self.n})" if v < 0 else f"{v}{self.n}"
    def ccx(self, v, ctx): return self.lit(v)
    def ser(self, v): return str(v)


class Bool(Ty):
    copy = True
    def rs(self): return "bool"
    def cc(self, ctx): return "bool"
    def val(self, r): return r.random() < .5
    def rsx(self, v): return "true" if v else "false"
    ccx = lambda self, v, ctx: self.rsx(v)
    def ser(self, v): return "true" if v else "false"


class Float(Ty):
    copy = True
    def __init__(self, n): self.n = n
    def rs(self): return self.n
    def cc(self, ctx): return "float" if self.n == "f32" else "double"
    def val(self, r):  # the bit pattern; signalling NaNs are left out (x87/SSE may quiet them)
        if self.n == "f32":
            sp = [0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x3f800000, 0x7f7fffff]
            v = r.choice(sp) if r.random() < .4 else r.getrandbits(32)
            return v | 0x400000 if (v & 0x7f800000) == 0x7f800000 and v & 0x7fffff else v
        sp = [0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 1, 0x3ff0 << 48]
        v = r.choice(sp) if r.random() < .4 else r.getrandbits(64)
        return v | (1 << 51) if (v >> 52) & 0x7ff == 0x7ff and v & ((1 << 52) - 1) else v
    def rsx(self, v): return f"{self.n}::from_bits({v}u{self.n[1:]})"
    def ccx(self, v, ctx): return f"std::bit_cast<{self.cc(ctx)}>(std::uint{self.n[1:]}_t{{{v}u{'ll' if self.n=='f64' else ''}}})"
    def ser(self, v): return "f%x" % v


class Char(Ty):
    copy = True
    def rs(self): return "char"
    def cc(self, ctx): return "rs_std::char_"
    def val(self, r):
        while True:
            v = r.choice([0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]) if r.random() < .5 else r.randint(0, 0x10ffff)
            if not 0xd800 <= v < 0xe000: return v
    def rsx(self, v): return "'\\u{%x}'" % v
    def ccx(self, v, ctx): return f"(*rs_std::char_::from_u32(char32_t{{0x{v:x}}}))"
    def ser(self, v): return "c%x" % v


class Unit(Ty):
    copy = True
    def rs(self): return "()"
    def cc(self, ctx): return "rs_std::unit_t"
    def val(self, r): return ()
    def rsx(self, v): return "()"
    def ccx(self, v, ctx): return "rs_std::unit"
    def ser(self, v): return "()"


class Str(Ty):  # String
    def drops(self): return True
    def rs(self): return "String"
    def cc(self, ctx): return "rs::alloc::string::String"
    def val(self, r): return gen_text(r)
    def rsx(self, v): return f"String::from({rs_str(v)})"
    def ccx(self, v, ctx): return f"rs::alloc::string::String({cc_strref(v)})"
    def ser(self, v): return hexs(v.encode())


def gen_text(r):
    n = r.choice([0, 0, 1, 2, 3, 5, 8, 20])
    return "".join(chr(r.choice([0x20, 0x22, 0x5c, 0x27, 0x0a, 0x09, 0x00, 0x3f, 0x61, 0x7a, 0x7f, 0x25, 0xe9, 0x7ff, 0x800, 0x20ac,
                                 0xfffd, 0x1f600, 0x10ffff])) if r.random() < .5 else chr(r.randint(0x20, 0x7e)) for _ in range(n))


def rs_str(s): return '"' + "".join("\\u{%x}" % ord(c) if not (c.isalnum() and c.isascii()) else c for c in s) + '"'
def cc_bytes(b): return '"' + "".join("\\%03o" % x for x in b) + '"'
def cc_strref(s):
    b = s.encode()
    return f"(*rs_std::StrRef::FromUtf8(std::string_view({cc_bytes(b)}, {len(b)})))"


class Opt(Ty):
    def __init__(self, t): self.t = t; self.copy = t.copy; self.clone = t.clone
    def drops(self): return self.t.drops()
    def deps(self): return self.t.deps()
    def depth(self): return 1 + self.t.depth()
    def rs(self): return f"Option<{self.t.rs()}>"
    def cc(self, ctx): return f"rs_std::Option<{self.t.cc('spec')}>" if ctx == "spec" else f"std::optional<{self.t.cc('nest')}>"
    def val(self, r): return None if r.random() < .35 else (self.t.val(r),)
    def rsx(self, v): return f"None::<{self.t.rs()}>" if v is None else f"Some({self.t.rsx(v[0])})"
    def ccx(self, v, ctx):
        if v is None: return f"{self.cc(ctx)}(std::nullopt)"
        return f"{self.cc(ctx)}(std::in_place, {self.t.ccx(v[0], 'spec' if ctx == 'spec' else 'nest')})"
    def ser(self, v): return "N" if v is None else f"S({self.t.ser(v[0])})"


class Res(Ty):
    default = False
    def __init__(self, t, e): self.t, self.e = t, e; self.copy = t.copy and e.copy; self.clone = t.clone and e.clone
    def drops(self): return self.t.drops() or self.e.drops()
    def deps(self): return self.t.deps() | self.e.deps()
    def depth(self): return 1 + max(self.t.depth(), self.e.depth())
    def rs(self): return f"Result<{self.t.rs()}, {self.e.rs()}>"
    def cc(self, ctx): return f"rs_std::Result<{self.t.cc('spec')}, {self.e.cc('spec')}>"
    def val(self, r): return ("ok", self.t.val(r)) if r.random() < .5 else ("err", self.e.val(r))
    def rsx(self, v): return f"Ok::<{self.t.rs()}, {self.e.rs()}>({self.t.rsx(v[1])})" if v[0] == "ok" else f"Err::<{self.t.rs()}, {self.e.rs()}>({self.e.rsx(v[1])})"
    def ccx(self, v, ctx):
        if v[0] == "ok": return f"{self.cc(ctx)}(std::in_place, {self.t.ccx(v[1], 'spec')})"
        return f"{self.cc(ctx)}(rs_std::unexpect, {self.e.ccx(v[1], 'spec')})"
    def ser(self, v): return f"O({self.t.ser(v[1])})" if v[0] == "ok" else f"E({self.e.ser(v[1])})"


class Tup(Ty):
    def __init__(self, ts):
        self.ts = ts; self.copy = all(t.copy for t in ts); self.default = all(t.default for t in ts); self.clone = all(t.clone for t in ts)
    def drops(self): return any(t.drops() for t in self.ts)
    def deps(self): return set().union(*[t.deps() for t in self.ts])
    def depth(self): return 1 + max([t.depth() for t in self.ts], default=0)
    def rs(self): return "(" + "".join(t.rs() + ", " for t in self.ts) + ")"
    def cc(self, ctx):
        if ctx == "spec": return f"rs_std::Tuple<{', '.join(t.cc('spec') for t in self.ts)}>"
        return f"std::tuple<{', '.join(t.cc('nest') for t in self.ts)}>"
    def val(self, r): return tuple(t.val(r) for t in self.ts)
    def rsx(self, v): return "(" + "".join(t.rsx(x) + ", " for t, x in zip(self.ts, v)) + ")"
    def ccx(self, v, ctx):
        sub = "spec" if ctx == "spec" else "nest"
        inner = f"std::tuple<{', '.join(t.cc(sub) for t in self.ts)}>({', '.join(t.ccx(x, sub) for t, x in zip(self.ts, v))})"
        return f"{self.cc('spec')}({inner})" if ctx == "spec" else inner
    def ser(self, v): return "(" + ",".join(t.ser(x) for t, x in zip(self.ts, v)) + ")"


class Arr(Ty):
    def __init__(self, t, n): self.t, self.n = t, n; self.copy = t.copy; self.default = t.default; self.clone = t.clone
    def drops(self): return self.n > 0 and self.t.drops()
    def deps(self): return self.t.deps()
    def depth(self): return 1 + self.t.depth()
    def rs(self): return f"[{self.t.rs()}; {self.n}]"
    def cc(self, ctx): return f"std::array<{self.t.cc('spec')}, {self.n}>"
    def val(self, r): return [self.t.val(r) for _ in range(self.n)]
    def rsx(self, v): return "[" + ", ".join(self.t.rsx(x) for x in v) + "]"
    def ccx(self, v, ctx): return f"{self.cc(ctx)}{{{{{', '.join(self.t.ccx(x, 'spec') for x in v)}}}}}" if v else f"{self.cc(ctx)}{{}}"
    def ser(self, v): return "[" + ",".join(self.t.ser(x) for x in v) + "]"


class Named(Ty):
    """A generated struct/enum/union; `ns` is its C++ namespace."""
    def __init__(self, name, path, ns, mk): self.name, self.path, self.ns, self.mk = name, path, ns, mk
    def deps(self): return {self.name}
    def rs(self): return f"crate::{self.path}"
    def cc(self, ctx): return f"{self.ns}::{self.path}"


class VecT(Ty):
    def __init__(self, t, ns): self.t = t; self.ns = ns; self.clone = t.clone
    def drops(self): return True
    def deps(self): return self.t.deps()
    def depth(self): return 1 + self.t.depth()
    def rs(self): return f"Vec<{self.t.rs()}>"
    def cc(self, ctx): return f"rs_std::Vec<{self.t.cc('spec')}>"
    def val(self, r): return [self.t.val(r) for _ in range(r.choice([0, 1, 2, 3]))]
    def rsx(self, v): return f"Vec::<{self.t.rs()}>::from([" + ", ".join(self.t.rsx(x) for x in v) + "])"
    def ccx(self, v, ctx): return need_helper(self, v)
    def ser(self, v): return "[" + ",".join(self.t.ser(x) for x in v) + "]"


class NeedHelper(Exception):
    """A value C++ has no way to build itself: a Rust helper function returns it."""


_local = threading.local()


def need_helper(t, v):
    h = getattr(_local, "helper", None)
    if h is None: raise NeedHelper()
    return h(t, v)


def with_helper(h, f):
    old = getattr(_local, "helper", None)
    _local.helper = h
    try: return f()
    finally: _local.helper = old


PRELUDE_CC = r'''
#include <bit>
#include <cinttypes>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
static int g_bad = 0;
namespace tst {
template <class T> struct Ser;
template <class T> std::string ser(const T& v) { return Ser<std::remove_cvref_t<T>>::s(v); }
inline std::string hex(const void* p, std::size_t n) { std::string o = "\""; static const char* d = "0123456789abcdef"; for (std::size_t i = 0; i < n; i++) { auto c = static_cast<const unsigned char*>(p)[i]; o += d[c >> 4]; o += d[c & 15]; } return o + "\""; }
template <class T> requires std::is_integral_v<T> struct Ser<T> { static std::string s(T v) { if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false"; else if constexpr (std::is_signed_v<T>) return std::to_string(static_cast<long long>(v)); else return std::to_string(static_cast<unsigned long long>(v)); } };
template <> struct Ser<float> { static std::string s(float v) { char b[32]; snprintf(b, 32, "f%x", std::bit_cast<std::uint32_t>(v)); return b; } };
template <> struct Ser<double> { static std::string s(double v) { char b[32]; snprintf(b, 32, "f%" PRIx64, std::bit_cast<std::uint64_t>(v)); return b; } };
template <> struct Ser<rs_std::char_> { static std::string s(rs_std::char_ v) { char b[32]; snprintf(b, 32, "c%x", static_cast<std::uint32_t>(v)); return b; } };
template <> struct Ser<rs_std::unit_t> { static std::string s(rs_std::unit_t) { return "()"; } };
template <> struct Ser<rs_std::StrRef> { static std::string s(rs_std::StrRef v) { auto sv = std::string_view(v); return hex(sv.data(), sv.size()); } };
template <> struct Ser<std::tuple<>> { static std::string s(const std::tuple<>&) { return "()"; } };
template <class... Ts> struct Ser<std::tuple<Ts...>> { static std::string s(const std::tuple<Ts...>& v) { std::string o = "("; std::apply([&](const auto&... x) { bool first = true; ((o += (first ? "" : ","), first = false, o += ser(x)), ...); }, v); return o + ")"; } };
template <class T> struct Ser<std::optional<T>> { static std::string s(const std::optional<T>& v) { return v.has_value() ? "S(" + ser(*v) + ")" : "N"; } };
template <class T, std::size_t N> struct Ser<std::array<T, N>> { static std::string s(const std::array<T, N>& v) { std::string o = "["; bool first = true; for (const auto& x : v) { if (!first) o += ","; first = false; o += ser(x); } return o + "]"; } };
template <class T> struct Ser<T*> { static std::string s(T* v) { if (!v) return "null"; if constexpr (std::is_function_v<T>) return "fn"; else return "p:" + ser(*v); } };
template <class T> struct Ser<rs_std::Option<T>> { static std::string s(const rs_std::Option<T>& v) { if (!v.has_value()) return "N"; if constexpr (rs_std::is_unit_t_v<T>) return "S(())"; else return "S(" + ser(*v) + ")"; } };
template <class T, class E> struct Ser<rs_std::Result<T, E>> { static std::string s(const rs_std::Result<T, E>& v) { if (v.has_value()) { if constexpr (rs_std::is_unit_t_v<T>) return "O(())"; else return "O(" + ser(v.value()) + ")"; } if constexpr (rs_std::is_unit_t_v<E>) return "E(())"; else return "E(" + ser(v.error()) + ")"; } };
template <class... Ts> struct Ser<rs_std::Tuple<Ts...>> { static std::string s(const rs_std::Tuple<Ts...>& v) { if constexpr (std::is_copy_constructible_v<rs_std::Tuple<Ts...>>) { rs_std::Tuple<Ts...> c(v); return ser(static_cast<std::tuple<Ts...>>(std::move(c))); } else { auto& m = const_cast<rs_std::Tuple<Ts...>&>(v); std::tuple<Ts...> t(std::move(m)); std::string o = ser(t); m = rs_std::Tuple<Ts...>(std::move(t)); return o; } } };
template <class T> struct Ser<rs_std::Vec<T>> { static std::string s(const rs_std::Vec<T>& v) { std::string o = "["; bool first = true; for (const auto& x : v) { if (!first) o += ","; first = false; o += ser(x); } return o + "]"; } };
template <class T> struct Ser<rs_std::SliceRef<T>> { static std::string s(const rs_std::SliceRef<T>& v) { std::string o = "["; bool first = true; for (const auto& x : v.to_span()) { if (!first) o += ","; first = false; o += ser(x); } return o + "]"; } };
template <> struct Ser<rs::alloc::string::String> { static std::string s(const rs::alloc::string::String& v) { auto sv = std::string_view(v.as_str()); return hex(sv.data(), sv.size()); } };
inline void check(const char* what, const std::string& got, const char* want) { if (got != want) { g_bad++; printf("MISMATCH c++ %s: got %s want %s\n", what, got.c_str(), want); fflush(stdout); } }
// True if `f` ends the process by a signal (tried in a child).
template <class F> bool died(F f) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); f(); _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  return WIFSIGNALED(st);
}
inline void check_true(const char* what, bool ok) { if (!ok) { g_bad++; printf("MISMATCH c++ %s\n", what); fflush(stdout); } }
}  // namespace tst
'''

PRELUDE_RS = r'''
mod hid {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    pub trait Ser { fn ser(&self) -> String; }
    macro_rules! ints { ($($t:ty)*) => { $(impl Ser for $t { fn ser(&self) -> String { format!("{}", self) } })* } }
    ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize bool);
    impl Ser for f32 { fn ser(&self) -> String { format!("f{:x}", self.to_bits()) } }
    impl Ser for f64 { fn ser(&self) -> String { format!("f{:x}", self.to_bits()) } }
    impl Ser for char { fn ser(&self) -> String { format!("c{:x}", *self as u32) } }
    impl Ser for () { fn ser(&self) -> String { "()".into() } }
    pub fn hex(b: &[u8]) -> String { let mut o = String::from("\""); for x in b { o += &format!("{:02x}", x); } o + "\"" }
    impl Ser for str { fn ser(&self) -> String { hex(self.as_bytes()) } }
    impl Ser for String { fn ser(&self) -> String { hex(self.as_bytes()) } }
    impl<T: Ser> Ser for Option<T> { fn ser(&self) -> String { match self { None => "N".into(), Some(x) => format!("S({})", x.ser()) } } }
    impl<T: Ser, E: Ser> Ser for Result<T, E> { fn ser(&self) -> String { match self { Ok(x) => format!("O({})", x.ser()), Err(x) => format!("E({})", x.ser()) } } }
    impl<T: Ser> Ser for [T] { fn ser(&self) -> String { format!("[{}]", self.iter().map(|x| x.ser()).collect::<Vec<_>>().join(",")) } }
    impl<T: Ser> Ser for Vec<T> { fn ser(&self) -> String { self[..].ser() } }
    impl<T: Ser, const N: usize> Ser for [T; N] { fn ser(&self) -> String { self[..].ser() } }
    impl<T: Ser + ?Sized> Ser for &T { fn ser(&self) -> String { (**self).ser() } }
    impl<T: Ser + ?Sized> Ser for &mut T { fn ser(&self) -> String { (**self).ser() } }
    impl<T: Ser> Ser for *const T { fn ser(&self) -> String { if self.is_null() { "null".into() } else { format!("p:{}", unsafe { &**self }.ser()) } } }
    impl<T: Ser> Ser for *mut T { fn ser(&self) -> String { (*self as *const T).ser() } }
    macro_rules! tup { ($($n:ident)*) => { impl<$($n: Ser),*> Ser for ($($n,)*) { #[allow(non_snake_case)] fn ser(&self) -> String { let ($($n,)*) = self; format!("({})", [$($n.ser()),*].join(",")) } } } }
    tup!(A); tup!(A B); tup!(A B C); tup!(A B C D); tup!(A B C D E);
    static CNT: [AtomicUsize; 4096] = [const { AtomicUsize::new(0) }; 4096];
    pub fn next(f: usize) -> usize { CNT[f].fetch_add(1, SeqCst) }
    pub fn chk(what: &str, got: String, want: &str) { if got != want { println!("MISMATCH rust {}: got {} want {}", what, got, want); } }
    pub fn bad(what: &str) { println!("MISMATCH rust {}", what); }
    // Live-object tracking: every Tok is registered while it lives.
    static LIVE: std::sync::Mutex<std::collections::BTreeSet<u64>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    pub struct Tok { id: u64, heap: Box<u64> }
    impl Tok { pub fn new() -> Tok { let id = NEXT.fetch_add(1, SeqCst); LIVE.lock().unwrap().insert(id); Tok { id, heap: Box::new(id) } } pub fn ok(&self) -> bool { *self.heap == self.id && LIVE.lock().unwrap().contains(&self.id) } }
    impl Default for Tok { fn default() -> Tok { Tok::new() } }
    impl Clone for Tok { fn clone(&self) -> Tok { if !self.ok() { bad("clone of a dead value") } CLONES.fetch_add(1, SeqCst); Tok::new() } }
    impl Drop for Tok { fn drop(&mut self) { if *self.heap != self.id { bad("drop of a corrupted value") } if !LIVE.lock().unwrap().remove(&self.id) { bad("value dropped twice (or never created)") } } }
    impl PartialEq for Tok { fn eq(&self, _: &Tok) -> bool { true } }
    pub static CLONES: AtomicUsize = AtomicUsize::new(0);
    pub fn live() -> usize { LIVE.lock().unwrap().len() }
}
use hid::Ser as _;
/// Number of live tracked values.
pub fn tst_live() -> usize { hid::live() }
/// Number of clones of tracked values so far.
pub fn tst_clones() -> usize { hid::CLONES.load(std::sync::atomic::Ordering::SeqCst) }
pub fn tst_flush() { use std::io::Write; let _ = std::io::stdout().flush(); }
'''
