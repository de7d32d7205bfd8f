#include "replay.h"
#include <cstring>
#include <limits>
#include "h_hash.cc"
static std::string bytes(const void* p, size_t n) { return std::string(static_cast<const char*>(p), n); }
template <typename T> typename std::enable_if<std::is_integral<T>::value, std::string>::type enc(const T& v) { return bytes(&v, sizeof v); }
static std::string enc(double v) { if (v == 0) v = 0.0; return bytes(&v, 8); }
static std::string enc(float v) { if (v == 0) v = 0.0f; return bytes(&v, 4); }
static std::string enc(const Elem& e) { return bytes(&e.id, 8); }
template <typename A, typename B> std::string enc(const std::pair<A, B>& p) { return enc(p.first) + enc(p.second); }
template <typename It> std::string range(It a, It b) { std::string s; uint64_t n = 0; for (; a != b; ++a, ++n) s += enc(*a); return s + enc(n); }
template <typename C> std::string seq(const C& c) { return range(c.begin(), c.end()); }
template <typename F, typename T> void one(const char* name, F f, T& x, const std::string& want) {
  std::string pre = rp::rnd(rp::R(4)), out = pre;
  rp::input(std::string(name) + " of a value whose documented encoding is " + rp::show(want));
  f(out, x);
  rp::check(out == pre + want, "fed " + rp::show(out.substr(pre.size())));
}
#define ONE_(N, X, W) one(#N, N, X, W)
static double dbl() { uint64_t k = rp::R(8), b = rp::num(); double d; std::memcpy(&d, &b, 8);
  return k == 0 ? 0.0 : k == 1 ? -0.0 : k == 2 ? 1.0 / 3 : k == 3 ? std::numeric_limits<double>::denorm_min() : d; }
static float flo() { uint64_t k = rp::R(8); uint32_t b = rp::num(); float d; std::memcpy(&d, &b, 4); return k == 0 ? 0.0f : k == 1 ? -0.0f : d; }
template <typename T, typename G> std::vector<T> many(G g, size_t m = 40) { std::vector<T> v; size_t n = rp::len(m); while (n--) v.push_back(g()); return v; }
static Elem el() { return Elem{rp::R(2) ? rp::num() : rp::R(5)}; }
static void scalars(uint64_t v) {
  bool b = v & 1; char c = v; signed char sc = v; u8 a8 = v; std::int16_t i16 = v; u16 a16 = v; int i32 = v; u32 a32 = v; std::int64_t i64 = v; u64 a64 = v; wchar_t w = v;
  ONE_(h_bool, b, enc(b)); ONE_(h_char, c, enc(c)); ONE_(h_i8, sc, enc(sc)); ONE_(h_u8, a8, enc(a8)); ONE_(h_i16, i16, enc(i16));
  ONE_(h_u16, a16, enc(a16)); ONE_(h_i32, i32, enc(i32)); ONE_(h_u32, a32, enc(a32)); ONE_(h_i64, i64, enc(i64)); ONE_(h_u64, a64, enc(a64)); ONE_(h_wchar, w, enc(w));
}
static void strings(const std::string& s) {
  ONE_(h_string, s, seq(s)); boost::string_ref r(s); ONE_(h_string_ref, r, seq(s));
  std::vector<u8> v(s.begin(), s.end()); ONE_(h_vec_u8, v, seq(v));
  Seeded h; std::string seed = h(u8(1)).substr(0, 16);
  rp::input("SeededHash of " + rp::show(s));
  for (int i = 0; i < 2; ++i) rp::check(h(s) == seed + seq(s), "digest depends on more than seed and value");
  Seeded g(h); rp::check(g(s) == h(s), "a copy gives another digest");
  u32 x = rp::num(); Elem e = el(); rp::check(h(x, e) == seed + enc(x) + enc(e), "digest of two values");
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  for (auto& p : c.nums) scalars(p.second);
  for (auto& p : c.bytes) strings(p.second);
  strings("");
  for (size_t n : {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 70000}) {
    strings(std::string(n, 'x'));
    std::vector<u16> v(n, 5); ONE_(h_vec_u16, v, seq(v)); std::list<u16> l(v.begin(), v.end()); ONE_(h_list_u16, l, seq(l));
    std::vector<double> d(n, -0.0); ONE_(h_vec_double, d, seq(d));
    std::vector<Elem> e(n); for (size_t i = 0; i < n; ++i) e[i].id = i; ONE_(h_vec_elem, e, seq(e));
    std::forward_list<Elem> fl(e.begin(), e.end()); ONE_(h_flist, fl, seq(e)); std::set<Elem> st(e.begin(), e.end()); ONE_(h_set, st, seq(e));
    std::map<Elem, Elem> m; for (auto& x : e) m.insert(m.end(), std::make_pair(x, x)); ONE_(h_map, m, seq(m));
    boost::iterator_range<FwdIt> rf(FwdIt{e.data()}, FwdIt{e.data() + n}); ONE_(h_range_fwd, rf, seq(e));
  }
  { Seeded a, b; rp::input("two SeededHash objects"); rp::check(a(u8(1)) != b(u8(1)), "the same seed"); }
  while (clock.more()) {
    scalars(rp::num()); strings(rp::rnd(rp::len(200)));
    double d = dbl(); ONE_(h_double, d, enc(d)); float fl = flo(); ONE_(h_float, fl, enc(fl));
    { std::pair<u32, u32> p(rp::num(), rp::num()); ONE_(h_pair_cont, p, enc(p)); }
    { std::pair<u8, u64> p; std::memset(&p, rp::R(256), sizeof p); p.first = rp::num(); p.second = rp::num(); ONE_(h_pair_pad, p, enc(p)); }
    { std::pair<u64, u8> p; std::memset(&p, rp::R(256), sizeof p); p.first = rp::num(); p.second = rp::num(); ONE_(h_pair_pad2, p, enc(p)); }
    { std::pair<double, u32> p(dbl(), rp::num()); ONE_(h_pair_dbl, p, enc(p)); }
    { std::pair<Elem, u16> p(el(), rp::num()); ONE_(h_pair_elem, p, enc(p)); }
    { std::pair<std::pair<u8, u16>, u32> p; std::memset(&p, rp::R(256), sizeof p); p.first.first = rp::num(); p.first.second = rp::num(); p.second = rp::num(); ONE_(h_pair_nest, p, enc(p)); }
    { std::tuple<u8, u32, Elem> t(rp::num(), rp::num(), el()); ONE_(h_tuple3, t, enc(std::get<0>(t)) + enc(std::get<1>(t)) + enc(std::get<2>(t))); }
    { std::tuple<double, u8> t(dbl(), rp::num()); ONE_(h_tuple2, t, enc(std::get<0>(t)) + enc(std::get<1>(t))); }
    { auto v = many<u16>(rp::num); ONE_(h_vec_u16, v, seq(v)); std::list<u16> l(v.begin(), v.end()); ONE_(h_list_u16, l, seq(l));
      std::set<u16> s(v.begin(), v.end()); ONE_(h_set_u16, s, seq(s));
      boost::iterator_range<const u16*> r(v.data(), v.data() + v.size()); ONE_(h_range_ptr, r, seq(v)); }
    { auto v = many<u64>(rp::num); ONE_(h_vec_u64, v, seq(v)); }
    { auto v = many<double>(dbl); ONE_(h_vec_double, v, seq(v)); }
    { auto v = many<Elem>(el); ONE_(h_vec_elem, v, seq(v)); std::list<Elem> l(v.begin(), v.end()); ONE_(h_list, l, seq(l));
      std::forward_list<Elem> fl(v.begin(), v.end()); ONE_(h_flist, fl, seq(v)); std::set<Elem> s(v.begin(), v.end()); ONE_(h_set, s, seq(s));
      boost::iterator_range<const Elem*> r(v.data(), v.data() + v.size()); ONE_(h_range_elem, r, seq(v));
      boost::iterator_range<FwdIt> rf(FwdIt{v.data()}, FwdIt{v.data() + v.size()}); ONE_(h_range_fwd, rf, seq(v));
      std::map<Elem, Elem> m; for (auto& e : v) m[e] = el(); ONE_(h_map, m, seq(m)); }
    { auto v = many<std::pair<u8, u64>>([] { return std::make_pair(u8(rp::num()), u64(rp::num())); }); ONE_(h_vec_pair, v, seq(v));
      std::map<u8, u64> m(v.begin(), v.end()); ONE_(h_map_u8, m, seq(m)); }
    { auto v = many<std::pair<u16, u16>>([] { return std::make_pair(u16(rp::num()), u16(rp::num())); }); ONE_(h_vec_cpair, v, seq(v)); }
    { std::array<u8, 16> a; for (auto& x : a) x = rp::num(); ONE_(h_arr_u8, a, seq(a)); }
    { std::array<u16, 3> a; for (auto& x : a) x = rp::num(); ONE_(h_arr_u16, a, seq(a)); }
    { std::array<double, 2> a; for (auto& x : a) x = dbl(); ONE_(h_arr_double, a, seq(a)); }
    { u32 a[3]; for (auto& x : a) x = rp::num(); std::string out; rp::input("a C array"); h_carr(out, a); rp::check(out == range(a, a + 3), "fed " + rp::show(out)); }
    { Elem a[2]; for (auto& x : a) x = el(); std::string out; rp::input("a C array of a class"); h_carr_elem(out, a); rp::check(out == range(a, a + 2), "fed " + rp::show(out)); }
    { u16 a = rp::num(), b = rp::num(); std::initializer_list<u16> l{a, b}; ONE_(h_init, l, seq(l)); std::initializer_list<u16> z{}; ONE_(h_init, z, seq(z)); }
    { Elem a = el(), b = el(); std::initializer_list<Elem> l{a, b}; ONE_(h_init_elem, l, seq(l)); }
    { Elem e = el(); ONE_(h_elem, e, enc(e)); }
    u8 a = rp::num(); u32 b = rp::num(); u16 cc = rp::num();
    { user::Member x{a, b}; ONE_(h_member, x, enc(x.b) + enc(x.a)); }
    { user::Sav x{a, b}; ONE_(h_sav, x, enc(a) + enc(b)); } { user::VSav x{b}; ONE_(h_vsav, x, enc(b) + enc(u32(7))); }
    { user::NSav x; x.a = b; x.b = a; ONE_(h_nsav, x, enc(b) + enc(a)); } { user::NVSav x; x.a = b; ONE_(h_nvsav, x, enc(b) + enc(u32(0))); }
    { user::Ser x{a, b, cc}; ONE_(h_ser, x, enc(a) + enc(b) + enc(cc)); } { user::SerAmp x{a, b}; ONE_(h_seramp, x, enc(a) + enc(b)); }
    { user::VSer x{b}; ONE_(h_vser, x, enc(b) + enc(u32(0))); } { user::NSer x; x.a = b; x.b = a; ONE_(h_nser, x, enc(b) + enc(a)); }
    { user::NVSer x; x.a = b; ONE_(h_nvser, x, enc(b) + enc(u32(9))); }
    { Elem e = el(); std::string o1, o2, w = enc(a) + enc(b) + enc(e); rp::input("three arguments"); h_multi(o1, a, b, e); rp::check(o1 == w, "hash(a, b, c)"); rp::check(h_amp(o2, a, b, e) && o2 == w, "hash & a & b & c"); }
  }
}
