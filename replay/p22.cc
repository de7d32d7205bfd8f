#include "replay.h"
#include "h_ser.cc"
#include "maidsafe/common/error.h"
typedef std::string St;
static St str(const Bytes& b) { return St(b.begin(), b.end()); }
static Bytes vec(const St& s) { return Bytes(s.begin(), s.end()); }
template <typename T> St enc(const T& v) { St s(sizeof(T), 0); memcpy(&s[0], &v, sizeof(T)); return s; }
template <> St enc<St>(const St& v) { return enc(std::uint64_t(v.size())) + v; }
template <> St enc<Bytes>(const Bytes& v) { return enc(std::uint64_t(v.size())) + str(v); }
template <typename F> static int thrown(F f) {   // 0 no, 1 cereal::Exception, 2 parsing_error, 3 another
  try { f(); return 0; } catch (const cereal::Exception&) { return 1; } catch (const maidsafe_error& e) { return e.code() == make_error_code(CommonErrors::parsing_error) ? 2 : 3; } catch (...) { return 3; }
}
static OutputVectorStream& filled(OutputVectorStream& s, const St& b) { s.write(reinterpret_cast<const byte*>(b.data()), b.size()); return s; }
// a stream whose buffer takes one byte less than it is given
struct Short : boost::interprocess::basic_vectorbuf<Bytes> {
  Short() : boost::interprocess::basic_vectorbuf<Bytes>(std::ios_base::out) {}
  std::streamsize xsputn(const byte* p, std::streamsize n) override { return n ? boost::interprocess::basic_vectorbuf<Bytes>::xsputn(p, n - 1) : 0; }
};
struct ShortStream : OutputVectorStream {
  ShortStream() { typedef boost::interprocess::basic_vectorbuf<Bytes> B; B* b = this->rdbuf(); b->~B(); static_assert(sizeof(Short) == sizeof(B), ""); new (b) Short; }
};
static St text(const char* nm, const St& e) { return St(nm) + " whose encoding is " + rp::show(e); }
template <typename T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(float a, float b) { return !memcmp(&a, &b, 4); }
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
// one value through all the functions
template <typename T, typename To, typename Ser, typename Par, typename ParTo, typename From>
static void one(const char* nm, const T& v, To to, Ser ser, Par par, ParTo parto, From from) {
  St e = enc(v), pre = rp::rnd(rp::len(40));
  rp::input("ConvertToVectorStream of " + text(nm, e) + " after " + rp::show(pre));
  { OutputVectorStream s; filled(s, pre); to(s, v); rp::check(str(s.vector()) == pre + e, "gives " + rp::show(str(s.vector()))); }
  { ShortStream s; rp::input("ConvertToVectorStream of " + text(nm, e) + " to a stream that takes a byte less than it is given"); rp::check(thrown([&] { to(s, v); }) == 1, "does not throw cereal::Exception"); }
  rp::input("Serialise of " + text(nm, e));
  { alignas(Bytes) char m[sizeof(Bytes)]; ser(reinterpret_cast<Bytes*>(m), v); Bytes& b = *reinterpret_cast<Bytes*>(m); rp::check(str(b) == e, "gives " + rp::show(str(b))); b.~Bytes(); }
  St post = rp::rnd(rp::R(5)), junk = rp::rnd(rp::R(9));
  rp::input("Parse of " + text(nm, e) + " followed by " + rp::show(post));
  { alignas(T) char m[sizeof(T)]; T* p = reinterpret_cast<T*>(m); par(vec(e + post), p); rp::check(same(*p, v), "gives another value"); p->~T(); }
  { T t = T(); parto(vec(e + post), t); rp::check(same(t, v), "gives another value"); }
  { InputVectorStream s{vec(junk + e + post)}; for (size_t i = 0; i < junk.size(); ++i) s.get(); alignas(T) char m[sizeof(T)]; T* p = reinterpret_cast<T*>(m); from(s, p); rp::check(same(*p, v), "gives another value"); p->~T(); rp::check(size_t(s.rdbuf()->in_avail()) == post.size(), "reads more or less than the encoding"); }
  size_t cut = rp::R(3) ? e.size() - 1 - rp::R(std::min<size_t>(e.size(), 3)) : rp::R(e.size());
  Bytes d = vec(e.substr(0, cut));
  rp::input("Parse of the first " + std::to_string(cut) + " bytes of " + text(nm, e));
  alignas(T) char m[sizeof(T)];
  rp::check(thrown([&] { par(d, reinterpret_cast<T*>(m)); }) == 1, "does not throw cereal::Exception");
  rp::check(thrown([&] { T t = T(); parto(d, t); }) == 1, "does not throw cereal::Exception");
  rp::check(thrown([&] { InputVectorStream s{d}; from(s, reinterpret_cast<T*>(m)); }) == 1, "does not throw cereal::Exception");
}
template <typename T> static T any() { T t; St s = rp::R(2) ? rp::rnd(sizeof(T)) : enc(std::uint64_t(rp::num())); memcpy(&t, s.data(), sizeof(T)); return t; }
static void mixed() {
  std::uint32_t a = any<std::uint32_t>(); St b = rp::rnd(rp::len(5000)); std::uint8_t c = any<std::uint8_t>(); Bytes d = vec(rp::rnd(rp::len(5000)));
  St e3 = enc(a) + enc(b) + enc(c), e = e3 + enc(d), pre = rp::rnd(rp::len(40)), post = rp::rnd(rp::R(5));
  rp::input("Serialise of a uint32, a string, a uint8, bytes: " + rp::show(e));
  { OutputVectorStream s; to_mix(filled(s, pre), a, b, c, d); rp::check(str(s.vector()) == pre + e, "ConvertToVectorStream gives " + rp::show(str(s.vector()))); }
  { alignas(Bytes) char m[sizeof(Bytes)]; Bytes& r = *reinterpret_cast<Bytes*>(m); ser_mix(&r, a, b, c, d); rp::check(str(r) == e, "gives " + rp::show(str(r))); r.~Bytes();
    OutputVectorStream s; sers_mix(&r, filled(s, pre), a, b, c, d); rp::check(str(r) == pre + e, "on a stream gives " + rp::show(str(r))); r.~Bytes(); }
  { alignas(St) char m[sizeof(St)]; St& r = *reinterpret_cast<St*>(m); str_mix(&r, a, b, c); rp::check(r == e3, "ConvertToString gives " + rp::show(r)); r.~St(); }
  for (int i = 0; i < 3; ++i) {
    std::uint32_t x = 0; St y = rp::rnd(rp::R(4)); std::uint8_t z = 0;
    rp::input("Parse of several values from " + rp::show(e3 + post));
    if (i == 0) { InputVectorStream s{vec(e3 + post)}; from_mix(s, x, y, z); rp::check(size_t(s.rdbuf()->in_avail()) == post.size(), "reads more or less than the encoding"); }
    if (i == 1) par_mix(vec(e3 + post), x, y, z);
    if (i == 2) unstr_mix(e3 + post, x, y, z);
    rp::check(x == a && y == b && z == c, "gives other values");
    size_t cut = rp::R(2) ? e3.size() - 1 : rp::R(e3.size()); St sh = e3.substr(0, cut);
    rp::input("Parse of several values from the first " + std::to_string(cut) + " bytes of " + rp::show(e3));
    rp::check(thrown([&] { if (i == 0) { InputVectorStream s{vec(sh)}; from_mix(s, x, y, z); } if (i == 1) par_mix(vec(sh), x, y, z); if (i == 2) unstr_mix(sh, x, y, z); }) == 1, "does not throw cereal::Exception");
  }
  { St y; Bytes w; rp::input("Parse of a string and bytes from " + rp::show(enc(b) + enc(d))); par_two(vec(enc(b) + enc(d)), y, w); rp::check(y == b && w == d, "gives other values"); InputVectorStream s{vec(enc(b) + enc(d))}; y.clear(); w.clear(); from_two(s, y, w); rp::check(y == b && w == d, "gives other values"); }
  { alignas(St) char m[sizeof(St)]; St& r = *reinterpret_cast<St*>(m); rp::input("ConvertFromString from " + rp::show(enc(b))); unstr_one(enc(b), &r); rp::check(r == b, "gives " + rp::show(r)); r.~St(); St q; unstr_ref(enc(b), q); rp::check(q == b, "gives " + rp::show(q));
    St sh = enc(b).substr(0, 7 + rp::R(b.size() + 1)); rp::input("ConvertFromString from " + rp::show(sh) + " which is cut short"); rp::check(thrown([&] { unstr_one(sh, &r); }) == 1 && thrown([&] { unstr_ref(sh, q); }) == 1, "does not throw cereal::Exception"); }
  { boost::filesystem::path p(b), q("x"); OutputVectorStream s; rp::input("path " + rp::show(b)); to_p(s, p); rp::check(str(s.vector()) == enc(b), "gives " + rp::show(str(s.vector()))); InputVectorStream i{s.vector()}; from_p(i, q); rp::check(q.native() == b, "is read as " + rp::show(q.native())); InputVectorStream j{vec(enc(b).substr(0, 7))}; rp::check(thrown([&] { from_p(j, q); }) == 1, "cut short does not throw cereal::Exception"); }
  { St buf = rp::rnd(rp::len(300)); OutputVectorStream s, t; rp::input("binary data " + rp::show(buf)); ar_save(s, buf.data(), buf.size()); ar_save_bd(t, buf.data(), buf.size()); rp::check(str(s.vector()) == buf && str(t.vector()) == buf, "is not written as it is");
    St g(buf.size(), 'z'), h = g; InputVectorStream i{vec(buf)}, j{vec(buf)}; ar_load(i, &g[0], g.size()); ar_load_bd(j, &h[0], h.size()); rp::check(g == buf && h == buf, "is not read as it is");
    if (!buf.empty()) { InputVectorStream k{vec(buf.substr(1))}, l{vec(buf.substr(1))}; rp::check(thrown([&] { ar_load(k, &g[0], g.size()); }) == 1 && thrown([&] { ar_load_bd(l, &h[0], h.size()); }) == 1, "cut short does not throw cereal::Exception"); ShortStream n, o; rp::check(thrown([&] { ar_save(n, buf.data(), buf.size()); }) == 1 && thrown([&] { ar_save_bd(o, buf.data(), buf.size()); }) == 1, "not written does not throw cereal::Exception"); } }
}
template <typename A, typename A4, typename A6> static void address(const char* nm, void (*to)(OutputVectorStream&, const A&), void (*from)(InputVectorStream&, A&)) {
  St b = rp::rnd(16); if (rp::R(3) == 0) b = St(10, 0) + "\xff\xff" + rp::rnd(4); if (rp::R(4) == 0) b = St(12, 0) + rp::rnd(4);
  typename A4::bytes_type b4; typename A6::bytes_type b6; memcpy(&b4[0], b.data(), 4); memcpy(&b6[0], b.data(), 16);
  for (int six = 0; six < 2; ++six) {
    A a = six ? A(A6(b6)) : A(A4(b4)); St e = six ? St(1, 16) + b : St(1, 4) + b.substr(0, 4), post = rp::rnd(rp::R(20));
    rp::input(St(nm) + " address " + a.to_string()); OutputVectorStream s; to(s, a); rp::check(str(s.vector()) == e, "is written as " + rp::show(str(s.vector())));
    rp::input(St(nm) + " address from " + rp::show(e + post)); A r = six ? A(A4(b4)) : A(A6(b6)); InputVectorStream i{vec(e + post)}; from(i, r); rp::check(r == a && r.is_v4() == !six, "is read as " + r.to_string()); rp::check(size_t(i.rdbuf()->in_avail()) == post.size(), "reads more or less than the address");
    St sh = e.substr(0, rp::R(e.size())); rp::input(St(nm) + " address from " + rp::show(sh)); InputVectorStream j{vec(sh)}; rp::check(thrown([&] { from(j, r); }) == 1, "does not throw cereal::Exception");
  }
  St o(1, char(rp::R(256))); if (o[0] != 4 && o[0] != 16) { o += rp::rnd(rp::R(40)); rp::input(St(nm) + " address from " + rp::show(o)); A r; InputVectorStream i{vec(o)}; rp::check(thrown([&] { from(i, r); }) == 2, "does not throw parsing_error"); }
}
#define ONE(N, T) one<T>(#T, any<T>(), [](OutputVectorStream& s, const T& v) { to_##N(s, v); }, [](Bytes* o, const T& v) { ser_##N(o, v); }, par_##N, parto_##N, from_##N)
#define ONEC(N, T, V) one<T>(#T, V, to_##N, ser_##N, par_##N, parto_##N, from_##N)
void vp_replay(const rp::Cands&, rp::Clock clock) {
  while (clock.more()) for (int r = 0; r < 200; ++r) {
    { bool v = rp::R(2); one<bool>("bool", v, [](OutputVectorStream& s, const bool& b) { to_bool(s, b); }, [](Bytes* o, const bool& b) { ser_bool(o, b); }, par_bool, parto_bool, from_bool); }
    ONE(c, char); ONE(i8, std::int8_t); ONE(u8, std::uint8_t); ONE(i16, std::int16_t); ONE(u16, std::uint16_t); ONE(i32, std::int32_t); ONE(u32, std::uint32_t); ONE(i64, std::int64_t); ONE(u64, std::uint64_t); ONE(f, float); ONE(d, double);
    ONEC(s, St, rp::rnd(rp::len(5000))); ONEC(v, Bytes, vec(rp::rnd(rp::len(5000))));
    mixed();
    address<asio::ip::address, asio::ip::address_v4, asio::ip::address_v6>("asio", to_a, from_a);
    address<boost::asio::ip::address, boost::asio::ip::address_v4, boost::asio::ip::address_v6>("boost::asio", to_b, from_b);
  }
}
