#include "replay.h"
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <dlfcn.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
#include "asio/write.hpp"
#include "maidsafe/common/config.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"
using namespace maidsafe; using namespace maidsafe::tcp;
typedef std::string Str;

// the system calls, made to fail on demand
static std::atomic<bool> no6{false}; static std::atomic<int> fail_opt{0}, fail_bind{0}, fail_listen{0}, fail_open{0};
static std::atomic<int> busy{0};
static int note(int r) { if (r) ++busy; return r; }
static bool hit(std::atomic<int>& n) { return n > 0 && n-- > 0; }
extern "C" int socket(int d, int t, int p) noexcept {
  if (no6 && d == AF_INET6) { errno = EAFNOSUPPORT; return -1; }
  if (t & SOCK_STREAM && hit(fail_open)) { errno = EMFILE; return -1; }
  static auto f = reinterpret_cast<int (*)(int, int, int)>(dlsym(RTLD_NEXT, "socket")); return f(d, t, p);
}
extern "C" int setsockopt(int s, int l, int o, const void* v, socklen_t n) noexcept {
  if (o == SO_REUSEADDR && l == SOL_SOCKET && hit(fail_opt)) { errno = EPERM; return -1; }
  static auto f = reinterpret_cast<int (*)(int, int, int, const void*, socklen_t)>(dlsym(RTLD_NEXT, "setsockopt")); return f(s, l, o, v, n);
}
extern "C" int bind(int s, const sockaddr* a, socklen_t n) noexcept {
  if (hit(fail_bind)) { errno = EADDRINUSE; return -1; }
  static auto f = reinterpret_cast<int (*)(int, const sockaddr*, socklen_t)>(dlsym(RTLD_NEXT, "bind")); return note(f(s, a, n));
}
extern "C" int listen(int s, int n) noexcept {
  if (hit(fail_listen)) { errno = EADDRINUSE; return -1; }
  static auto f = reinterpret_cast<int (*)(int, int)>(dlsym(RTLD_NEXT, "listen")); return note(f(s, n));
}

static std::atomic<int> fail_accept{0}, accept_errno{EMFILE};
extern "C" int accept(int s, sockaddr* a, socklen_t* n) {
  if (hit(fail_accept)) { errno = accept_errno; return -1; }
  static auto f = reinterpret_cast<int (*)(int, sockaddr*, socklen_t*)>(dlsym(RTLD_NEXT, "accept")); return f(s, a, n);
}

struct Net {
  asio::io_service io; asio::io_service::strand s{io};
  asio::ip::tcp::acceptor a{io}; asio::ip::tcp::socket peer{io};
  Net() {
    asio::ip::tcp::endpoint e(no6 ? asio::ip::address(asio::ip::address_v4::loopback()) : asio::ip::address(asio::ip::address_v6::loopback()), 0);
    a.open(e.protocol()); a.bind(e); a.listen();
  }
  Port port() { return a.local_endpoint().port(); }
  template <class P> bool until(P p, int ms = 4000) {
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while (!p()) { if (std::chrono::steady_clock::now() > end) return false; io.restart(); io.run_one_for(std::chrono::milliseconds(5)); }
    return true;
  }
  void settle() { io.restart(); io.run_for(std::chrono::milliseconds(5)); }
};
struct Con {
  std::vector<Str> got; int closed = 0; bool strand = true; ConnectionPtr c;
  void start(Net& n) {
    c->Start([this, &n](Message m) { got.push_back(Str(m.begin(), m.end())); strand = strand && n.s.running_in_this_thread(); },
             [this, &n] { ++closed; strand = strand && n.s.running_in_this_thread(); });
  }
};
static Str frame(const Str& m) { Str r; for (int i = 3; i >= 0; --i) r += static_cast<char>(m.size() >> (8 * i)); return r + m; }
static Message msg(const Str& s) { return Message(s.begin(), s.end()); }
template <class F> static int code(F f) { try { f(); } catch (const maidsafe_error& e) { return e.code().value() + (e.code().category() == make_error_code(CommonErrors::unknown).category() ? 10000 : 20000); } catch (...) { return -1; } return 0; }
static int common(CommonErrors e) { return static_cast<int>(e) + 10000; }
static int vault(VaultManagerErrors e) { return static_cast<int>(e) + 20000; }

static void sending(const std::vector<Str>& ms, bool drop) {
  rp::input("sending " + std::to_string(ms.size()) + " messages, the first of " + std::to_string(ms.empty() ? 0 : ms[0].size()) + " bytes" + (drop ? ", then dropping the connection" : ""));
  Net n; Con k; k.c = Connection::MakeShared(n.s, n.port()); n.a.accept(n.peer);
  k.start(n);
  Str want;
  for (auto& m : ms) { k.c->Send(msg(m)); want += frame(m); if (rp::R(3) == 0) n.io.poll_one(); n.io.restart(); }
  if (drop) k.c.reset();
  Str got; n.peer.non_blocking(true);
  bool ok = n.until([&] { static char b[1 << 16]; std::error_code ec; size_t r = n.peer.read_some(asio::buffer(b), ec); got.append(b, r); return got.size() >= want.size(); });
  n.settle();
  rp::check(ok && got == want, "the peer receives " + std::to_string(got.size()) + " bytes, not the " + std::to_string(want.size()) + " of the messages: " + rp::show(got.substr(0, 40)));
  rp::check(!k.closed, "closed although nothing went wrong");
  n.peer.close();
  rp::check(n.until([&] { return k.closed > 0; }), "the peer closing is not reported"); n.settle();
  rp::check(k.closed == 1 && k.strand, "the closing is not reported once, in the strand");
}
static void receiving(const std::vector<Str>& ms, int chunk, uint32_t bad, bool drop) {
  rp::input("receiving " + std::to_string(ms.size()) + " messages, the first of " + std::to_string(ms.empty() ? 0 : ms[0].size()) + " bytes, in pieces of " + std::to_string(chunk) + (bad ? ", then a size of " + std::to_string(bad) : Str()));
  Net n; Con k; k.c = Connection::MakeShared(n.s, n.port()); n.a.accept(n.peer);
  k.start(n); k.start(n);
  Str all; for (auto& m : ms) all += frame(m);
  if (bad) { for (int i = 3; i >= 0; --i) all += static_cast<char>(bad >> (8 * i)); all += "trailing bytes"; }
  if (drop) { n.settle(); k.c.reset(); }
  chunk = std::max<int>(chunk, all.size() / 100);
  n.peer.non_blocking(true);
  size_t at = 0;
  bool ok = n.until([&] {
    if (at < all.size()) { std::error_code ec; at += n.peer.write_some(asio::buffer(all.data() + at, std::min<size_t>(chunk, all.size() - at)), ec); }
    return k.got.size() >= ms.size() && (at == all.size() || k.closed);
  });
  n.settle();
  for (size_t i = 0; i < ms.size() && i < k.got.size(); ++i) rp::check(k.got[i] == ms[i], "message " + std::to_string(i) + " arrives as " + std::to_string(k.got[i].size()) + " bytes " + rp::show(k.got[i].substr(0, 40)));
  rp::check(ok && k.got.size() == ms.size(), std::to_string(k.got.size()) + " messages are delivered");
  if (bad) { rp::check(n.until([&] { return k.closed > 0; }), "not closed"); n.settle(); rp::check(k.closed == 1 && k.got.size() == ms.size(), "not closed once"); }
  else {
    rp::check(!k.closed, "closed although nothing went wrong");
    if (rp::R(2)) { std::error_code ec; n.peer.write_some(asio::buffer(frame(Str(10, 'x')).substr(0, rp::R(13))), ec); }
    n.peer.close(); rp::check(n.until([&] { return k.closed > 0; }), "the peer closing is not reported"); n.settle(); rp::check(k.closed == 1 && k.got.size() == ms.size(), "the peer closing is not reported once");
  }
  rp::check(k.strand, "a callback runs outside the strand");
}
static void closing(bool started, int times, bool sent, bool drop) {
  rp::input(Str("Close, ") + (started ? "" : "not ") + "started, " + std::to_string(times) + " times" + (sent ? ", with messages outstanding" : ""));
  Net n; Con k; k.c = Connection::MakeShared(n.s, n.port()); n.a.accept(n.peer);
  std::weak_ptr<Connection> w(k.c);
  if (started) k.start(n);
  if (rp::R(2)) n.settle();
  if (sent) for (int i = 0; i < 3; ++i) k.c->Send(Message(700000, 7));
  for (int i = 0; i < times; ++i) k.c->Close();
  rp::check(!k.closed, "the closing is reported by Close itself");
  if (drop) k.c.reset();
  if (started) rp::check(n.until([&] { return k.closed > 0; }), "the closing is not reported"); 
  n.settle(); n.settle();
  rp::check(k.closed == started && k.strand, "the closing is reported " + std::to_string(k.closed) + " times, or outside the strand");
  if (drop) rp::check(w.expired(), "the connection stays alive");
  n.peer.non_blocking(true); static char b[1 << 16]; std::error_code ec;
  rp::check(n.until([&] { while (n.peer.read_some(asio::buffer(b), ec)) {} return ec != asio::error::would_block; }), "the peer does not see the end");
}
static void refused() {
  rp::input("refused messages");
  Net n; Con k; k.c = Connection::MakeShared(n.s, n.port()); n.a.accept(n.peer); k.start(n);
  rp::check(Connection::MaxMessageSize() == 1024 * 1024, "MaxMessageSize");
  rp::check(code([&] { k.c->Send(Message()); }) == common(CommonErrors::outside_of_bounds), "an empty message");
  for (size_t s : {Connection::MaxMessageSize() + 1, Connection::MaxMessageSize() * 2, size_t(1) << 24, (size_t(1) << 24) + 5}) rp::check(code([&] { k.c->Send(Message(s, 1)); }) == vault(VaultManagerErrors::ipc_message_too_large), "a message of " + std::to_string(s) + " bytes");
  Str want = frame("ok"); k.c->Send(msg("ok")); Str got; n.peer.non_blocking(true); char b[64]; std::error_code ec;
  n.until([&] { got.append(b, n.peer.read_some(asio::buffer(b), ec)); return got.size() >= want.size(); }); rp::check(got == want, "then " + rp::show(got));
  rp::input("connecting to a port nobody listens on"); Port p = n.port(); n.a.close();
  rp::check(code([&] { Connection::MakeShared(n.s, p); }) == vault(VaultManagerErrors::failed_to_connect), "wrong result");
}
static void both(bool six) {
  no6 = !six; { std::vector<Str> m{"a", Str(300, 'b')}; sending(m, false); receiving(m, 1 << 20, 0, false); } no6 = false;
}
static Port free_base() { return static_cast<Port>(10000 + rp::R(20000)); }
static void listening(std::atomic<int>* f, int fails, bool six, Port base, const char* what) {
  rp::input("listening at port " + std::to_string(base) + ", " + std::to_string(fails) + " failures of " + what + (six ? "" : ", no IPv6"));
  Net n; no6 = !six; *f = fails; busy = 0;
  std::vector<ConnectionPtr> in; bool strand = true; ListenerPtr l;
  int e = code([&] { l = Listener::MakeShared(n.s, [&](ConnectionPtr c) { in.push_back(c); strand = strand && n.s.running_in_this_thread(); }, base); });
  int left = *f; *f = 0; no6 = false;
  int last = std::min<int>(base + kMaxRangeAboveDefaultPort, 65535);
  rp::check(kMaxRangeAboveDefaultPort == 10, "kMaxRangeAboveDefaultPort");
  if (e) {
    rp::check(e == vault(VaultManagerErrors::failed_to_listen), "fails with " + std::to_string(e));
    // a port nobody uses makes it succeed unless every attempt was made to fail
    if (base && !busy) rp::check(fails >= last - base + 1 && left == fails - (last - base + 1), "gives up after " + std::to_string(fails - left) + " failures");
    return;
  }
  rp::check(fails < last - base + 1 || !base, "listens although every attempt fails");
  int at = l->ListeningPort();
  if (base) rp::check(at >= base + fails && at <= last, "listens at " + std::to_string(at));
  for (int i = 0; i < 3; ++i) {
    asio::ip::tcp::endpoint ep(six ? asio::ip::address(asio::ip::address_v6::loopback()) : asio::ip::address(asio::ip::address_v4::loopback()), at);
    int es[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM, EPERM}; accept_errno = es[rp::R(5)]; fail_accept = rp::R(3);
    rp::input("a connection at port " + std::to_string(at) + " where accept fails " + std::to_string(fail_accept) + " times with errno " + std::to_string(accept_errno));
    asio::ip::tcp::socket c(n.io); std::error_code ec; c.connect(ep, ec);
    rp::check(!ec, "cannot connect: " + ec.message());
    rp::check(n.until([&] { return in.size() > size_t(i); }), "the connection is not reported"); n.settle();
    rp::check(in.size() == size_t(i) + 1 && strand && in[i] && in[i]->Socket().is_open(), "reported " + std::to_string(in.size()) + " times or outside the strand");
    std::vector<Str> got; in[i]->Start([&](Message m) { got.push_back(Str(m.begin(), m.end())); }, [] {});
    asio::write(c, asio::buffer(frame("hello"))); rp::check(n.until([&] { return !got.empty(); }) && got[0] == "hello", "the accepted connection does not work");
    in[i]->Close(); n.settle();
  }
  std::weak_ptr<Listener> w(l); l->StopListening(); if (rp::R(2)) l->StopListening(); l.reset();
  n.settle(); n.settle();
  rp::check(w.expired(), "the listener stays alive");
  asio::ip::tcp::socket c(n.io); std::error_code ec; c.connect(asio::ip::tcp::endpoint(six ? asio::ip::address(asio::ip::address_v6::loopback()) : asio::ip::address(asio::ip::address_v4::loopback()), at), ec); n.settle();
  rp::check(bool(ec) && in.size() == 3, "still listening");
}
static void threads() {
  rp::input("several threads send through a connection whose handlers run in two threads");
  asio::io_service io; asio::io_service::strand s(io), s2(io); auto work = asio::make_work_guard(io);
  std::atomic<int> got{0}, closed{0}, inside{0}; std::vector<int> last(4, -1); ConnectionPtr in; std::atomic<bool> ready{false}; bool order = true;
  auto l = Listener::MakeShared(s, [&](ConnectionPtr c) { in = c; c->Start([&](Message m) { order = order && ++inside == 1; if (m.size() > 2) { order = order && last[m[0]] + 1 == m[1]; last[m[0]] = m[1]; } --inside; ++got; }, [&] { ++closed; }); ready = true; }, free_base());
  std::thread a([&] { io.run(); }), b([&] { io.run(); });
  int back = 0; std::atomic<int> backs{0};
  ConnectionPtr c = Connection::MakeShared(s2, l->ListeningPort()); c->Start([&](Message) { ++back; ++backs; }, [&] { ++closed; });
  while (!ready) std::this_thread::yield();
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 40; ++i) { c->Send(Message{static_cast<unsigned char>(t), static_cast<unsigned char>(i), 3, 4}); in->Send(Message(1 + i, 9)); } });
  for (auto& t : ts) t.join();
  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(8);
  while ((got < 160 || backs < 160) && std::chrono::steady_clock::now() < end) usleep(100);
  int g = got, k = backs;
  if (rp::R(2)) { c->Close(); in->Close(); } else in->Close();
  l->StopListening(); l.reset();
  while (closed < 2 && std::chrono::steady_clock::now() < end) usleep(100);
  work.reset(); a.join(); b.join(); in.reset(); c.reset();
  rp::check(g == 160 && k == 160 && order, "messages are lost or out of order: " + std::to_string(g) + ", " + std::to_string(k));
  rp::check(closed == 2, "the closings are reported " + std::to_string(closed) + " times");
}
void vp_replay(const rp::Cands&, rp::Clock clock) {
  signal(SIGPIPE, SIG_IGN);
#ifdef RP_THREADS
  while (clock.more()) threads();
#else
  const size_t M = Connection::MaxMessageSize();
  refused(); both(true); both(false);
  std::atomic<int>* fs[] = {&fail_open, &fail_opt, &fail_bind, &fail_listen}; const char* names[] = {"socket", "setsockopt", "bind", "listen"};
  bool first = true;
  while (clock.more()) {
    std::vector<Str> ms; size_t sizes[] = {1, 2, 3, 255, 256, 257, 65535, 65536, 1 + rp::R(100000), M - 1, M};
    for (int i = 0, k = 1 + rp::R(6); i < k; ++i) ms.push_back(rp::rnd(rp::R(2) ? 1 + rp::R(600) : sizes[rp::R(11)]));
    if (first) { ms.clear(); for (size_t z : sizes) ms.push_back(rp::rnd(z)); }
    sending(ms, rp::R(2));
    if (rp::R(2)) ms.insert(ms.begin() + rp::R(ms.size()), Str());
    uint32_t bad[] = {0, 0, uint32_t(M + 1), 1u << 24, 0x7fffffff, 0x80000000u, 0xffffffffu, uint32_t(M) | 0x80000000u};
    receiving(ms, rp::R(3) ? 1 << 20 : 1 + rp::R(5000), bad[rp::R(8)], rp::R(2));
    std::vector<Str> small; for (int i = 0; i < 4; ++i) small.push_back(rp::rnd(rp::R(9)));
    receiving(small, 1, bad[rp::R(8)], rp::R(2));
    for (uint32_t b : bad) if (first) receiving(small, 1 << 20, b, rp::R(2));
    closing(rp::R(2), 1 + rp::R(2), rp::R(2), rp::R(2));
    for (int i = 0; i < 4; ++i) {
      Port base = free_base();
      listening(fs[i], rp::R(4), rp::R(2), base, names[i]);
      if (rp::R(3) == 0) listening(fs[i], 9 + rp::R(4), rp::R(2), base, names[i]);
      if (rp::R(3) == 0) listening(fs[i], rp::R(5), rp::R(2), 65535 - rp::R(4), names[i]);
    }
    first = false;
  }
#endif
}
