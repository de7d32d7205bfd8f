// maidsafe::tcp on top of asio.  The classes of asio which talk to the operating system (sockets, acceptors) or schedule
// (strands) are replaced, behind their own include guards, by declarations with contracts; buffers, endpoints, error
// codes and categories are asio's own.  async_read, async_write, post and dispatch are overloads which hand the
// completion handler to the contract, which invokes it at any later time.
#define ASIO_BASIC_SOCKET_ACCEPTOR_HPP
#define ASIO_BASIC_STREAM_SOCKET_HPP
#define ASIO_IO_CONTEXT_STRAND_HPP
#include <memory>
#include <type_traits>
#include "asio/detail/config.hpp"
#include "asio/any_io_executor.hpp"
#include "asio/bind_executor.hpp"
#include "asio/buffer.hpp"
#include "asio/error.hpp"
#include "asio/io_context.hpp"
#include "asio/socket_base.hpp"
#include "asio/detail/throw_error.hpp"

namespace vp {
struct HolderBase {
  virtual ~HolderBase() {}
  virtual void run(const std::error_code&, std::size_t) = 0;
};
}
extern "C" {
void vp_buf(const void* p, std::size_t n);
void vp_op(int kind, const void* sock, vp::HolderBase* h, const void* strand);
int vp_sock(int op, const void* sock, int arg);                               // returns an errno
int vp_endpoint(int op, const void* sock, int v6, int loopback, int port);    // returns an errno
int vp_local_port(const void* sock);
bool vp_is_open(const void* sock);
bool vp_in_strand(const void* strand);
void vp_message(const unsigned char* p, std::size_t n);
void vp_closed();
void vp_new_connection(void* c);
}
enum { kRead, kWrite, kPost, kDispatch, kAccept };
enum { kConstruct, kDestroy, kOpen, kClose, kShutdown, kRemote, kOption, kListen, kCancel };
enum { kConnect, kBind };

namespace asio {
namespace ip { class tcp; }

namespace vpd {
inline std::error_code ec(int e) { return std::error_code(e, asio::error::get_system_category()); }
template <typename H>
struct Holder : vp::HolderBase {
  H h;
  template <typename T>
  explicit Holder(T&& t) : h(std::forward<T>(t)) {}
  void run(const std::error_code& e, std::size_t n) override {
    (void)e, (void)n;
    if constexpr (std::is_invocable<H&, const std::error_code&, std::size_t>::value)
      h(e, n);
    else if constexpr (std::is_invocable<H&, const std::error_code&>::value)
      h(e);
    else
      h();
  }
};
template <typename H>
struct Wrapped {
  const void* strand;
  H h;
};
template <typename H>
void op(int kind, const void* sock, const void* strand, H&& h) {
  typedef typename std::decay<H>::type T;
  vp_op(kind, sock, new Holder<T>(std::forward<H>(h)), strand);
}
template <typename H>
void op(int kind, const void* sock, const void*, const Wrapped<H>& w) { op(kind, sock, w.strand, w.h); }
template <typename H>
void op(int kind, const void* sock, const void*, Wrapped<H>&& w) { op(kind, sock, w.strand, std::move(w.h)); }
template <typename H>
void op(int kind, const void* sock, const void*, Wrapped<H>& w) { op(kind, sock, w.strand, w.h); }
}  // namespace vpd

class io_context::strand {
 public:
  explicit strand(io_context& c) : context_(&c), impl_(this) {}
  io_context& context() const noexcept { return *context_; }
  void on_work_started() const noexcept {}
  void on_work_finished() const noexcept {}
  bool running_in_this_thread() const noexcept { return vp_in_strand(impl_); }
  template <typename H>
  vpd::Wrapped<typename std::decay<H>::type> wrap(H&& h) { return {impl_, std::forward<H>(h)}; }
  template <typename H>
  void post(H&& h) { vpd::op(kPost, nullptr, impl_, std::forward<H>(h)); }
  template <typename H>
  void dispatch(H&& h) { vpd::op(kDispatch, nullptr, impl_, std::forward<H>(h)); }
  friend bool operator==(const strand& a, const strand& b) noexcept { return a.impl_ == b.impl_; }
  friend bool operator!=(const strand& a, const strand& b) noexcept { return a.impl_ != b.impl_; }
  io_context* context_;
  const void* impl_;
};
namespace vpd {
template <typename H>
void op(int kind, const void* sock, const void*, const executor_binder<H, io_context::strand>& w) { op(kind, sock, w.get_executor().impl_, w.get()); }
template <typename H>
void op(int kind, const void* sock, const void*, executor_binder<H, io_context::strand>&& w) { op(kind, sock, w.get_executor().impl_, std::move(w.get())); }
}

#define VP_VOID(call)        \
  std::error_code e_ = call; \
  if (e_) throw std::system_error(e_)

template <typename Protocol, typename Executor = any_io_executor>
class basic_stream_socket : public socket_base {
 public:
  typedef Executor executor_type;
  typedef Protocol protocol_type;
  typedef typename Protocol::endpoint endpoint_type;
  typedef basic_stream_socket lowest_layer_type;
  basic_stream_socket(const basic_stream_socket&) = delete;
  basic_stream_socket& operator=(const basic_stream_socket&) = delete;
  explicit basic_stream_socket(io_context&) { vp_sock(kConstruct, this, 0); }
  ~basic_stream_socket() { vp_sock(kDestroy, this, 0); }
  bool is_open() const { return vp_is_open(this); }
  std::error_code connect(const endpoint_type& ep, std::error_code& ec) {
    return ec = vpd::ec(vp_endpoint(kConnect, this, ep.address().is_v6(), ep.address().is_loopback(), ep.port()));
  }
  void connect(const endpoint_type& ep) { std::error_code ec; VP_VOID(connect(ep, ec)); }
  endpoint_type remote_endpoint(std::error_code& ec) const { ec = vpd::ec(vp_sock(kRemote, this, 0)); return endpoint_type(); }
  endpoint_type remote_endpoint() const { VP_VOID(vpd::ec(vp_sock(kRemote, this, 0))); return endpoint_type(); }
  std::error_code shutdown(shutdown_type t, std::error_code& ec) { return ec = vpd::ec(vp_sock(kShutdown, this, t)); }
  void shutdown(shutdown_type t) { std::error_code ec; VP_VOID(shutdown(t, ec)); }
  std::error_code close(std::error_code& ec) { return ec = vpd::ec(vp_sock(kClose, this, 0)); }
  void close() { std::error_code ec; VP_VOID(close(ec)); }
  std::error_code cancel(std::error_code& ec) { return ec = vpd::ec(vp_sock(kCancel, this, 0)); }
  void cancel() { std::error_code ec; VP_VOID(cancel(ec)); }
  long pad_[4];
};

template <typename Protocol, typename Executor = any_io_executor>
class basic_socket_acceptor : public socket_base {
 public:
  typedef Executor executor_type;
  typedef Protocol protocol_type;
  typedef typename Protocol::endpoint endpoint_type;
  basic_socket_acceptor(const basic_socket_acceptor&) = delete;
  basic_socket_acceptor& operator=(const basic_socket_acceptor&) = delete;
  explicit basic_socket_acceptor(io_context&) { vp_sock(kConstruct, this, 0); }
  ~basic_socket_acceptor() { vp_sock(kDestroy, this, 0); }
  bool is_open() const { return vp_is_open(this); }
  std::error_code open(const Protocol& p, std::error_code& ec) { return ec = vpd::ec(vp_sock(kOpen, this, p.family())); }
  void open(const Protocol& p = Protocol::v4()) { std::error_code ec; VP_VOID(open(p, ec)); }
  template <typename O>
  std::error_code set_option(const O&, std::error_code& ec) { return ec = vpd::ec(vp_sock(kOption, this, 0)); }
  template <typename O>
  void set_option(const O& o) { std::error_code ec; VP_VOID(set_option(o, ec)); }
  std::error_code bind(const endpoint_type& ep, std::error_code& ec) {
    return ec = vpd::ec(vp_endpoint(kBind, this, ep.address().is_v6(), ep.address().is_loopback(), ep.port()));
  }
  void bind(const endpoint_type& ep) { std::error_code ec; VP_VOID(bind(ep, ec)); }
  std::error_code listen(int n, std::error_code& ec) { return ec = vpd::ec(vp_sock(kListen, this, n)); }
  void listen(int n = socket_base::max_listen_connections) { std::error_code ec; VP_VOID(listen(n, ec)); }
  std::error_code close(std::error_code& ec) { return ec = vpd::ec(vp_sock(kClose, this, 0)); }
  void close() { std::error_code ec; VP_VOID(close(ec)); }
  std::error_code cancel(std::error_code& ec) { return ec = vpd::ec(vp_sock(kCancel, this, 0)); }
  void cancel() { std::error_code ec; VP_VOID(cancel(ec)); }
  endpoint_type local_endpoint() const { return endpoint_type(Protocol::v4(), vp_local_port(this)); }
  endpoint_type local_endpoint(std::error_code& ec) const { ec = std::error_code(); return endpoint_type(Protocol::v4(), vp_local_port(this)); }
  template <typename S, typename H>
  void async_accept(S& socket, H&& h) { vpd::op(kAccept, &socket, nullptr, std::forward<H>(h)); }
  long pad_[4];
};
}  // namespace asio

#include "asio/ip/tcp.hpp"
#include "asio/io_service.hpp"
#include "asio/strand.hpp"
#include "asio/dispatch.hpp"
#include "asio/post.hpp"
#include "asio/read.hpp"
#include "asio/wrap.hpp"
#include "asio/write.hpp"

namespace asio {
namespace vpd {
template <typename B>
void bufs(const B& b) {
  auto end = buffer_sequence_end(b);
  for (auto i = buffer_sequence_begin(b); i != end; ++i) {
    typename std::conditional<std::is_convertible<decltype(*i), mutable_buffer>::value, mutable_buffer, const_buffer>::type x(*i);
    vp_buf(x.data(), x.size());
  }
}
}
template <typename B, typename H>
void async_read(ip::tcp::socket& s, const B& b, H&& h) { vpd::bufs(b); vpd::op(kRead, &s, nullptr, std::forward<H>(h)); }
template <typename B, typename H>
void async_write(ip::tcp::socket& s, const B& b, H&& h) { vpd::bufs(b); vpd::op(kWrite, &s, nullptr, std::forward<H>(h)); }
template <typename H>
void post(io_context::strand& s, H&& h) { vpd::op(kPost, nullptr, s.impl_, std::forward<H>(h)); }
template <typename H>
void post(const io_context::executor_type&, H&& h) { vpd::op(kPost, nullptr, nullptr, std::forward<H>(h)); }
template <typename H>
void post(io_context&, H&& h) { vpd::op(kPost, nullptr, nullptr, std::forward<H>(h)); }
template <typename H>
void dispatch(io_context::strand& s, H&& h) { vpd::op(kDispatch, nullptr, s.impl_, std::forward<H>(h)); }
template <typename H>
void dispatch(const io_context::executor_type&, H&& h) { vpd::op(kDispatch, nullptr, nullptr, std::forward<H>(h)); }
}  // namespace asio

#include "maidsafe/common/tcp/connection.cc"
#include "maidsafe/common/tcp/listener.cc"

using namespace maidsafe;
using namespace maidsafe::tcp;
typedef asio::io_service::strand Strand;

extern "C" {
size_t t_strand_size() { return sizeof(Strand); }
void t_strand(void* p, asio::io_context* c) { new (p) Strand(*c); }
void t_fire(vp::HolderBase* h, int e, size_t n) {
  std::error_code ec(asio::vpd::ec(e));
  h->run(ec, n);
  delete h;
}
void t_make(ConnectionPtr* p, Strand& s) { new (p) ConnectionPtr(Connection::MakeShared(s)); }
void t_make_remote(ConnectionPtr* p, Strand& s, Port port) { new (p) ConnectionPtr(Connection::MakeShared(s, port)); }
void t_start(ConnectionPtr& c) {
  c->Start([](Message m) { vp_message(m.data(), m.size()); }, [] { vp_closed(); });
}
void t_send(ConnectionPtr& c, Message& m) { c->Send(m); }
void t_close(ConnectionPtr& c) { c->Close(); }
void t_drop(ConnectionPtr& c) { c.~ConnectionPtr(); }
void* t_socket(ConnectionPtr& c) { return &c->Socket(); }
void* t_connection(ConnectionPtr& c) { return c.get(); }
size_t t_max() { return Connection::MaxMessageSize(); }

void t_listen(ListenerPtr* p, Strand& s, Port port) {
  new (p) ListenerPtr(Listener::MakeShared(s, [](ConnectionPtr c) { vp_new_connection(&c->Socket()); }, port));
}
void t_stop(ListenerPtr& l) { l->StopListening(); }
Port t_port(ListenerPtr& l) { return l->ListeningPort(); }
void t_drop_listener(ListenerPtr& l) { l.~ListenerPtr(); }
}
