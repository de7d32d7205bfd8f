#include "replay.h"
#include <ctime>
#include <cstring>
#include <deque>
#include "maidsafe/common/error.h"
#include "h_sqlite.cc"
extern "C" {
#include <sqlite3.h>
}
namespace maidsafe { uint32_t RandomUint32() { return static_cast<uint32_t>(rp::rng()()); } }
struct sqlite3 { int x; };
struct sqlite3_stmt { int x; };
namespace {
using rp::check;
// what the fake sqlite3 is to answer, and what it saw
struct World {
  std::deque<int> exec, rcs;
  int open_rc = 0; bool open_handle = true;
  int handles = 0, stmts = 0, messages = 0, opens = 0;
  std::vector<std::string> sql;
  std::vector<long> pauses;             // ms, between one exec and the next
  long slept = 0;
  int timeout = -1, limit_id = -1, limit_val = 0, limit = 999, flags = -1, checkpoints = 0;
  std::string name, bound, query; bool null = false; char kind = 0; int index = 0, binds = 0, steps = 0, resets = 0, nbytes = 0;
  bool transient = false;
  std::string value; bool value_null = false; char read = 0; int column = 0;
  sqlite3* db = nullptr; bool msg_null = false;
} w;
std::string norm(const char* s) {
  std::string o; bool sp = false;
  for (; *s; ++s) { if (*s == ' ' || *s == ';') sp = true; else { if (sp && !o.empty()) o += ' '; sp = false; o += static_cast<char>(toupper(*s)); } }
  size_t p = o.find(" TRANSACTION"); if (p != std::string::npos) o.erase(p);
  p = 0; while ((p = o.find('=', p)) != std::string::npos) { if (p && o[p - 1] != ' ') o.insert(p++, " "); if (o[p + 1] != ' ') o.insert(p + 1, " "); ++p; }
  return o;
}
int rc() { if (w.rcs.empty()) return 0; int r = w.rcs.front(); w.rcs.pop_front(); return r; }
}
extern "C" {
int nanosleep(const timespec* t, timespec*) { w.slept += t->tv_sec * 1000 + t->tv_nsec / 1000000; return 0; }
int clock_nanosleep(clockid_t, int, const timespec* t, timespec*) { w.slept += t->tv_sec * 1000 + t->tv_nsec / 1000000; return 0; }
int sqlite3_open_v2(const char* n, sqlite3** db, int flags, const char*) {
  ++w.opens; w.name = n; w.flags = flags;
  *db = w.open_rc == 0 || w.open_handle ? new sqlite3() : nullptr; if (*db) ++w.handles; w.db = *db; return w.open_rc;
}
int sqlite3_close(sqlite3* d) { if (d) { check(d == w.db, "closes another handle"); --w.handles; delete d; w.db = nullptr; } return rc(); }
int sqlite3_close_v2(sqlite3* d) { return sqlite3_close(d); }
const char* sqlite3_errmsg(sqlite3*) { return "message"; }
const char* sqlite3_errstr(int) { return "message"; }
int sqlite3_threadsafe() { return 1; }
int sqlite3_exec(sqlite3* d, const char* q, int (*cb)(void*, int, char**, char**), void*, char** err) {
  check(d == w.db && d, "exec on a handle which is not that of the database"); check(!cb, "a callback");
  w.sql.push_back(norm(q)); w.pauses.push_back(w.slept); w.slept = 0;
  int r = 0; if (!w.exec.empty()) { r = w.exec.front(); w.exec.pop_front(); }
  if (err) { *err = nullptr; if (r && !w.msg_null) { *err = static_cast<char*>(malloc(8)); strcpy(*err, "failed"); ++w.messages; } }
  return r;
}
void sqlite3_free(void* p) { if (p) { --w.messages; free(p); } }
int sqlite3_busy_timeout(sqlite3* d, int ms) { check(d == w.db, "busy_timeout on another handle"); w.timeout = ms; return rc(); }
int sqlite3_limit(sqlite3* d, int id, int v) { check(d == w.db, "limit of another handle"); w.limit_id = id; w.limit_val = v; return w.limit; }
int sqlite3_wal_checkpoint(sqlite3* d, const char* n) { check(d == w.db && !n, "checkpoint of something else"); ++w.checkpoints; return rc(); }
int sqlite3_prepare_v2(sqlite3* d, const char* q, int n, sqlite3_stmt** s, const char**) {
  check(d == w.db && d, "prepare on another handle");
  w.query = n < 0 ? std::string(q) : std::string(q, strnlen(q, static_cast<size_t>(n))); w.nbytes = n;
  int r = rc(); *s = r ? nullptr : new sqlite3_stmt(); if (*s) ++w.stmts; return r;
}
int sqlite3_finalize(sqlite3_stmt* s) { if (s) { --w.stmts; delete s; } return rc(); }
static int bind(char k, sqlite3_stmt* s, int i, const void* p, int n, void (*d)(void*)) {
  check(s, "no statement"); w.kind = k; w.index = i; w.null = !p; ++w.binds; w.transient = d == reinterpret_cast<void (*)(void*)>(-1);
  check(n >= 0, "a negative length"); w.bound = p ? std::string(static_cast<const char*>(p), static_cast<size_t>(n)) : ""; return rc();
}
int sqlite3_bind_text(sqlite3_stmt* s, int i, const char* p, int n, void (*d)(void*)) { return bind('t', s, i, p, n < 0 ? static_cast<int>(strlen(p)) : n, d); }
int sqlite3_bind_blob(sqlite3_stmt* s, int i, const void* p, int n, void (*d)(void*)) { return bind('b', s, i, p, n, d); }
int sqlite3_bind_zeroblob(sqlite3_stmt* s, int i, int n) { std::string z(static_cast<size_t>(n), 0); return bind('b', s, i, z.data(), n, reinterpret_cast<void (*)(void*)>(-1)); }
int sqlite3_step(sqlite3_stmt* s) { check(s, "no statement"); ++w.steps; return rc(); }
int sqlite3_reset(sqlite3_stmt* s) { check(s, "no statement"); ++w.resets; return rc(); }
const unsigned char* sqlite3_column_text(sqlite3_stmt* s, int i) { check(s, "no statement"); w.read = 't'; w.column = i; return w.value_null ? nullptr : reinterpret_cast<const unsigned char*>(w.value.c_str()); }
const void* sqlite3_column_blob(sqlite3_stmt* s, int i) { check(s, "no statement"); w.read = 'b'; w.column = i; return w.value.empty() || w.value_null ? nullptr : w.value.data(); }
int sqlite3_column_bytes(sqlite3_stmt*, int i) { check(w.read && i == w.column, "the size of a column not yet read"); return w.value_null ? 0 : static_cast<int>(w.value.size()); }
}
namespace {
template <typename F> std::string err(F f) {
  using maidsafe::CommonErrors;
  try { f(); } catch (const maidsafe::maidsafe_error& e) {
    if (e.code() == maidsafe::make_error_code(CommonErrors::db_not_present)) return "db_not_present";
    if (e.code() == maidsafe::make_error_code(CommonErrors::db_error)) return "db_error";
    if (e.code() == maidsafe::make_error_code(CommonErrors::db_busy)) return "db_busy";
    if (e.code() == maidsafe::make_error_code(CommonErrors::unable_to_handle_request)) return "unable_to_handle_request";
    return "another maidsafe_error"; }
  catch (const std::exception& e) { return std::string("exception ") + e.what(); }
  return "";
}
struct Mem {          // memory which held something else before
  alignas(16) unsigned char b[256];
  Mem() { memset(b, static_cast<int>(rp::R(2) ? 0xff : rp::R(256)), sizeof b); }
};
int fail_rc(bool notadb) { static const int k[] = {1, 5, 6, 7, 10, 11, 13, 14, 21, 517, 266}; return notadb && rp::R(4) == 0 ? 26 : k[rp::R(11)]; }
std::string str(const std::vector<std::string>& v) { std::string o; for (auto& s : v) o += s + "; "; return o; }
void database() {
  w = World(); Mem m;
  static const int modes[] = {1, 2, 6};
  int mode = modes[rp::R(3)]; std::string name = rp::pick(rp::R(20), "abc/._ xyz");
  w.open_rc = rp::R(3) ? 0 : fail_rc(true); w.open_handle = rp::R(3) != 0; w.msg_null = rp::R(3) == 0; w.limit = static_cast<int>(rp::R(100000));
  for (int i = 0; i < 3; ++i) w.exec.push_back(rp::R(3) ? 0 : fail_rc(true));
  rp::input("open '" + name + "' mode " + std::to_string(mode) + ", sqlite3_open_v2 returns " + std::to_string(w.open_rc) + (w.open_handle ? " and a handle" : ""));
  int orc = w.open_rc;
  std::string e = err([&] { q_db(m.b, name, mode); });
  check(e == (orc ? "db_not_present" : ""), "the constructor throws '" + e + "'");
  check(w.opens == 1 && w.name == name && w.flags == mode, "opens '" + w.name + "' with flags " + std::to_string(w.flags));
  check(w.messages == 0, "an error message is leaked");
  if (orc) { check(w.handles == 0, "the handle of a failed open is not closed"); return; }
  auto s = w.sql; std::sort(s.begin(), s.end());
  check(s == std::vector<std::string>({"PRAGMA JOURNAL_MODE = WAL", "PRAGMA SYNCHRONOUS = OFF", "PRAGMA WAL_AUTOCHECKPOINT = 0"}), "executes " + str(w.sql));
  check(w.timeout == 250, "busy timeout " + std::to_string(w.timeout));
  auto& d = *reinterpret_cast<q::Database*>(m.b);
  check(q_limit(d) == w.limit && w.limit_id == SQLITE_LIMIT_VARIABLE_NUMBER && w.limit_val < 0, "InsertLimit");
  w.rcs.push_back(rp::R(2) ? 0 : fail_rc(true));
  check(err([&] { q_checkpoint(d); }) == "" && w.checkpoints == 1, "CheckPoint");
  w.rcs.assign(1, rp::R(2) ? 0 : fail_rc(true)); size_t n = w.sql.size();
  q_db_end(d);
  check(w.handles == 0, "the handle is not closed"); check(w.sql.size() == n, "the destructor executes something");
}
// runs a series of attempts; script: the results
std::string series(const char* what, const char* sql, const std::vector<int>& script, const std::function<void()>& f, bool notadb) {
  w.exec.assign(script.begin(), script.end()); w.sql.clear(); w.pauses.clear(); w.slept = 0;
  std::string in = std::string(what) + " with sqlite3_exec returning";
  for (size_t i = 0; i < script.size() && i < 12; ++i) in += " " + std::to_string(script[i]);
  rp::input(in + " (" + std::to_string(script.size()) + " results)");
  std::string want = "unable_to_handle_request"; size_t n = 200;
  for (size_t i = 0; i < script.size() && i < 200; ++i) {
    if (script[i] == 0) { want = ""; n = i + 1; break; }
    if (notadb && script[i] == 26) { want = "db_not_present"; n = i + 1; break; }
  }
  std::string e = err(f);
  check(e == want, "throws '" + e + "' rather than '" + want + "'");
  check(w.sql.size() == n, std::to_string(w.sql.size()) + " attempts rather than " + std::to_string(n));
  for (auto& s : w.sql) check(s == sql, "executes " + s);
  for (size_t i = 1; i < w.pauses.size(); ++i) check(w.pauses[i] >= 10, "no pause between two attempts");
  check(w.messages == 0, "an error message is leaked");
  return e;
}
std::vector<int> script(bool notadb) {
  static const size_t k[] = {0, 0, 0, 1, 2, 5, 50, 198, 199, 200, 201};
  std::vector<int> v(k[rp::R(11)]);
  bool many = rp::R(2);
  for (auto& r : v) r = fail_rc(notadb && many);
  if (notadb && !v.empty() && rp::R(5) == 0) v[rp::R(v.size())] = 26;
  v.push_back(0); return v;
}
void transaction() {
  w = World(); Mem m, t; w.msg_null = rp::R(3) == 0;
  rp::input("open"); q_db(m.b, "db", 6);
  auto& d = *reinterpret_cast<q::Database*>(m.b);
  if (series("begin", "BEGIN IMMEDIATE", script(true), [&] { q_tr(t.b, d); }, true).empty()) {
    auto& tr = *reinterpret_cast<q::Transaction*>(t.b);
    bool committed = false;
    for (uint64_t i = rp::R(3); i && !committed; --i) {
      auto s = script(false);
      if (rp::R(3) == 0 && s.size() > 1) s[0] = 26;
      committed = series("commit", "COMMIT", s, [&] { q_commit(tr); }, false).empty();
    }
    w.sql.clear(); w.exec.assign(1, rp::R(2) ? 0 : fail_rc(true));
    rp::input(std::string("end of a transaction which was ") + (committed ? "" : "not ") + "committed; ROLLBACK returns " + std::to_string(w.exec[0]));
    check(err([&] { q_tr_end(tr); }) == "", "the destructor throws");
    check(w.sql == (committed ? std::vector<std::string>() : std::vector<std::string>(1, "ROLLBACK")), "the destructor executes " + str(w.sql));
    check(w.messages == 0, "an error message is leaked");
  }
  q_db_end(d);
}
void statement() {
  w = World(); Mem m, t;
  rp::input("open"); q_db(m.b, "db", 6);
  auto& d = *reinterpret_cast<q::Database*>(m.b);
  std::string query = rp::pick(rp::R(60), "abcSELECT *?=.,");
  int r = rp::R(4) ? 0 : fail_rc(true);
  w.rcs.assign(1, r);
  rp::input("prepare '" + query + "' returning " + std::to_string(r));
  std::string e = err([&] { q_st(t.b, d, query); });
  check(e == (r == 0 ? "" : r == 26 ? "db_not_present" : "db_error"), "the constructor throws '" + e + "'");
  check(w.query == query, "prepares '" + w.query + "'"); check(w.nbytes < 0 || static_cast<size_t>(w.nbytes) >= query.size(), "the length of the query");
  if (r == 0) {
    auto& s = *reinterpret_cast<q::Statement*>(t.b);
    for (int i = 0; i < 8; ++i) {
      int x = rp::R(3) ? 0 : fail_rc(true), index = static_cast<int>(rp::R(20)); w.rcs.assign(1, x);
      std::string v = rp::rnd(rp::len(300)); if (rp::R(3) == 0) v.assign(rp::R(3), 0);
      if (rp::R(6) == 0) v.assign(rp::pick(1, "x") + std::string(1, 0) + "y");
      w.binds = w.steps = w.resets = 0; w.read = 0; w.value = v; w.value_null = v.empty() && rp::R(2); w.column = -1;
      std::string what = ", value " + rp::show(v) + ", index " + std::to_string(index) + ", sqlite3 returns " + std::to_string(x);
      switch (rp::R(6)) {
        case 0: case 1: {
          bool text = rp::R(2); rp::input((text ? "BindText" : "BindBlob") + what);
          e = err([&] { if (text) q_text(s, index, v); else q_blob(s, index, std::vector<unsigned char>(v.begin(), v.end())); });
          check(e == (x ? "db_error" : ""), "throws '" + e + "'");
          check(w.binds == 1 && w.kind == (text ? 't' : 'b') && w.index == index, "binds something else");
          check(!w.null, "binds NULL"); check(w.bound == v, "binds " + rp::show(w.bound)); check(w.transient, "sqlite3 is not told to copy the value");
          break; }
        case 2: {
          if (!x) x = rp::R(2) ? 100 : 101; if (rp::R(8) == 0) x = 0; w.rcs.assign(1, x);
          rp::input("Step, sqlite3_step returns " + std::to_string(x)); int got = 0;
          e = err([&] { got = q_step(s); });
          check(e == (x == 100 || x == 101 ? "" : "db_error"), "throws '" + e + "'"); check(!e.empty() || got == x, "the result"); check(w.steps == 1, "not one step");
          break; }
        case 3: rp::input("Reset" + what); e = err([&] { q_reset(s); }); check(e == (x ? "db_error" : ""), "throws '" + e + "'"); check(w.resets == 1, "not one reset"); break;
        case 4: { w.rcs.clear(); rp::input("ColumnText" + what); std::string g; e = err([&] { std::string* p = reinterpret_cast<std::string*>(malloc(sizeof g)); q_ctext(p, s, index); g = *p; p->~basic_string(); free(p); });
          check(e == "", "throws '" + e + "'"); check(g == v, "returns " + rp::show(g)); check(w.column == index && w.read == 't', "reads something else"); break; }
        default: { w.rcs.clear(); rp::input("ColumnBlob" + what); typedef std::vector<unsigned char> V; V g; e = err([&] { V* p = reinterpret_cast<V*>(malloc(sizeof g)); q_cblob(p, s, index); g = *p; p->~V(); free(p); });
          check(e == "", "throws '" + e + "'"); check(std::string(g.begin(), g.end()) == v, "returns " + rp::show(std::string(g.begin(), g.end()))); check(w.column == index && w.read == 'b', "reads something else"); }
      }
    }
    w.rcs.assign(1, rp::R(2) ? 0 : fail_rc(true)); rp::input("end of the statement"); check(err([&] { q_st_end(s); }) == "", "the destructor throws");
  }
  check(w.stmts == 0, "the statement is not finalised");
  w.rcs.clear(); q_db_end(d);
}
}
void vp_replay(const rp::Cands&, rp::Clock clk) {
  while (clk.more()) { database(); transaction(); statement(); }
}
