#include <new>
#include <string>
#include <vector>
#include "maidsafe/common/error.h"
#include "maidsafe/common/sqlite3_wrapper.h"
namespace q = maidsafe::sqlite;
static_assert(sizeof(boost::filesystem::path) == sizeof(std::string), "a path is its string");
extern "C" {
unsigned long q_size(int i) { return i == 0 ? sizeof(q::Database) : i == 1 ? sizeof(q::Transaction) : sizeof(q::Statement); }
unsigned long q_align(int i) { return i == 0 ? alignof(q::Database) : i == 1 ? alignof(q::Transaction) : alignof(q::Statement); }
int q_mode(int i) { return static_cast<int>(i == 0 ? q::Mode::kReadOnly : i == 1 ? q::Mode::kReadWrite : q::Mode::kReadWriteCreate); }
int q_result(int i) { return static_cast<int>(i == 0 ? q::StepResult::kSqliteRow : q::StepResult::kSqliteDone); }
void q_db(void* p, const std::string& name, int mode) {
  new (p) q::Database(reinterpret_cast<const boost::filesystem::path&>(name), static_cast<q::Mode>(mode));
}
void q_db_end(q::Database& d) { d.~Database(); }
void q_checkpoint(q::Database& d) { d.CheckPoint(); }
int q_limit(q::Database& d) { return d.InsertLimit(); }
void q_tr(void* p, q::Database& d) { new (p) q::Transaction(d); }
void q_tr_end(q::Transaction& t) { t.~Transaction(); }
void q_commit(q::Transaction& t) { t.Commit(); }
void q_st(void* p, q::Database& d, const std::string& query) { new (p) q::Statement(d, query); }
void q_st_end(q::Statement& s) { s.~Statement(); }
void q_text(q::Statement& s, int i, const std::string& t) { s.BindText(i, t); }
void q_blob(q::Statement& s, int i, const std::vector<unsigned char>& t) { s.BindBlob(i, t); }
int q_step(q::Statement& s) { return static_cast<int>(s.Step()); }
void q_reset(q::Statement& s) { s.Reset(); }
void q_ctext(std::string* p, q::Statement& s, int i) { new (p) std::string(s.ColumnText(i)); }
void q_cblob(std::vector<unsigned char>* p, q::Statement& s, int i) { new (p) std::vector<unsigned char>(s.ColumnBlob(i)); }
}
