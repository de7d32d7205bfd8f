#include "replay.h"
#include <thread>
#include "maidsafe/common/error.h"
#include "maidsafe/common/error_categories.h"
using namespace maidsafe;
struct ArOut { int v; void operator()(const int& x) { v = x; } };
struct ArIn { int v; void operator()(int& x) { x = v; } };
static const std::error_category* cats[10];
static std::vector<std::map<int, int>> cond = {
  {{3, 22}, {4, 22}, {5, 22}, {6, 22}, {7, 22}, {9, 27}, {17, 1}, {19, 95}, {20, 5}, {24, 20}},
  {{6, 22}, {7, 22}, {8, 22}, {9, 22}, {12, 22}}, {}, {}, {{1, 110}}, {{2, 110}}, {{3, 13}, {5, 17}}, {{3, 95}, {4, 13}},
  {{1, 107}, {2, 111}, {4, 103}, {5, 90}, {6, 110}}, {}};
static const int last[10] = {28, 12, 1, 10, 4, 2, 6, 12, 9, 1};
static void from(int v) {
  rp::input("IntToError(" + std::to_string(v) + ")");
  int64_t n = -static_cast<int64_t>(v);
  bool ok = n >= 100000 && n < 1100000, got = true; std::error_code c, c2;
  try { c = IntToError(v).code(); ArIn a{v}; maidsafe_error e; e.load(a); c2 = e.code(); }
  catch (const maidsafe_error& e) { got = false; rp::check(e.code() == make_error_code(CommonErrors::parsing_error), "wrong error"); }
  rp::check(ok == got, got ? "accepted" : "rejected");
  if (ok) rp::check(c == c2 && &c.category() == cats[n / 100000 - 1] && c.value() == n % 100000, "gives " + std::string(c.category().name()) + " " + std::to_string(c.value()));
}
static void to(int k, int v) {
  rp::input(std::string("ErrorToInt(") + cats[k]->name() + " " + std::to_string(v) + ")");
  maidsafe_error e(v, *cats[k]); int r = ErrorToInt(e); ArOut a; e.save(a);
  rp::check(r == -100000 * (k + 1) - v && a.v == r, "gives " + std::to_string(r));
  rp::check(IntToError(r).code() == e.code(), "round trip");
}
static void cnd(int k, int v) {
  rp::input(std::string("default_error_condition(") + cats[k]->name() + " " + std::to_string(v) + ")");
  auto c = cats[k]->default_error_condition(v); auto i = cond[k].find(v);
  if (i == cond[k].end()) rp::check(c.category() == *cats[k] && c.value() == v, "is not its own condition");
  else rp::check(c.category() == std::generic_category() && c.value() == i->second, "is not the specified std::errc");
}
template <typename E, typename X> static void en(int k, int v) {
  rp::input(std::string("enumerator ") + std::to_string(v) + " of " + cats[k]->name());
  rp::check(MakeError(static_cast<E>(v)).code() == std::error_code(v, *cats[k]), "MakeError");
  rp::check(make_error_code(static_cast<E>(v)) == std::error_code(v, *cats[k]), "make_error_code");
  rp::check(make_error_condition(static_cast<E>(v)) == std::error_condition(v, *cats[k]), "make_error_condition");
}
struct Foreign : std::error_category { const char* name() const noexcept override { return "f"; } std::string message(int) const override { return "f"; } };
static void named(const char* n, int got, int want) { rp::input(std::string("ErrorToInt(MakeError(") + n + "))"); rp::check(got == want, "is " + std::to_string(got) + ", not " + std::to_string(want)); }
static void all_named() {
  named("Common::success", ErrorToInt(MakeError(CommonErrors::success)), -100000);
  named("Common::pending_result", ErrorToInt(MakeError(CommonErrors::pending_result)), -100001);
  named("Common::unknown", ErrorToInt(MakeError(CommonErrors::unknown)), -100002);
  named("Common::null_pointer", ErrorToInt(MakeError(CommonErrors::null_pointer)), -100003);
  named("Common::invalid_identity", ErrorToInt(MakeError(CommonErrors::invalid_identity)), -100004);
  named("Common::invalid_key_size", ErrorToInt(MakeError(CommonErrors::invalid_key_size)), -100005);
  named("Common::outside_of_bounds", ErrorToInt(MakeError(CommonErrors::outside_of_bounds)), -100006);
  named("Common::invalid_argument", ErrorToInt(MakeError(CommonErrors::invalid_argument)), -100007);
  named("Common::invalid_conversion", ErrorToInt(MakeError(CommonErrors::invalid_conversion)), -100008);
  named("Common::file_too_large", ErrorToInt(MakeError(CommonErrors::file_too_large)), -100009);
  named("Common::uninitialised", ErrorToInt(MakeError(CommonErrors::uninitialised)), -100010);
  named("Common::already_initialised", ErrorToInt(MakeError(CommonErrors::already_initialised)), -100011);
  named("Common::hashing_error", ErrorToInt(MakeError(CommonErrors::hashing_error)), -100012);
  named("Common::symmetric_encryption_error", ErrorToInt(MakeError(CommonErrors::symmetric_encryption_error)), -100013);
  named("Common::symmetric_decryption_error", ErrorToInt(MakeError(CommonErrors::symmetric_decryption_error)), -100014);
  named("Common::compression_error", ErrorToInt(MakeError(CommonErrors::compression_error)), -100015);
  named("Common::uncompression_error", ErrorToInt(MakeError(CommonErrors::uncompression_error)), -100016);
  named("Common::cannot_invoke_from_this_thread", ErrorToInt(MakeError(CommonErrors::cannot_invoke_from_this_thread)), -100017);
  named("Common::cannot_exceed_limit", ErrorToInt(MakeError(CommonErrors::cannot_exceed_limit)), -100018);
  named("Common::unable_to_handle_request", ErrorToInt(MakeError(CommonErrors::unable_to_handle_request)), -100019);
  named("Common::filesystem_io_error", ErrorToInt(MakeError(CommonErrors::filesystem_io_error)), -100020);
  named("Common::no_such_element", ErrorToInt(MakeError(CommonErrors::no_such_element)), -100021);
  named("Common::serialisation_error", ErrorToInt(MakeError(CommonErrors::serialisation_error)), -100022);
  named("Common::parsing_error", ErrorToInt(MakeError(CommonErrors::parsing_error)), -100023);
  named("Common::not_a_directory", ErrorToInt(MakeError(CommonErrors::not_a_directory)), -100024);
  named("Common::db_busy", ErrorToInt(MakeError(CommonErrors::db_busy)), -100025);
  named("Common::db_not_present", ErrorToInt(MakeError(CommonErrors::db_not_present)), -100026);
  named("Common::db_error", ErrorToInt(MakeError(CommonErrors::db_error)), -100027);
  named("Common::defaulted", ErrorToInt(MakeError(CommonErrors::defaulted)), -100028);
  named("Asymm::keys_generation_error", ErrorToInt(MakeError(AsymmErrors::keys_generation_error)), -200001);
  named("Asymm::keys_serialisation_error", ErrorToInt(MakeError(AsymmErrors::keys_serialisation_error)), -200002);
  named("Asymm::keys_parse_error", ErrorToInt(MakeError(AsymmErrors::keys_parse_error)), -200003);
  named("Asymm::invalid_private_key", ErrorToInt(MakeError(AsymmErrors::invalid_private_key)), -200004);
  named("Asymm::invalid_public_key", ErrorToInt(MakeError(AsymmErrors::invalid_public_key)), -200005);
  named("Asymm::data_empty", ErrorToInt(MakeError(AsymmErrors::data_empty)), -200006);
  named("Asymm::invalid_file", ErrorToInt(MakeError(AsymmErrors::invalid_file)), -200007);
  named("Asymm::invalid_signature", ErrorToInt(MakeError(AsymmErrors::invalid_signature)), -200008);
  named("Asymm::signature_empty", ErrorToInt(MakeError(AsymmErrors::signature_empty)), -200009);
  named("Asymm::encryption_error", ErrorToInt(MakeError(AsymmErrors::encryption_error)), -200010);
  named("Asymm::decryption_error", ErrorToInt(MakeError(AsymmErrors::decryption_error)), -200011);
  named("Asymm::signing_error", ErrorToInt(MakeError(AsymmErrors::signing_error)), -200012);
  named("Passport::id_already_exists", ErrorToInt(MakeError(PassportErrors::id_already_exists)), -300001);
  named("Encrypt::bad_sequence", ErrorToInt(MakeError(EncryptErrors::bad_sequence)), -400001);
  named("Encrypt::no_data", ErrorToInt(MakeError(EncryptErrors::no_data)), -400002);
  named("Encrypt::invalid_encryption_version", ErrorToInt(MakeError(EncryptErrors::invalid_encryption_version)), -400003);
  named("Encrypt::failed_to_write", ErrorToInt(MakeError(EncryptErrors::failed_to_write)), -400004);
  named("Encrypt::failed_to_prepare_for_write", ErrorToInt(MakeError(EncryptErrors::failed_to_prepare_for_write)), -400005);
  named("Encrypt::failed_to_get_chunk", ErrorToInt(MakeError(EncryptErrors::failed_to_get_chunk)), -400006);
  named("Encrypt::failed_to_flush", ErrorToInt(MakeError(EncryptErrors::failed_to_flush)), -400007);
  named("Encrypt::failed_to_decrypt", ErrorToInt(MakeError(EncryptErrors::failed_to_decrypt)), -400008);
  named("Encrypt::failed_to_read", ErrorToInt(MakeError(EncryptErrors::failed_to_read)), -400009);
  named("Encrypt::encryptor_closed", ErrorToInt(MakeError(EncryptErrors::encryptor_closed)), -400010);
  named("Routing::timed_out", ErrorToInt(MakeError(RoutingErrors::timed_out)), -500001);
  named("Routing::timer_cancelled", ErrorToInt(MakeError(RoutingErrors::timer_cancelled)), -500002);
  named("Routing::not_in_range", ErrorToInt(MakeError(RoutingErrors::not_in_range)), -500003);
  named("Routing::not_connected", ErrorToInt(MakeError(RoutingErrors::not_connected)), -500004);
  named("Nfs::failed_to_get_data", ErrorToInt(MakeError(NfsErrors::failed_to_get_data)), -600001);
  named("Nfs::timed_out", ErrorToInt(MakeError(NfsErrors::timed_out)), -600002);
  named("Drive::no_drive_letter_available", ErrorToInt(MakeError(DriveErrors::no_drive_letter_available)), -700001);
  named("Drive::failed_to_mount", ErrorToInt(MakeError(DriveErrors::failed_to_mount)), -700002);
  named("Drive::permission_denied", ErrorToInt(MakeError(DriveErrors::permission_denied)), -700003);
  named("Drive::no_such_file", ErrorToInt(MakeError(DriveErrors::no_such_file)), -700004);
  named("Drive::file_exists", ErrorToInt(MakeError(DriveErrors::file_exists)), -700005);
  named("Drive::driver_not_installed", ErrorToInt(MakeError(DriveErrors::driver_not_installed)), -700006);
  named("Vault::failed_to_join_network", ErrorToInt(MakeError(VaultErrors::failed_to_join_network)), -800001);
  named("Vault::failed_to_handle_request", ErrorToInt(MakeError(VaultErrors::failed_to_handle_request)), -800002);
  named("Vault::operation_not_supported", ErrorToInt(MakeError(VaultErrors::operation_not_supported)), -800003);
  named("Vault::permission_denied", ErrorToInt(MakeError(VaultErrors::permission_denied)), -800004);
  named("Vault::no_such_account", ErrorToInt(MakeError(VaultErrors::no_such_account)), -800005);
  named("Vault::low_space", ErrorToInt(MakeError(VaultErrors::low_space)), -800006);
  named("Vault::not_enough_space", ErrorToInt(MakeError(VaultErrors::not_enough_space)), -800007);
  named("Vault::unique_data_clash", ErrorToInt(MakeError(VaultErrors::unique_data_clash)), -800008);
  named("Vault::data_available_not_given", ErrorToInt(MakeError(VaultErrors::data_available_not_given)), -800009);
  named("Vault::account_already_exists", ErrorToInt(MakeError(VaultErrors::account_already_exists)), -800010);
  named("Vault::data_already_exists", ErrorToInt(MakeError(VaultErrors::data_already_exists)), -800011);
  named("Vault::too_few_entries_to_resolve", ErrorToInt(MakeError(VaultErrors::too_few_entries_to_resolve)), -800012);
  named("VaultManager::connection_not_found", ErrorToInt(MakeError(VaultManagerErrors::connection_not_found)), -900001);
  named("VaultManager::failed_to_connect", ErrorToInt(MakeError(VaultManagerErrors::failed_to_connect)), -900002);
  named("VaultManager::failed_to_listen", ErrorToInt(MakeError(VaultManagerErrors::failed_to_listen)), -900003);
  named("VaultManager::connection_aborted", ErrorToInt(MakeError(VaultManagerErrors::connection_aborted)), -900004);
  named("VaultManager::ipc_message_too_large", ErrorToInt(MakeError(VaultManagerErrors::ipc_message_too_large)), -900005);
  named("VaultManager::timed_out", ErrorToInt(MakeError(VaultManagerErrors::timed_out)), -900006);
  named("VaultManager::unvalidated_client", ErrorToInt(MakeError(VaultManagerErrors::unvalidated_client)), -900007);
  named("VaultManager::vault_exited_with_error", ErrorToInt(MakeError(VaultManagerErrors::vault_exited_with_error)), -900008);
  named("VaultManager::vault_terminated", ErrorToInt(MakeError(VaultManagerErrors::vault_terminated)), -900009);
  named("Api::kPasswordFailure", ErrorToInt(MakeError(ApiErrors::kPasswordFailure)), -1000001);
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  all_named();
  cats[0] = &GetCommonCategory();
  cats[1] = &GetAsymmCategory();
  cats[2] = &GetPassportCategory();
  cats[3] = &GetEncryptCategory();
  cats[4] = &GetRoutingCategory();
  cats[5] = &GetNfsCategory();
  cats[6] = &GetDriveCategory();
  cats[7] = &GetVaultCategory();
  cats[8] = &GetVaultManagerCategory();
  cats[9] = &GetApiCategory();
  rp::input("the categories as seen by another thread");
  bool same = true;
  std::thread t([&] { same = cats[0] == &GetCommonCategory() && cats[1] == &GetAsymmCategory() && cats[2] == &GetPassportCategory() && cats[3] == &GetEncryptCategory() &&
    cats[4] == &GetRoutingCategory() && cats[5] == &GetNfsCategory() && cats[6] == &GetDriveCategory() && cats[7] == &GetVaultCategory() && cats[8] == &GetVaultManagerCategory() && cats[9] == &GetApiCategory(); });
  t.join();
  rp::check(same, "are other objects");
  for (int i = 0; i < 10; ++i) for (int j = 0; j < i; ++j) { rp::input("categories " + std::to_string(i) + ", " + std::to_string(j)); rp::check(*cats[i] != *cats[j], "are the same"); }
  Foreign f; rp::input("ErrorToInt of a foreign category");
  try { ErrorToInt(maidsafe_error(1, f)); rp::fail("accepted"); } catch (const maidsafe_error& e) { rp::check(e.code() == make_error_code(CommonErrors::serialisation_error), "wrong error"); }
  for (auto& p : c.nums) { from(p.second); from(-static_cast<int64_t>(p.second)); for (int k = 0; k < 10; ++k) { if (p.second < 100000) to(k, p.second); cnd(k, p.second); } }
  for (int k = 0; k < 10; ++k) {
    std::map<std::string, int> seen; rp::input(std::string("messages of ") + cats[k]->name());
    for (int v = k ? 1 : 0; v <= last[k]; ++v) { std::string s = cats[k]->message(v); rp::check(!s.empty(), "empty"); rp::check(!seen.count(s), "same message for " + std::to_string(v)); seen[s] = v; }
    for (int v : {-1, last[k] + 1, 1 << 30}) { std::string s = cats[k]->message(v); rp::check(!s.empty() && (!seen.count(s) || (k == 0 && seen[s] == 2)), "message of a value outside the enumeration"); }
    for (int v = 0; v < 1000; ++v) { to(k, v); to(k, 99999 - v); cnd(k, v); cnd(k, -v); }
  }
  for (int v = 0; v < 64; ++v) en<CommonErrors, common_error>(0, v);
  for (int v = 0; v < 64; ++v) en<AsymmErrors, asymm_error>(1, v);
  for (int v = 0; v < 64; ++v) en<PassportErrors, passport_error>(2, v);
  for (int v = 0; v < 64; ++v) en<EncryptErrors, encrypt_error>(3, v);
  for (int v = 0; v < 64; ++v) en<RoutingErrors, routing_error>(4, v);
  for (int v = 0; v < 64; ++v) en<NfsErrors, nfs_error>(5, v);
  for (int v = 0; v < 64; ++v) en<DriveErrors, drive_error>(6, v);
  for (int v = 0; v < 64; ++v) en<VaultErrors, vault_error>(7, v);
  for (int v = 0; v < 64; ++v) en<VaultManagerErrors, vault_manager_error>(8, v);
  for (int v = 0; v < 64; ++v) en<ApiErrors, api_error>(9, v);
  for (int k = -2; k < 14; ++k) for (int d = -3; d < 40; ++d) { from(-100000 * k - d); from(100000 * k + d); }
  for (int v : {INT32_MIN, INT32_MIN + 1, INT32_MAX, 0, 1, -1}) from(v);
  while (clock.more()) for (int i = 0; i < 1000; ++i) { from(static_cast<int>(rp::num())); from(-static_cast<int>(rp::R(1200000))); to(rp::R(10), rp::R(100000)); cnd(rp::R(10), rp::num()); }
}
