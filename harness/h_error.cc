#include <string>
#include "maidsafe/common/error.h"
#include "maidsafe/common/error_categories.h"
using namespace maidsafe;
struct ArOut { int* p; void operator()(const int& v) { *p = v; } };
struct ArIn { int v; void operator()(int& t) { t = v; } };
struct Foreign : std::error_category {
  const char* name() const noexcept override { return "f"; }
  std::string message(int) const override { return "f"; }
};
static Foreign foreign;
extern "C" {
void err_from_int(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(v)); *ev = e.code().value(); *cat = &e.code().category(); }
void err_load(int v, int* ev, const std::error_category** cat) { maidsafe_error e(7, foreign); ArIn a{v}; e.load(a); *ev = e.code().value(); *cat = &e.code().category(); }
int err_foreign(int ev) { return ErrorToInt(maidsafe_error(ev, foreign)); }
const std::error_category* Common_cat() { return &GetCommonCategory(); }
int Common_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetCommonCategory())); }
int Common_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetCommonCategory()); e.save(a); return r; }
void Common_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetCommonCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Common_make(CommonErrors c, int* ev, const std::error_category** cat) { common_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Common_code(CommonErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Common_cond(CommonErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Common_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetCommonCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Common_msg(std::string& s, int v) { s = GetCommonCategory().message(v); }
void Common_name(std::string& s) { s = GetCommonCategory().name(); }
const std::error_category* Asymm_cat() { return &GetAsymmCategory(); }
int Asymm_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetAsymmCategory())); }
int Asymm_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetAsymmCategory()); e.save(a); return r; }
void Asymm_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetAsymmCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Asymm_make(AsymmErrors c, int* ev, const std::error_category** cat) { asymm_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Asymm_code(AsymmErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Asymm_cond(AsymmErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Asymm_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetAsymmCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Asymm_msg(std::string& s, int v) { s = GetAsymmCategory().message(v); }
void Asymm_name(std::string& s) { s = GetAsymmCategory().name(); }
const std::error_category* Passport_cat() { return &GetPassportCategory(); }
int Passport_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetPassportCategory())); }
int Passport_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetPassportCategory()); e.save(a); return r; }
void Passport_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetPassportCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Passport_make(PassportErrors c, int* ev, const std::error_category** cat) { passport_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Passport_code(PassportErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Passport_cond(PassportErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Passport_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetPassportCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Passport_msg(std::string& s, int v) { s = GetPassportCategory().message(v); }
void Passport_name(std::string& s) { s = GetPassportCategory().name(); }
const std::error_category* Encrypt_cat() { return &GetEncryptCategory(); }
int Encrypt_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetEncryptCategory())); }
int Encrypt_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetEncryptCategory()); e.save(a); return r; }
void Encrypt_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetEncryptCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Encrypt_make(EncryptErrors c, int* ev, const std::error_category** cat) { encrypt_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Encrypt_code(EncryptErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Encrypt_cond(EncryptErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Encrypt_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetEncryptCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Encrypt_msg(std::string& s, int v) { s = GetEncryptCategory().message(v); }
void Encrypt_name(std::string& s) { s = GetEncryptCategory().name(); }
const std::error_category* Routing_cat() { return &GetRoutingCategory(); }
int Routing_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetRoutingCategory())); }
int Routing_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetRoutingCategory()); e.save(a); return r; }
void Routing_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetRoutingCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Routing_make(RoutingErrors c, int* ev, const std::error_category** cat) { routing_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Routing_code(RoutingErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Routing_cond(RoutingErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Routing_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetRoutingCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Routing_msg(std::string& s, int v) { s = GetRoutingCategory().message(v); }
void Routing_name(std::string& s) { s = GetRoutingCategory().name(); }
const std::error_category* Nfs_cat() { return &GetNfsCategory(); }
int Nfs_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetNfsCategory())); }
int Nfs_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetNfsCategory()); e.save(a); return r; }
void Nfs_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetNfsCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Nfs_make(NfsErrors c, int* ev, const std::error_category** cat) { nfs_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Nfs_code(NfsErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Nfs_cond(NfsErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Nfs_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetNfsCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Nfs_msg(std::string& s, int v) { s = GetNfsCategory().message(v); }
void Nfs_name(std::string& s) { s = GetNfsCategory().name(); }
const std::error_category* Drive_cat() { return &GetDriveCategory(); }
int Drive_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetDriveCategory())); }
int Drive_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetDriveCategory()); e.save(a); return r; }
void Drive_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetDriveCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Drive_make(DriveErrors c, int* ev, const std::error_category** cat) { drive_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Drive_code(DriveErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Drive_cond(DriveErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Drive_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetDriveCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Drive_msg(std::string& s, int v) { s = GetDriveCategory().message(v); }
void Drive_name(std::string& s) { s = GetDriveCategory().name(); }
const std::error_category* Vault_cat() { return &GetVaultCategory(); }
int Vault_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetVaultCategory())); }
int Vault_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetVaultCategory()); e.save(a); return r; }
void Vault_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetVaultCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Vault_make(VaultErrors c, int* ev, const std::error_category** cat) { vault_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Vault_code(VaultErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Vault_cond(VaultErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Vault_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetVaultCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Vault_msg(std::string& s, int v) { s = GetVaultCategory().message(v); }
void Vault_name(std::string& s) { s = GetVaultCategory().name(); }
const std::error_category* VaultManager_cat() { return &GetVaultManagerCategory(); }
int VaultManager_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetVaultManagerCategory())); }
int VaultManager_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetVaultManagerCategory()); e.save(a); return r; }
void VaultManager_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetVaultManagerCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void VaultManager_make(VaultManagerErrors c, int* ev, const std::error_category** cat) { vault_manager_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void VaultManager_code(VaultManagerErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void VaultManager_cond(VaultManagerErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void VaultManager_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetVaultManagerCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void VaultManager_msg(std::string& s, int v) { s = GetVaultManagerCategory().message(v); }
void VaultManager_name(std::string& s) { s = GetVaultManagerCategory().name(); }
const std::error_category* Api_cat() { return &GetApiCategory(); }
int Api_to_int(int ev) { return ErrorToInt(maidsafe_error(ev, GetApiCategory())); }
int Api_save(int ev) { int r = 0; ArOut a{&r}; maidsafe_error e(ev, GetApiCategory()); e.save(a); return r; }
void Api_rt(int v, int* ev, const std::error_category** cat) { maidsafe_error e(IntToError(ErrorToInt(maidsafe_error(v, GetApiCategory())))); *ev = e.code().value(); *cat = &e.code().category(); }
void Api_make(ApiErrors c, int* ev, const std::error_category** cat) { api_error e(MakeError(c)); *ev = e.code().value(); *cat = &e.code().category(); }
void Api_code(ApiErrors c, int* ev, const std::error_category** cat) { std::error_code e(make_error_code(c)); *ev = e.value(); *cat = &e.category(); }
void Api_cond(ApiErrors c, int* ev, const std::error_category** cat) { std::error_condition e(make_error_condition(c)); *ev = e.value(); *cat = &e.category(); }
void Api_dcond(int v, int* ev, const std::error_category** cat) { std::error_condition e(GetApiCategory().default_error_condition(v)); *ev = e.value(); *cat = &e.category(); }
void Api_msg(std::string& s, int v) { s = GetApiCategory().message(v); }
void Api_name(std::string& s) { s = GetApiCategory().name(); }
}
