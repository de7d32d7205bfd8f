#include <cassert>
#include <cstdint>
#include <new>
#include "maidsafe/common/authentication/detail/safe_allocators.h"
using namespace maidsafe::authentication::detail;
struct Os {  // what the operating system is asked to do
  bool Lock(const void* address, std::size_t length);
  bool Unlock(const void* address, std::size_t length);
};
typedef LockedPageManagerBase<Os> Manager;
struct Wide { std::uint64_t a; std::uint32_t b; };
extern "C" {
std::size_t pm_size() { return sizeof(Manager); }
void pm_new(void* m, std::size_t page_size) { new (m) Manager(page_size); }
void pm_lock(Manager& m, std::size_t address, std::size_t size) { m.LockRange(reinterpret_cast<void*>(address), size); }
void pm_unlock(Manager& m, std::size_t address, std::size_t size) { m.UnlockRange(reinterpret_cast<void*>(address), size); }
int pm_count(const Manager& m) { return m.GetLockedPageCount(); }
bool os_lock(MemoryPageLocker& l, const void* p, std::size_t n) { return l.Lock(p, n); }
bool os_unlock(MemoryPageLocker& l, const void* p, std::size_t n) { return l.Unlock(p, n); }
void* sa_alloc_c(std::size_t n) { safe_allocator<char> a; return a.allocate(n); }
void* sa_alloc_w(std::size_t n) { safe_allocator<Wide> a; return a.allocate(n); }
void sa_free_c(char* p, std::size_t n) { safe_allocator<char> a; a.deallocate(p, n); }
void sa_free_w(Wide* p, std::size_t n) { safe_allocator<Wide> a; a.deallocate(p, n); }
void za_free_c(char* p, std::size_t n) { zero_after_free_allocator<char> a; a.deallocate(p, n); }
void za_free_w(Wide* p, std::size_t n) { zero_after_free_allocator<Wide> a; a.deallocate(p, n); }
}
