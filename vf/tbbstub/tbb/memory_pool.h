// Stand-in for tbb::fixed_pool (TBB is not installed here): blocks from the checking heap, up to the size of the pool.
#ifndef VF_TBB_STUB
#define VF_TBB_STUB
#include <cstddef>
#include <cstdlib>
#include <map>
#include <new>
namespace tbb {
class fixed_pool {
  char* mem; size_t size, used = 0; std::map<void*, size_t> live;
 public:
  fixed_pool(void* m, size_t n) : mem((char*)m), size(n) { if (n) mem[0] = mem[n - 1] = 0; }
  fixed_pool(const fixed_pool&) = delete;
  ~fixed_pool() { for (auto& b : live) ::operator delete(b.first); }
  void* malloc(size_t n) { if (used + n > size) return nullptr; void* p = ::operator new(n + 8); p = (char*)p; live[p] = n; used += n; return p; }
  void free(void* p) { if (!p) return; auto i = live.find(p); if (i == live.end()) abort(); used -= i->second; live.erase(i); ::operator delete(p); }
};
}
#endif
