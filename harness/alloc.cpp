#include "alloc.h"
#ifdef SANITIZED
namespace alloc {
int64_t liveBlocks() { return 0; }
uint64_t calls() { return 0; }
void countAll(bool) {}
int64_t allBlocks() { return 0; }
void fill(int) {}
void refuse(size_t, int) {}
int refused() { return 0; }
}  // namespace alloc
#else
#include <malloc.h>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <new>
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace {
__thread int64_t live __attribute__((tls_model("initial-exec")));
__thread uint64_t count __attribute__((tls_model("initial-exec")));
__thread int pattern __attribute__((tls_model("initial-exec")));  // byte + 1
__thread size_t limit __attribute__((tls_model("initial-exec")));  // 0: none
__thread int left __attribute__((tls_model("initial-exec")));
__thread int denied __attribute__((tls_model("initial-exec")));
std::atomic<bool> counting{false};
std::atomic<int64_t> total{0};
inline void add(int n) {
  live += n;
  if (counting.load(std::memory_order_relaxed)) total.fetch_add(n, std::memory_order_relaxed);
}
inline bool deny(size_t n) {
  if (!limit || n < limit || left <= 0) return false;
  --left;
  ++denied;
  errno = ENOMEM;
  return true;
}
void* take(size_t n) {
  void* p = __libc_malloc(n);
  if (p) {
    add(1);
    ++count;
    if (pattern) memset(p, pattern - 1, n);
  }
  return p;
}
}  // namespace
namespace alloc {
void refuse(size_t atLeast, int times) {
  limit = atLeast;
  left = times;
  denied = 0;
}
int refused() { return denied; }
int64_t liveBlocks() { return live; }
uint64_t calls() { return count; }
void countAll(bool on) { counting = on; }
int64_t allBlocks() { return total; }
void fill(int byte) { pattern = byte + 1; }
}  // namespace alloc
extern "C" {
void* malloc(size_t n) { return deny(n) ? nullptr : take(n); }
void free(void* p) {
  if (p) add(-1);
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (deny(a * b)) return nullptr;
  void* p = __libc_calloc(a, b);
  if (p) {
    add(1);
    ++count;
  }
  return p;
}
void* realloc(void* q, size_t n) {
  if (n && deny(n)) return nullptr;
  size_t old = q && pattern ? malloc_usable_size(q) : 0;
  void* p = __libc_realloc(q, n);
  ++count;
  if (!q && p) add(1);
  if (q && !n) add(-1);
  if (p && pattern && n > old) memset((char*)p + old, pattern - 1, n - old);
  return p;
}
void* memalign(size_t a, size_t n) {
  void* p = __libc_memalign(a, n);
  if (p) add(1);
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
  *out = memalign(a, n);
  return *out ? 0 : ENOMEM;
}
}
void* operator new(size_t n) {
  void* p = take(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
