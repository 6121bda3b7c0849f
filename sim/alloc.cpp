// operator new/delete seam: counts, injects failures, poisons, and checks block integrity.
#include <new>

#include "core.hpp"
namespace sim
{
Alloc g_alloc;
__attribute__((noinline)) void dirty_stack(unsigned char c)
{
  volatile unsigned char buf[96 * 1024];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = c;
  __asm__ __volatile__("" ::: "memory");
}
static const uint64_t MAGIC = 0x51a7e5f0c0ffee11ull, DEAD = 0xdeadbeefdeadbeefull, TAIL = 0x7a117a117a117a11ull;
static const uintptr_t ARENA_LO = 0x600000000000ull, ARENA_HI = 0x610000000000ull;
struct Head
{
  uint64_t magic, size, off, pad;
};
char *(*g_arena)(size_t) = nullptr;            // threads.cpp: per-thread memory at fixed addresses, never reused
static char *get_raw(size_t al, size_t n)
{
  if (g_arena) return g_arena(n);
  return (char *)(al <= 16 ? malloc(n) : aligned_alloc(al, (n + al - 1) / al * al));
}
static void *get(size_t n, size_t al, bool nothrow)
{
  Alloc &a = g_alloc;
  if (a.armed)
  {
    ++a.count;
    if (a.fail_at && a.count >= a.fail_at && a.count < a.fail_at + a.fail_len)
    {
      ++a.failed;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  if (n > (size_t(1) << 40)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (al < 16) al = 16;
  size_t off = sizeof(Head) < al ? al : ((sizeof(Head) + al - 1) / al) * al;
  char *raw = get_raw(al, off + n + 8);
  if (!raw) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  char *p = raw + off;
  Head *h = (Head *)(p - sizeof(Head));
  h->magic = MAGIC;
  h->size = n;
  h->off = off;
  memset(p, a.dirt, n);
  memcpy(p + n, &TAIL, 8);
  ++a.live_blocks;
  a.live_bytes += (int64_t)n;
  return p;
}
static void put(void *v)
{
  if (!v) return;
  char *p = (char *)v;
  Head *h = (Head *)(p - sizeof(Head));
  Alloc &a = g_alloc;
  if (h->magic == DEAD) { a.corrupt = "memory released twice"; return; }
  if (h->magic != MAGIC) { a.corrupt = "release of memory that was never acquired"; return; }
  if (memcmp(p + h->size, &TAIL, 8)) a.corrupt = "write past the end of a block";
  --a.live_blocks;
  a.live_bytes -= (int64_t)h->size;
  h->magic = DEAD;
  memset(p, 0xDD, h->size);
  if ((uintptr_t)p >= ARENA_LO && (uintptr_t)p < ARENA_HI) return;
  // small quarantine: a released block stays poisoned for a while
  static char *q[256];
  static unsigned qi;
  char *raw = p - h->off;
  char *old = q[qi];
  q[qi] = raw;
  qi = (qi + 1) % 256;
  free(old);
}
}  // namespace sim
void *operator new(size_t n) { return sim::get(n, 16, false); }
void *operator new[](size_t n) { return sim::get(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::get(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::get(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return sim::get(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return sim::get(n, (size_t)a, false); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return sim::get(n, (size_t)a, true); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return sim::get(n, (size_t)a, true); }
void operator delete(void *p) noexcept { sim::put(p); }
void operator delete[](void *p) noexcept { sim::put(p); }
void operator delete(void *p, size_t) noexcept { sim::put(p); }
void operator delete[](void *p, size_t) noexcept { sim::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::put(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::put(p); }
