// Replacement of the global allocator for uninstrumented builds: the address order of blocks and
// the way freed blocks are reused change with a seed (diagrams are ordered by address, and a freed
// node's address may be handed out again at once); freed memory is filled with a pattern, and a
// double free, a free of an unknown block or a write just past a block's end is reported.
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace {
constexpr std::size_t kMax = 2048, kStep = 16, kClasses = kMax / kStep + 1;
constexpr std::uint32_t kLive = 0xa110ca7e, kFree = 0xdeadf4ee;
struct Head { std::uint32_t state; std::uint32_t cls; std::uint64_t size; };
static_assert(sizeof(Head) == 16, "");
struct Class { char** v; std::size_t n, cap; };
Class cls[kClasses];
std::uint64_t rng = 88172645463325252ull;
int mode = 0;
std::uint64_t g_blocks = 0, g_bytes = 0;
std::uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
[[noreturn]] void die(const char* m) { dprintf(2, "ALLOC-MONITOR: %s\n", m); abort(); }

char* region = nullptr; std::size_t region_left = 0;
char* take(std::size_t n)
{
  if (region_left < n)
  {
    const std::size_t sz = 64u << 20;
    static char* hint = reinterpret_cast<char*>(0x600000000000ull);
    void* p = mmap(hint, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    hint += sz;
    region = static_cast<char*>(p); region_left = sz;
  }
  char* p = region; region += n; region_left -= n; return p;
}
void put(Class& c, char* p)
{
  if (c.n == c.cap)
  {
    c.cap = c.cap ? c.cap * 2 : 64;
    c.v = static_cast<char**>(std::realloc(c.v, c.cap * sizeof(char*)));
    if (!c.v) die("no memory");
  }
  c.v[c.n++] = p;
}
void refill(std::size_t k)
{
  const std::size_t bytes = sizeof(Head) + k * kStep + 16;
  const std::size_t count = bytes < 512 ? 64 : 8;
  char* base = take(bytes * count);
  for (std::size_t i = 0; i < count; ++i)
  {
    char* p = base + bytes * (mode == 1 ? i : count - 1 - i);
    auto* h = reinterpret_cast<Head*>(p);
    h->state = kFree; h->cls = static_cast<std::uint32_t>(k); h->size = 0;
    put(cls[k], p);
  }
}
// An allocator without headers may put two blocks side by side: the next two blocks, on request.
char* side = nullptr; std::size_t side_used = 0; int side_left = 0, side_live = 0;
constexpr std::size_t kSide = 1 << 16;
void* alloc(std::size_t n)
{
  if (n == 0) n = 1;
  if (side_left > 0 && side_used + n <= kSide) { --side_left; ++side_live; char* d = side + side_used; side_used += n; return d; }
  const std::size_t k = (n + kStep - 1) / kStep;
  char* p;
  if (k >= kClasses)
  {
    p = static_cast<char*>(std::malloc(sizeof(Head) + n + 16));
    if (!p) throw std::bad_alloc();
    reinterpret_cast<Head*>(p)->cls = 0xffffffffu;
  }
  else
  {
    Class& c = cls[k];
    if (c.n == 0) refill(k);
    if (mode == 2 && c.n > 1) { const std::size_t i = rnd() % c.n; char* t = c.v[i]; c.v[i] = c.v[c.n-1]; c.v[c.n-1] = t; }
    p = c.v[--c.n];
  }
  auto* h = reinterpret_cast<Head*>(p);
  h->state = kLive; h->size = n;
  ++g_blocks; g_bytes += n;
  char* d = p + sizeof(Head);
  std::memset(d, 0xcd, n < 4096 ? n : 64);
  std::memset(d + n, 0xfb, 8);
  return d;
}
void release(void* q)
{
  if (!q) return;
  if (side && q >= side && q < side + kSide) { --side_live; return; }
  char* p = static_cast<char*>(q) - sizeof(Head);
  auto* h = reinterpret_cast<Head*>(p);
  if (h->state == kFree) die("double free");
  if (h->state != kLive) die("free of a block that was not allocated, or whose header was overwritten");
  for (int i = 0; i < 8; ++i) if (static_cast<unsigned char>(p[sizeof(Head) + h->size + i]) != 0xfb) die("write past the end of a block");
  h->state = kFree;
  --g_blocks; g_bytes -= h->size;
  std::memset(q, 0xdd, h->size);
  if (h->cls == 0xffffffffu) { std::free(p); return; }
  put(cls[h->cls], p);
}
} // namespace

void* operator new(std::size_t n) { return alloc(n); }
void* operator new[](std::size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }

namespace vf {
bool side_by_side(int blocks)
{
  if (!side) { void* p = mmap(nullptr, kSide, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return false; side = static_cast<char*>(p); }
  if (side_live == 0) side_used = 0;
  side_left = blocks; return true;
}
int side_blocks() { return side_live; }
bool counts_blocks() { return true; }
std::uint64_t live_blocks() { return g_blocks; }
std::uint64_t live_bytes() { return g_bytes; }
void case_begin(std::uint64_t seed)
{
  rng = seed | 1; mode = static_cast<int>(seed % 3);
  // Start each case from a shuffled or sorted free list, whatever the previous cases left.
  for (auto& c : cls)
  {
    if (c.n < 20000) std::sort(c.v, c.v + c.n, [&](char* a, char* b) { return mode == 1 ? a < b : b < a; });
    if (mode == 2) for (std::size_t i = c.n; i > 1; --i) { const std::size_t j = rnd() % i; char* t = c.v[i-1]; c.v[i-1] = c.v[j]; c.v[j] = t; }
  }
}
}
