// C14: the containers underneath (hash table, unique table and its pointers, cache, arena), each driven
// directly by random histories and compared with a reference model; then the statistics of a manager.
#include "common.hh"
#include <list>
#include <memory>
#include "sdd/mem/cache.hh"
#include "sdd/mem/hash_table.hh"
#include "sdd/mem/linear_alloc.hh"
#include "sdd/mem/ptr.hh"
#include "sdd/mem/unique.hh"
#include "sdd/mem/unique_table.hh"
#include "sdd/util/next_power.hh"

using namespace vf;
namespace mem = sdd::mem;

// How keys are spread over buckets in the current case.
static unsigned g_spread;
static std::size_t spread(u64 k)
{
  switch (g_spread)
  {
    case 0: return 0;                                   // everything collides
    case 1: return k % 3;
    case 2: return k;                                   // consecutive
    case 3: return k << 5;                              // low bits equal in small tables
    case 4: return mix(11, k);
    default: return (k % 7) | (k << 60);                // only high bits differ
  }
}

// ------------------------------------------------------------------ hash table
struct Elt
{
  u64 key; int tag;
  mem::intrusive_member_hook<Elt> hook;
  Elt(u64 k, int t) : key(k), tag(t), hook() {}
  bool operator==(const Elt& o) const noexcept { return key == o.key; }
};
namespace std { template <> struct hash<Elt> { std::size_t operator()(const Elt& e) const noexcept { return spread(e.key); } }; }

static bool power_of_2(std::size_t n) { return n and not (n & (n - 1)); }

template <typename H> static void table_numbers(const H& h, std::size_t size)
{
  VF_CHECK(h.size() == size, "hash table: size " << h.size() << " but it holds " << size);
  VF_CHECK(power_of_2(h.bucket_count()), "hash table: " << h.bucket_count() << " buckets, not a power of two");
  VF_CHECK(h.load_factor() == double(size) / double(h.bucket_count()), "hash table: load factor " << h.load_factor());
  std::size_t col, alone, empty; std::tie(col, alone, empty) = h.collisions();
  VF_CHECK(col + alone + empty == h.bucket_count(), "hash table: " << col << " shared, " << alone << " single and " << empty << " empty of " << h.bucket_count() << " buckets");
  VF_CHECK(alone + 2 * col <= size and (col or alone == size), "hash table: " << col << " shared and " << alone << " single buckets for " << size << " elements");
  if (g_spread == 0 and size) VF_CHECK(col + alone == 1 and alone == (size == 1), "hash table: elements of one hash in several buckets");
  if (col) ev("shared_buckets", col);
}

static void case_table(Rng& g)
{
  const std::size_t want = 1 + g.below(g.chance(1, 2) ? 4 : 200);
  const double max = g.chance(1, 3) ? 0.6 + 0.1 * g.below(15) : 0.75;
  mem::hash_table<Elt> h(want, max);
  VF_CHECK(h.bucket_count() >= want and h.bucket_count() < 2 * want + (want == 1), "hash table: " << h.bucket_count() << " buckets for " << want);
  const std::size_t first = h.bucket_count();
  std::map<u64, std::unique_ptr<Elt>> ref;
  const u64 range = 1 + g.below(g.chance(1, 3) ? 400 : 40);
  int tag = 0;
  for (unsigned n = 50 + g.below(250); n; --n)
  {
    const u64 k = g.next() % range;
    if (g.chance(3, 5))
    {
      auto e = std::make_unique<Elt>(k, ++tag);
      const std::size_t before = h.size();
      const auto r = h.insert(e.get());
      const auto it = ref.find(k);
      VF_CHECK(r.second == (it == ref.end()), "hash table: inserting " << k << (r.second ? " again succeeded" : " was refused"));
      VF_CHECK(r.first == (it == ref.end() ? e.get() : it->second.get()), "hash table: inserting " << k << " gives another element");
      VF_CHECK(h.size() == before + r.second, "hash table: size after insertion");
      if (r.second) { ref[k] = std::move(e); ev("table_inserted"); } else ev("table_found");
    }
    else if (not ref.empty())
    {
      auto it = ref.lower_bound(k); if (it == ref.end()) it = ref.begin();
      const Elt same(it->first, -1); // erasing is by value
      h.erase(g.chance(1, 2) ? it->second.get() : &same);
      ref.erase(it);
      ev("table_erased");
    }
    if (g.chance(1, 4)) table_numbers(h, ref.size());
    VF_CHECK(h.load_factor() < max or ref.empty(), "hash table: load factor " << h.load_factor() << " with a maximum of " << max);
    VF_CHECK(h.bucket_count() == first << h.nb_rehash(), "hash table: " << h.nb_rehash() << " rehashes reported, " << first << " to " << h.bucket_count() << " buckets");
    if (g.chance(1, 40))
    {
      std::multiset<Elt*> gone, want_gone;
      for (auto& x : ref) want_gone.insert(x.second.get());
      h.clear_and_dispose([&](Elt* x) { gone.insert(x); });
      VF_CHECK(gone == want_gone, "hash table: clearing disposed " << gone.size() << " of " << want_gone.size() << " elements");
      ref.clear(); ev("table_cleared");
      table_numbers(h, 0);
    }
  }
  ev("rehashes", h.nb_rehash());
  for (auto& x : ref) // every element is still found
  {
    Elt probe(x.first, -1);
    const auto r = h.insert(&probe);
    VF_CHECK(not r.second and r.first == x.second.get(), "hash table: element " << x.first << " lost");
  }
  table_numbers(h, ref.size());
  dig(ref.size()); dig(h.bucket_count());
}

static void case_fixed(Rng& g) // the two-step insertion the caches use
{
  mem::hash_table<Elt, false> h(1 + g.below(100), 0.85);
  const std::size_t buckets = h.bucket_count();
  std::map<u64, std::unique_ptr<Elt>> ref;
  auto eq = [](const Elt& a, const Elt& b) { return a == b; };
  const u64 range = 1 + g.below(100);
  for (unsigned n = 50 + g.below(200); n; --n)
  {
    const u64 k = g.next() % range;
    if (g.chance(3, 5))
    {
      auto e = std::make_unique<Elt>(k, 0);
      typename mem::hash_table<Elt, false>::insert_commit_data cd;
      const auto r = h.insert_check(*e, eq, cd);
      const auto it = ref.find(k);
      VF_CHECK(r.second == (it == ref.end()) and (r.second or r.first == it->second.get()), "hash table: wrong answer to a check for " << k);
      if (r.second)
      {
        if (not ref.empty() and g.chance(1, 3)) { auto v = ref.begin(); h.erase(v->second.get()); ref.erase(v); } // as a cache does in between
        h.insert_commit(e.get(), cd); ref[k] = std::move(e); ev("table_committed");
      }
    }
    else if (not ref.empty()) { auto it = ref.lower_bound(k); if (it == ref.end()) it = ref.begin(); h.erase(it->second.get()); ref.erase(it); }
    if (g.chance(1, 4)) table_numbers(h, ref.size());
    VF_CHECK(h.bucket_count() == buckets, "fixed hash table changed its number of buckets");
  }
  std::size_t n = 0;
  h.clear_and_dispose([&](Elt* x) { auto it = ref.find(x->key); VF_CHECK(it != ref.end() and it->second.get() == x, "hash table: disposed an unknown element"); ++n; });
  VF_CHECK(n == ref.size() and h.size() == 0, "hash table: clearing disposed " << n << " of " << ref.size());
  dig(n); dig(buckets);
}

// ------------------------------------------------------------------ unique table and pointers
static std::map<u64, int> g_live; // live data per key
static u64 g_deaths;
struct Datum // followed in memory by `extra` bytes
{
  u64 key; std::size_t extra;
  Datum(u64 k, std::size_t e) : key(k), extra(e) { ++g_live[k]; std::memset(tail(), int(k & 0xff), extra); }
  ~Datum() { --g_live[key]; ++g_deaths; }
  Datum(const Datum&) = delete;
  char* tail() const { return reinterpret_cast<char*>(const_cast<Datum*>(this)) + sizeof(Datum); }
  bool intact(u64 k) const { if (key != k) return false; for (std::size_t i = 0; i < extra; ++i) if (tail()[i] != char(k & 0xff)) return false; return true; }
  bool operator==(const Datum& o) const noexcept { return key == o.key; }
};
namespace std { template <> struct hash<Datum> { std::size_t operator()(const Datum& e) const noexcept { return spread(e.key); } }; }
using UD = mem::unique<Datum>;
using PD = mem::ptr<UD>;

static void case_unique(Rng& g)
{
  const std::size_t table_size = 1 + g.below(g.chance(1, 2) ? 3 : 100);
  g_live.clear(); g_deaths = 0;
  {
    mem::unique_table<UD> t(table_size);
    mem::set_deletion_handler<UD>([&](const UD* u) { t.erase(u); });
    struct Reset { ~Reset() { mem::reset_deletion_handler<UD>(); } } reset;
    const std::size_t first_buckets = t.stats().buckets;
    u64 access = 0, hits = 0, misses = 0, peak = 0;
    auto size_of_key = [](u64 k) -> std::size_t { return (k * 37) % 5 == 0 ? 0 : (k * 53) % 200; };
    {
    std::map<u64, std::vector<PD>> held;
    const u64 range = 1 + g.below(g.chance(1, 3) ? 300 : 30);
    auto unify = [&](u64 k) -> PD
    {
      const std::size_t extra = size_of_key(k);
      char* const a = t.allocate(extra);
      for (auto& h : held) { const char* const b = reinterpret_cast<const char*>(h.second[0].operator->()); VF_CHECK(a + sizeof(UD) + extra <= b or b + sizeof(UD) + size_of_key(h.first) <= a, "unique table: allocation overlaps a live datum"); }
      UD* const u = new (a) UD(k, extra);
      UD& r = t(u, extra);
      ++access;
      auto it = held.find(k);
      if (it != held.end())
      {
        ++hits; ev("unique_hits");
        VF_CHECK(&r == it->second[0].operator->(), "unique table: a second copy of " << k);
      }
      else { ++misses; ev("unique_misses"); }
      VF_CHECK(r.data().intact(k), "unique table: unified datum " << k << " differs from what was inserted");
      return PD(&r);
    };
    for (unsigned n = 60 + g.below(240); n; --n)
    {
      const u64 k = g.next() % range;
      switch (g.below(7))
      {
        case 0: case 1: case 2: { PD p = unify(k); held[k].push_back(p); peak = std::max<u64>(peak, held.size()); break; }
        case 3: // a temporary
        {
          const bool known = held.count(k); const u64 d = g_deaths;
          { PD p = unify(k); PD q(p); PD r(std::move(p)); VF_CHECK(q == r, "ptr: copies differ"); if (not known) peak = std::max<u64>(peak, held.size() + 1); }
          VF_CHECK(g_deaths == d + 1, "unique table: " << g_deaths - d << " data died with a temporary " << (known ? "equal to a held one" : "never held"));
          break;
        }
        default: // drop, overwrite or swap a pointer
        {
          if (held.empty()) break;
          auto it = held.lower_bound(k); if (it == held.end()) it = held.begin();
          auto jt = held.lower_bound(g.next() % range); if (jt == held.end()) jt = held.begin();
          const u64 d = g_deaths;
          switch (g.below(4))
          {
            case 0:
            {
              const bool last = it->second.size() == 1; const u64 key = it->first;
              it->second.pop_back(); if (last) held.erase(it);
              VF_CHECK(g_deaths == d + last, "ptr: dropping " << (last ? "the last" : "one") << " pointer to " << key << " removed " << g_deaths - d << " data");
              ev(last ? "last_dropped" : "not_last_dropped");
              break;
            }
            case 1: // copy assignment
            {
              if (it == jt) { it->second[0] = it->second.back(); VF_CHECK(g_deaths == d, "ptr: assignment of an equal pointer removed its datum"); break; }
              const bool last = it->second.size() == 1;
              it->second.back() = jt->second[0];
              VF_CHECK(g_deaths == d + last, "ptr: assignment removed " << g_deaths - d << " data");
              jt->second.push_back(it->second.back());
              it->second.pop_back(); if (last) held.erase(it);
              ev("ptr_assigned");
              break;
            }
            case 2: // move assignment
            {
              if (it == jt or jt->second.size() < 2) break;
              const bool last = it->second.size() == 1;
              it->second.back() = std::move(jt->second.back());
              jt->second.pop_back();
              VF_CHECK(g_deaths == d + last, "ptr: move assignment removed " << g_deaths - d << " data");
              jt->second.push_back(std::move(it->second.back()));
              it->second.pop_back(); if (last) held.erase(it);
              VF_CHECK(g_deaths == d + last, "ptr: dropping a moved pointer removed a datum");
              ev("ptr_moved");
              break;
            }
            default:
              if (it == jt) break;
              using std::swap;
              swap(it->second[0], jt->second[0]);
              VF_CHECK((*it->second[0]).data().key == jt->first and (*jt->second[0]).data().key == it->first, "ptr: swap");
              swap(it->second[0], jt->second[0]);
              VF_CHECK(g_deaths == d, "ptr: swap removed a datum");
              ev("ptr_swapped");
          }
        }
      }
      const auto& s = t.stats();
      VF_CHECK(s.size == held.size(), "unique table: size " << s.size << " with " << held.size() << " live data");
      VF_CHECK(s.access == access and s.hits == hits and s.misses == misses, "unique table: access/hits/misses " << s.access << "/" << s.hits << "/" << s.misses << " instead of " << access << "/" << hits << "/" << misses);
      VF_CHECK(s.peak == peak, "unique table: peak " << s.peak << " instead of " << peak);
      VF_CHECK(s.buckets == first_buckets << s.rehash, "unique table: " << s.rehash << " rehashes, " << s.buckets << " buckets");
      VF_CHECK(s.collisions + s.alone + s.empty == s.buckets, "unique table: statistics of buckets");
      VF_CHECK(s.load_factor == double(s.size) / double(s.buckets), "unique table: load factor");
      if (g.chance(1, 10)) for (auto& h : held)
      {
        VF_CHECK(g_live[h.first] == 1, "unique table: " << g_live[h.first] << " copies of " << h.first);
        for (auto& p : h.second) VF_CHECK((*p).data().intact(h.first) and p == h.second[0] and std::hash<PD>()(p) == std::hash<PD>()(h.second[0]), "unique table: held datum " << h.first << " changed");
      }
    }
    for (auto& l : g_live) VF_CHECK(l.second == int(held.count(l.first)), "unique table: " << l.second << " live copies of " << l.first);
    dig(held.size()); dig(access); dig(hits);
    ev("unique_rehash", t.stats().rehash);
    }
    VF_CHECK(t.stats().size == 0, "unique table: " << t.stats().size << " data once every pointer is gone");
  }
  for (auto& l : g_live) VF_CHECK(l.second == 0, "unique table: datum " << l.first << " never destroyed");
}

// ------------------------------------------------------------------ cache
struct CacheWorld;
static CacheWorld* g_world;
struct Failure { u64 key; };
static std::map<u64, int> g_stored;  // operation objects alive, per key
struct Result
{
  u64 v; static long alive;
  explicit Result(u64 x) : v(x) { ++alive; }
  Result(const Result& o) : v(o.v) { ++alive; }
  Result(Result&& o) noexcept : v(o.v) { ++alive; }
  ~Result() { --alive; }
};
long Result::alive = 0;
struct Ctx { int dummy; };
struct Op
{
  u64 key; bool owner;
  explicit Op(u64 k) : key(k), owner(true) { ++g_stored[k]; }
  Op(Op&& o) noexcept : key(o.key), owner(true) { ++g_stored[key]; }
  Op(const Op&) = delete;
  ~Op() { if (--g_stored[key] == 0) g_stored.erase(key); }
  bool operator==(const Op& o) const noexcept { return key == o.key; }
  Result operator()(Ctx&) const;
};
namespace std { template <> struct hash<Op> { std::size_t operator()(const Op& o) const noexcept { return spread(o.key); } }; }
struct NotMultipleOf5 { bool operator()(const Op& o) const { return o.key % 5; } };
struct NotMultipleOf7 { bool operator()(const Op& o) const { return o.key % 7; } };
struct CacheWorld
{
  Ctx cxt{0};
  virtual ~CacheWorld() {}
  virtual Result call(u64 k) = 0;
  std::list<u64> lru;                 // reference: oldest first
  u64 hits = 0, misses = 0, filtered = 0, discarded = 0;
  u64 capacity = 0;                   // as found at the first eviction, or 0
  u64 evaluations = 0, expected_value_salt = 0;
  std::map<u64, std::vector<u64>> nested; // what an operation asks for, in turn
  std::set<u64> failing;
  bool filters = false;
  bool rejected(u64 k) const { return filters and (k % 5 == 0 or k % 7 == 0); }
  u64 value(u64 k) const { return mix(k, expected_value_salt); }
  bool holds(u64 k) const { return std::find(lru.begin(), lru.end(), k) != lru.end(); }
};
Result Op::operator()(Ctx& c) const
{
  auto& w = *g_world;
  VF_CHECK(&c == &w.cxt, "cache: evaluation in another context");
  VF_CHECK(w.rejected(key) or not w.holds(key), "cache: operation " << key << " evaluated again though it is in the cache");
  ++w.evaluations;
  const auto it = w.nested.find(key);
  if (it != w.nested.end()) { const auto subs = it->second; for (auto k : subs) { const Result r = w.call(k); VF_CHECK(r.v == w.value(k), "cache: wrong result for " << k); } }
  if (w.failing.count(key)) throw Failure{key};
  return Result(w.value(key));
}
template <typename Cache>
struct World : CacheWorld
{
  std::unique_ptr<Cache> cache;
  // What the statistics and the contents must be is updated as the calls nest.
  Result call(u64 k) override
  {
    const u64 ev0 = evaluations, sz0 = lru.size();
    if (rejected(k)) { ++filtered; Result r = (*cache)(Op(k)); VF_CHECK(evaluations > ev0, "cache: filtered operation " << k << " not evaluated"); ev("filtered"); return r; }
    if (holds(k))
    {
      ++hits; Result r = (*cache)(Op(k));
      VF_CHECK(evaluations == ev0, "cache: held operation " << k << " evaluated");
      lru.remove(k); lru.push_back(k); ev("hits");
      VF_CHECK(lru.size() == sz0, "model");
      return r;
    }
    ++misses; ev("misses");
    Result r = (*cache)(Op(k)); // may throw: then nothing is stored
    VF_CHECK(evaluations > ev0, "cache: operation " << k << " answered without being evaluated nor held");
    const u64 d = cache->statistics().discarded;
    if (d != discarded)
    {
      VF_CHECK(d == discarded + 1, "cache: " << d - discarded << " entries discarded for one insertion");
      ++discarded; ev("evictions");
      if (capacity == 0) capacity = lru.size();
      VF_CHECK(lru.size() == capacity, "cache: evicts with " << lru.size() << " entries but its capacity is " << capacity);
      lru.pop_front();
    }
    else VF_CHECK(capacity == 0 or lru.size() < capacity, "cache: grows beyond its capacity of " << capacity);
    lru.push_back(k);
    return r;
  }
  void check()
  {
    const auto& s = cache->statistics();
    VF_CHECK(s.hits == hits and s.misses == misses and s.filtered == filtered and s.discarded == discarded, "cache: hits/misses/filtered/discarded " << s.hits << "/" << s.misses << "/" << s.filtered << "/" << s.discarded << " instead of " << hits << "/" << misses << "/" << filtered << "/" << discarded);
    VF_CHECK(s.size == lru.size() and cache->size() == lru.size(), "cache: size " << s.size << " instead of " << lru.size());
    VF_CHECK(s.size <= s.buckets and power_of_2(s.buckets), "cache: " << s.size << " entries in " << s.buckets << " buckets");
    VF_CHECK(s.collisions + s.alone + s.empty == s.buckets and s.load_factor == double(s.size) / double(s.buckets), "cache: statistics of buckets");
    VF_CHECK(g_stored.size() == lru.size(), "cache: keeps " << g_stored.size() << " operations alive, " << lru.size() << " expected");
    for (auto k : lru) { const auto it = g_stored.find(k); VF_CHECK(it != g_stored.end() and it->second == 1, "cache: operation " << k << " should be in the cache (least recently used first: " << lru.front() << ")"); }
    VF_CHECK(Result::alive == long(lru.size()), "cache: keeps " << Result::alive << " results alive for " << lru.size() << " entries");
  }
};

template <typename Cache> static void run_cache(Rng& g, bool filters)
{
  World<Cache> w; w.filters = filters; g_world = &w;
  g_stored.clear(); Result::alive = 0;
  w.expected_value_salt = g.next();
  const std::size_t size = 2 + g.below(g.chance(2, 3) ? 8 : 120);
  w.cache = std::make_unique<Cache>(w.cxt, size);
  const std::size_t buckets = w.cache->statistics().buckets;
  const u64 range = 1 + g.below(static_cast<u32>(g.chance(1, 2) ? 2 * size : 4 * size + 10));
  if (g.chance(2, 3)) // some operations ask for smaller ones
    for (u64 k = 1; k < range; ++k) if (g.chance(1, 3)) for (unsigned n = 1 + g.below(3); n; --n) w.nested[k].push_back(k < 6 or g.chance(1, 2) ? g.next() % k : k - 1 - g.next() % 3);
  const bool faults = g.chance(1, 2);
  // Nested evaluations may grow quickly when nothing fits: bound the depth by bounding the fan-out.
  for (auto& n : w.nested) if (range > 12 and n.second.size() > 1 and size < 10) n.second.resize(1);
  std::size_t most = 0;
  for (unsigned n = 60 + g.below(240); n; --n)
  {
    const u64 k = g.next() % range;
    if (faults and g.chance(1, 6)) { w.failing.clear(); if (g.chance(2, 3)) w.failing.insert(g.next() % range); }
    bool failed = false;
    if (not w.lru.empty() and g.chance(1, 4)) // the least recently used entry just before an eviction
    {
      const u64 old = w.lru.front();
      const Result r = w.call(old); VF_CHECK(r.v == w.value(old), "cache: wrong result for " << old);
    }
    else try
    {
      const Result r = w.call(k);
      VF_CHECK(r.v == w.value(k), "cache: wrong result for " << k);
    }
    catch (const Failure& f) { VF_CHECK(w.failing.count(f.key), "cache: exception of " << f.key); failed = true; ev("cache_failures"); }
    w.check();
    VF_CHECK(not failed or not w.holds(k), "model");
    VF_CHECK(w.cache->statistics().buckets == buckets, "cache: number of buckets changed");
    most = std::max(most, w.lru.size());
    if (g.chance(1, 60)) { w.cache->clear(); w.lru.clear(); w.check(); ev("cache_cleared"); }
  }
  if (w.capacity) { VF_CHECK(most <= w.capacity, "cache: " << most << " entries with a capacity of " << w.capacity); ev("capacities_found"); }
  VF_CHECK(2 * (w.capacity ? w.capacity : size) >= size, "cache: made for " << size << " entries, holds " << w.capacity);
  dig(w.hits); dig(w.misses); dig(w.discarded); dig(w.evaluations);
  w.cache.reset();
  VF_CHECK(g_stored.empty() and Result::alive == 0, "cache: " << g_stored.size() << " operations outlive it");
}
static void case_cache(Rng& g)
{
  switch (g.below(3))
  {
    case 0: run_cache<mem::cache<Ctx, Op>>(g, false); break;
    case 1: run_cache<mem::cache<Ctx, Op, NotMultipleOf5, NotMultipleOf7>>(g, true); break;
    default: run_cache<mem::cache<Ctx, Op, NotMultipleOf7, NotMultipleOf5>>(g, true);
  }
}

// ------------------------------------------------------------------ arena
struct Block { char* p; std::size_t n; unsigned char c; bool inside; };
static void fill(const Block& b) { std::memset(b.p, b.c, b.n); }
static bool intact(const Block& b) { for (std::size_t i = 0; i < b.n; ++i) if (static_cast<unsigned char>(b.p[i]) != b.c) return false; return true; }

struct ArenaRun
{
  Rng& g; mem::arena& a; std::vector<Block> live; unsigned char next = 1;
  char* base; std::size_t size;
  void add(std::size_t n)
  {
    char* const p = a.allocate(n);
    const bool inside = p >= base and p + n <= base + size;
    VF_CHECK(inside or p + n <= base or p >= base + size, "arena: a block of " << n << " bytes straddles the end of the buffer");
    Block b{p, n, next++, inside}; if (next == 0) next = 1;
    if (n) for (auto& o : live) VF_CHECK(not o.n or p + n <= o.p or o.p + o.n <= p, "arena: block of " << n << " bytes overlaps a live block of " << o.n);
    fill(b); live.push_back(b);
    ev(inside ? "arena_inside" : "arena_outside");
  }
  void drop(std::size_t i)
  {
    VF_CHECK(intact(live[i]), "arena: a live block was overwritten");
    a.deallocate(live[i].p, live[i].n);
    if (i + 1 != live.size()) ev("arena_not_last");
    live.erase(live.begin() + i);
    ev("arena_dropped");
  }
  void run(unsigned steps, int depth)
  {
    for (unsigned n = steps; n; --n)
    {
      switch (g.below(8))
      {
        case 0: case 1: case 2: add(g.chance(1, 12) ? 0 : g.chance(1, 10) ? 1 + g.below(static_cast<u32>(size) + 20) : 1 + g.below(40)); break;
        case 3: if (not live.empty()) drop(live.size() - 1); break;
        case 4: if (not live.empty()) drop(g.below(live.size())); break;
        case 5:
          if (depth < 4)
          {
            const std::vector<Block> before = live;
            live.clear(); // the nested scope only handles its own blocks
            {
              mem::rewinder rw(a);
              kept.push_back(before);
              run(1 + g.below(12), depth + 1);
              kept.pop_back();
              while (not live.empty()) drop(live.size() - 1); // as the containers of a scope do
            }
            live = before;
            ev("arena_rewound");
          }
          break;
        default:
          for (auto& b : live) VF_CHECK(intact(b), "arena: a live block was overwritten");
      }
      // New blocks never overlap what the outer scopes hold.
      for (auto& v : kept) for (auto& b : v) VF_CHECK(intact(b), "arena: a block of an outer scope was overwritten");
    }
  }
  std::vector<std::vector<Block>> kept;
};

static void case_arena(Rng& g)
{
  const std::size_t sizes[] = {1, 2, 16, 64, 100, 256, 1000, 4096};
  const std::size_t size = sizes[g.below(8)];
  const u64 b0 = live_blocks();
  {
    mem::arena a(size);
    const auto base = a.position();
    if (g.chance(1, 2)) // every block in a scope: the position comes back
    {
      {
        mem::rewinder rw(a);
        ArenaRun r{g, a, {}, 1, base, size, {}};
        r.run(30 + g.below(120), 0);
        while (not r.live.empty()) r.drop(g.below(r.live.size()));
      }
      VF_CHECK(a.position() == base, "arena: position after a rewinder");
      { mem::rewinder rw(a); char* const p = a.allocate(size); VF_CHECK(p == base, "arena: the whole buffer is not available once rewound"); a.deallocate(p, size); }
    }
    else // outside any scope, bytes given back out of order may be lost until the end, never reused while live
    {
      ArenaRun r{g, a, {}, 1, base, size, {}};
      r.run(30 + g.below(120), 0);
      const bool lifo = g.chance(1, 2);
      while (not r.live.empty()) r.drop(lifo ? r.live.size() - 1 : g.below(r.live.size()));
    }
    const auto pos = a.position();
    // Containers on top of it.
    {
      mem::rewinder rw(a);
      std::vector<u64, mem::linear_alloc<u64>> v{mem::linear_alloc<u64>(a)};
      std::vector<char, mem::linear_alloc<char>> w{mem::linear_alloc<char>(a)};
      std::list<u32, mem::linear_alloc<u32>> l{mem::linear_alloc<u32>(a)};
      std::vector<u64> rv; std::vector<char> rw2; std::list<u32> rl;
      for (unsigned n = 20 + g.below(80); n; --n) switch (g.below(6))
      {
        case 0: case 1: { const u64 x = g.next(); v.push_back(x); rv.push_back(x); break; }
        case 2: { const char c = char(g.next()); w.push_back(c); rw2.push_back(c); break; }
        case 3: { const u32 x = u32(g.next()); l.push_back(x); rl.push_back(x); break; }
        case 4: if (not rl.empty()) { l.pop_front(); rl.pop_front(); } break;
        default: if (not rv.empty()) { v.pop_back(); rv.pop_back(); }
      }
      VF_CHECK(std::equal(v.begin(), v.end(), rv.begin(), rv.end()) and std::equal(w.begin(), w.end(), rw2.begin(), rw2.end()) and std::equal(l.begin(), l.end(), rl.begin(), rl.end()), "arena: containers hold something else");
      ev("arena_containers");
    }
    VF_CHECK(a.position() == pos, "arena: position after a rewinder");
    dig(size); dig(pos - base);
  }
  VF_CHECK(not counts_blocks() or live_blocks() <= b0 + 60, "arena: blocks leak"); // counters of this run may grow a little
}

// A block taken beyond the buffer may begin exactly where the buffer ends.
static void case_adjacent(Rng& g)
{
  const std::size_t size = 1 + g.below(200);
  if (not side_by_side(1)) return;
  {
    mem::arena a(size);
    char* const base = a.position();
    std::vector<Block> in;
    while (g.chance(3, 4) and a.position() < base + size) { const std::size_t n = 1 + g.below(static_cast<u32>(base + size - a.position())); in.push_back({a.allocate(n), n, 0, true}); }
    const std::size_t left = base + size - a.position();
    side_by_side(1);
    const std::size_t n = left + 1 + g.below(50);
    char* const p = a.allocate(n);
    VF_CHECK(p == base + size, "monitor: blocks are not side by side");
    std::memset(p, 3, n);
    char* const z = left == 0 ? a.allocate(0) : nullptr; // nothing, at the very end of the buffer
    a.deallocate(p, n);
    if (left == 0) a.deallocate(z, 0);
    VF_CHECK(side_blocks() == 1, "arena: a block that begins where the buffer ends is not given back");
    while (not in.empty()) { a.deallocate(in.back().p, in.back().n); in.pop_back(); }
    VF_CHECK(a.position() == base, "arena: position once everything is given back");
    ev("arena_adjacent");
    dig(size); dig(n);
  }
  VF_CHECK(side_blocks() == 0, "arena: blocks given back once too often or never");
}

// ------------------------------------------------------------------ powers of two
static void case_power(Rng& g)
{
  auto ref = [](u64 x) { u64 p = 1; while (p < x) p <<= 1; return p; };
  for (int b = 0; b < 63; ++b) for (u64 x : {(u64(1) << b), (u64(1) << b) + 1, (u64(1) << b) - 1, (u64(1) << b) + (g.next() & ((u64(1) << b) - 1))})
  {
    if (x < 1) continue;
    if (x <= (u64(1) << 62)) VF_CHECK(sdd::util::next_power_of_2(x) == ref(x), "next power of two of " << x << " (64 bits)");
    if (x <= (u64(1) << 31)) VF_CHECK(sdd::util::next_power_of_2(u32(x)) == ref(x), "next power of two of " << x << " (32 bits)");
  }
  ev("powers");
  dig(g.next());
}

// ------------------------------------------------------------------ a manager's statistics
static void case_manager(Rng& g)
{
  using S = sdd::SDD<C>;
  const Shape sh = random_shape(g, 1 + g.below(5), 2);
  const unsigned dom = 2 + g.below(4);
  V<C>::choose(g, dom);
  make_palette(g, sh.leaves, dom);
  const Sizes sz = random_sizes(g);
  auto m = sdd::init<C>(config<C>(sz));
  auto table_ok = [&](const mem::unique_table_statistics& s)
  {
    VF_CHECK(s.access == s.hits + s.misses, "statistics: " << s.access << " accesses, " << s.hits << " hits and " << s.misses << " misses");
    VF_CHECK(s.size <= s.peak and s.peak <= s.misses, "statistics: size " << s.size << " peak " << s.peak << " misses " << s.misses);
    VF_CHECK(power_of_2(s.buckets) and s.load_factor < 0.75 and s.collisions + s.alone + s.empty == s.buckets, "statistics: buckets");
  };
  auto cache_ok = [&](const mem::cache_statistics& s)
  {
    VF_CHECK(s.size <= s.buckets and s.size <= s.misses and s.discarded <= s.misses - s.size, "statistics: cache of " << s.size << " entries, " << s.misses << " misses, " << s.discarded << " discarded");
    VF_CHECK(s.collisions + s.alone + s.empty == s.buckets, "statistics: buckets");
  };
  auto total = [&] { return m.sdd_sum_cache_stats().misses + m.sdd_intersection_cache_stats().misses + m.sdd_difference_cache_stats().misses; };
  std::vector<S> pool{sdd::zero<C>(), sdd::one<C>()};
  for (unsigned n = 2 + g.below(4); n; --n) pool.push_back(mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 60)));
  std::size_t caps[3] = {0, 0, 0};
  for (unsigned n = 10 + g.below(30); n; --n)
  {
    const S a = pool[2 + g.below(pool.size() - 2)], b = pool[2 + g.below(pool.size() - 2)];
    const unsigned k = g.below(3);
    auto go = [&] { return k == 0 ? a + b : k == 1 ? (a & b) : a - b; };
    const S r = go();
    const auto t0 = total(); const auto nodes = m.sdd_stats().size;
    const S r2 = go();
    VF_CHECK(r == r2, "repeating an operation gives another diagram");
    VF_CHECK(total() == t0, "an operation repeated at once is computed again (" << total() - t0 << " misses)");
    VF_CHECK(m.sdd_stats().size == nodes, "an operation repeated at once creates nodes");
    ev("repeated");
    const mem::cache_statistics* cs[3] = {&m.sdd_sum_cache_stats(), &m.sdd_intersection_cache_stats(), &m.sdd_difference_cache_stats()};
    for (int i = 0; i < 3; ++i)
    {
      cache_ok(*cs[i]);
      if (cs[i]->discarded) { if (not caps[i]) caps[i] = cs[i]->size; VF_CHECK(cs[i]->size == caps[i], "statistics: a cache that evicts holds " << cs[i]->size << " then " << caps[i]); }
    }
    table_ok(m.sdd_stats()); table_ok(m.hom_stats());
    if (not r.empty() and r != sdd::one<C>()) pool.push_back(r);
    if (pool.size() > 12) pool.erase(pool.begin() + 2);
  }
  // Building a node that exists is a hit and creates nothing.
  {
    const auto before = m.sdd_stats(); const auto& s = m.sdd_stats();
    const S a = pool.back();
    std::vector<S> again(3, a);
    const S z = sdd::zero<C>(), o = sdd::one<C>();
    (void)z; (void)o;
    VF_CHECK(s.size == before.size and s.misses == before.misses, "copies of handles create nodes");
    ev("managers");
  }
  dig(m.sdd_stats().access); dig(m.sdd_stats().misses);
}

int main(int argc, char** argv)
{
  return run_cases(parse(argc, argv), [](Rng& g, u64 i)
  {
    g_spread = g.below(6);
    nontrivial(); dig(g_spread);
    switch (i % 8)
    {
      case 0: case_table(g); break;
      case 1: case_fixed(g); break;
      case 2: case_unique(g); break;
      case 3: if (i % 80 == 3) case_adjacent(g); else case_arena(g); break;
      case 4: case_manager(g); break;
      case 5: if (i % 64 == 5) case_power(g); else case_unique(g); break;
      default: case_cache(g);
    }
  });
}
