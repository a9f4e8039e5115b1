// Shared machinery of the monitors: deterministic random source, verdicts, coverage counters,
// case loop, reference model of diagrams (explicit sets of assignments), structural observers.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

#include "sdd/sdd.hh"

#ifndef VF_CONF
#define VF_CONF 1
#endif
#ifndef VF_BUILD
#define VF_BUILD ""
#endif

namespace vf {

using u64 = std::uint64_t;
using u32 = std::uint32_t;

// ------------------------------------------------------------------ random source
struct Rng
{
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next()
  {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u32 below(u32 n) { return n ? static_cast<u32>((next() >> 11) % n) : 0; }
  u32 in(u32 lo, u32 hi) { return lo + below(hi - lo + 1); }
  bool chance(u32 num, u32 den) { return below(den) < num; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

// ------------------------------------------------------------------ verdicts
struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };

[[noreturn]] inline void fail(const std::string& what) { throw Violation(what); }

// `what` is evaluated lazily: only when the monitored condition is false.
#define VF_CHECK(cond, what) do { ++vf::R().checks; if (not (cond)) { std::ostringstream _os; _os << what; vf::fail(_os.str()); } } while (0)

// ------------------------------------------------------------------ run-wide counters
struct Run
{
  u64 checks = 0;                       // monitored conditions evaluated
  std::map<std::string, u64> counters;  // events observed
  std::map<std::string, u64> maxima;
  std::vector<u64> digests;             // one per non-trivial case
  std::vector<std::string> samples;
  // of the current case
  u64 digest = 0;
  bool nontrivial = false;
  std::string log;                      // short trace of the current case
  bool want_log = false;
};
inline Run& R() { static Run r; return r; }
inline void ev(const char* k, u64 n = 1) { R().counters[k] += n; }
inline void mx(const char* k, u64 v) { auto& m = R().maxima[k]; if (v > m) m = v; }
inline void dig(u64 x) { R().digest = mix(R().digest, x); }
inline void dig(const std::string& s) { u64 h = 7; for (unsigned char c : s) h = mix(h, c); dig(h); }
inline void nontrivial() { R().nontrivial = true; }
inline bool logging() { return R().want_log; }
inline void lg(const std::string& s) { if (R().want_log and R().log.size() < 4000) { R().log += s; R().log += "; "; } }

inline std::string jesc(const std::string& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' or c == '\\') { r += '\\'; r += c; }
    else if (c < 32 or c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

// ------------------------------------------------------------------ case loop
// Arguments: --seed S --from A --to B [--step K] --progress FILE --out FILE [--mode NAME]
struct Options
{
  u64 seed = 1, from = 0, to = 1, step = 1;
  std::string progress, out, mode;
  bool lenient = false; // only abnormal endings matter (C07): a wrong result is another property's business
};

inline Options parse(int argc, char** argv)
{
  Options o;
  for (int i = 1; i + 1 < argc; i += 2)
  {
    const std::string k = argv[i], v = argv[i+1];
    if (k == "--seed") o.seed = std::stoull(v);
    else if (k == "--from") o.from = std::stoull(v);
    else if (k == "--to") o.to = std::stoull(v);
    else if (k == "--step") o.step = std::stoull(v);
    else if (k == "--progress") o.progress = v;
    else if (k == "--out") o.out = v;
    else if (k == "--mode") o.mode = v;
    else if (k == "--lenient") o.lenient = v == "1";
    else { std::cerr << "unknown option " << k << "\n"; std::exit(3); }
  }
  return o;
}

void case_begin(u64 alloc_seed); // provided by alloc.cc or by alloc_none.cc, like the next ones
bool counts_blocks(); u64 live_blocks(); u64 live_bytes();
bool side_by_side(int blocks); int side_blocks(); // the next blocks are contiguous; how many of those are live

inline int run_cases(const Options& o, const std::function<void(Rng&, u64 idx)>& one)
{
  int pfd = -1;
  if (not o.progress.empty()) pfd = open(o.progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  auto& r = R();
  for (u64 i = o.from; i < o.to; i += o.step)
  {
    if (pfd >= 0)
    {
      char b[32]; const int n = std::snprintf(b, sizeof b, "%020llu\n", (unsigned long long)i);
      if (pwrite(pfd, b, n, 0) != n) return 3;
    }
    Rng rng(mix(mix(mix(o.seed, 0x5eed), VF_CONF + 16 * (sizeof(VF_BUILD) + 8 * VF_BUILD[0])), i));
    r.digest = 0; r.nontrivial = false; r.log.clear();
    r.want_log = (o.to - o.from <= o.step) or ((i / o.step) % 97 == 0 and r.samples.size() < 3);
    case_begin(rng.next());
    try
    {
      one(rng, i);
    }
    catch (const Violation& v)
    {
      if (o.lenient) { ++r.counters["results_not_judged_here"]; ++r.counters["cases"]; continue; }
      std::cout << "CASE-VIOLATION idx=" << i << " " << v.what() << std::endl;
      if (r.want_log) std::cout << "TRACE " << r.log << std::endl;
      _exit(10);
    }
    catch (const std::exception& e)
    {
      if (o.lenient) { ++r.counters["results_not_judged_here"]; ++r.counters["cases"]; continue; }
      std::cout << "CASE-VIOLATION idx=" << i << " unexpected exception: " << e.what() << std::endl;
      if (r.want_log) std::cout << "TRACE " << r.log << std::endl;
      _exit(10);
    }
    ++r.counters["cases"];
    if (r.nontrivial) r.digests.push_back(r.digest);
    if (r.want_log and r.nontrivial and r.samples.size() < 3)
      r.samples.push_back("case " + std::to_string(i) + ": " + r.log);
  }
  if (not o.out.empty())
  {
    std::ofstream f(o.out);
    f << "{\"checks\":" << r.checks << ",\"counters\":{";
    bool first = true;
    for (auto& c : r.counters) { f << (first ? "" : ",") << '"' << c.first << "\":" << c.second; first = false; }
    f << "},\"maxima\":{";
    first = true;
    for (auto& c : r.maxima) { f << (first ? "" : ",") << '"' << c.first << "\":" << c.second; first = false; }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : r.samples) { f << (first ? "" : ",") << '"' << jesc(s) << '"'; first = false; }
    f << "],\"digests\":[";
    first = true;
    for (auto d : r.digests) { f << (first ? "" : ",") << '"' << std::hex << d << std::dec << '"'; first = false; }
    f << "]}\n";
  }
  std::cout << "SHARD-OK" << std::endl;
  return 0;
}

// ------------------------------------------------------------------ reference model
// An assignment gives a model value (0..) to each leaf of the order, top to bottom.
using Tuple = std::u16string;
using Set = std::vector<Tuple>; // sorted, without duplicates

inline void norm(Set& s) { std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); }
inline Set s_union(const Set& a, const Set& b) { Set r; r.reserve(a.size() + b.size()); std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
inline Set s_inter(const Set& a, const Set& b) { Set r; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
inline Set s_diff(const Set& a, const Set& b) { Set r; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
inline bool s_has(const Set& a, const Tuple& t) { return std::binary_search(a.begin(), a.end(), t); }

inline std::string show(const Tuple& t) { std::string r = "("; for (auto c : t) { if (r.size() > 1) r += ','; r += std::to_string(unsigned(c)); } return r + ")"; }
inline std::string show(const Set& s)
{
  std::string r = "{"; std::size_t n = 0;
  for (auto& t : s) { if (n++ == 12) { r += "...(" + std::to_string(s.size()) + ")"; break; } r += show(t); }
  return r + "}";
}
inline u64 hash_of(const Set& s) { u64 h = s.size(); for (auto& t : s) for (auto c : t) h = mix(h, c + 1); return h; }

// ------------------------------------------------------------------ orders (shapes)
struct Item
{
  int lo = 0, hi = 0;         // leaves covered
  std::vector<Item> nested;   // empty: a leaf
  int id = 0;                 // unique number
  bool leaf() const { return nested.empty(); }
};
using Items = std::vector<Item>;

struct Shape
{
  Items items;
  int leaves = 0;
  int ids = 0;
};

inline void number(Items& is, int& leaf, int& id)
{
  for (auto& i : is)
  {
    i.id = id++;
    i.lo = leaf;
    if (i.leaf()) ++leaf; else number(i.nested, leaf, id);
    i.hi = leaf;
  }
}
inline Shape finish(Items is) { Shape s; s.items = std::move(is); number(s.items, s.leaves, s.ids); return s; }

// Random list of items holding exactly n leaves, nested at most `depth` more levels.
inline Items random_items(Rng& g, int n, int depth)
{
  Items r;
  while (n > 0)
  {
    Item i;
    if (depth > 0 and g.chance(2, 5))
    {
      const int k = 1 + g.below(std::min(n, 5));
      i.nested = random_items(g, k, depth - 1);
      n -= k;
    }
    else --n;
    r.push_back(i);
  }
  return r;
}
inline Shape random_shape(Rng& g, int n, int depth) { return finish(random_items(g, n, depth)); }

inline std::string show(const Items& is)
{
  std::string r = "[";
  for (auto& i : is) { if (r.size() > 1) r += ' '; r += i.leaf() ? "l" + std::to_string(i.lo) : show(i.nested); }
  return r + "]";
}
inline int depth_of(const Items& is) { int d = 1; for (auto& i : is) if (not i.leaf()) d = std::max(d, 1 + depth_of(i.nested)); return d; }

// ------------------------------------------------------------------ configurations and values
// Model values are mapped to library values by an injection chosen per case.
struct ValueMap
{
  std::vector<u64> to;
  std::unordered_map<u64, unsigned> from;
  void set(std::vector<u64> v)
  {
    to = std::move(v); from.clear();
    for (unsigned i = 0; i < to.size(); ++i) from[to[i]] = i;
  }
};
inline ValueMap& VM() { static ValueMap m; return m; }
inline void identity_map(unsigned n) { std::vector<u64> v; for (unsigned i = 0; i < n; ++i) v.push_back(i); VM().set(v); }

inline std::vector<u64> distinct_values(Rng& g, unsigned n, u64 limit) // n distinct values < limit
{
  std::set<u64> s; std::vector<u64> v;
  while (v.size() < n) { const u64 x = g.next() % limit; if (s.insert(x).second) v.push_back(x); }
  return v;
}

template <typename Values> struct VT;
template <std::size_t N> struct VT<sdd::values::bitset<N>>
{
  using type = sdd::values::bitset<N>;
  enum : unsigned { max_domain = N };
  static type make(const std::vector<unsigned>& xs) { type r; for (auto x : xs) r.insert(VM().to[x]); return r; }
  static std::vector<u64> raw(const type& v) { std::vector<u64> r; const auto c = v.content(); for (std::size_t i = 0; i < N; ++i) if (c[i]) r.push_back(i); return r; }
  static void choose(Rng& g, unsigned dom)
  {
    if (g.chance(1, 3)) { identity_map(dom); return; }
    VM().set(distinct_values(g, dom, N));
  }
};
template <typename T> struct VT<sdd::values::flat_set<T>>
{
  using type = sdd::values::flat_set<T>;
  enum : unsigned { max_domain = 1000 };
  static type make(const std::vector<unsigned>& xs) { type r; std::vector<T> v; for (auto x : xs) v.push_back(static_cast<T>(VM().to[x])); return type(v.begin(), v.end()); }
  static std::vector<u64> raw(const type& v) { std::vector<u64> r; for (auto x : v) r.push_back(x); return r; }
  static void choose(Rng& g, unsigned dom)
  {
    switch (g.below(4))
    {
      case 0: identity_map(dom); return;
      case 1: VM().set(distinct_values(g, dom, 4 * dom)); return;
      case 2: { std::vector<u64> v; const u64 top = 0xffffffffull; for (unsigned i = 0; i < dom; ++i) v.push_back(i % 2 ? top - i : i); VM().set(v); return; }
      default: VM().set(distinct_values(g, dom, 0x100000000ull)); return;
    }
  }
};
template <typename C> using V = VT<typename C::Values>;
template <typename Vs> std::vector<unsigned> dec(const Vs& v)
{
  std::vector<unsigned> r;
  for (auto x : VT<Vs>::raw(v))
  {
    auto it = VM().from.find(x);
    if (it == VM().from.end()) fail("a valuation holds a value never given: " + std::to_string(x));
    r.push_back(it->second);
  }
  std::sort(r.begin(), r.end());
  return r;
}

template <typename Id> struct IdT;
template <> struct IdT<std::string> { static std::string make(int i) { return "v" + std::to_string(i); } };
template <> struct IdT<unsigned int> { static unsigned make(int i) { return 7u + 3u * unsigned(i); } };
template <typename C> typename C::Identifier ident(int i) { return IdT<typename C::Identifier>::make(i); }

// One executable per configuration (VF_CONF): smaller compilations, run side by side.
struct conf_bitset128 : public sdd::default_configuration { using Identifier = std::string; using Values = sdd::values::bitset<128>; };
struct conf_small_types : public sdd::flat_set_default_configuration
{
  using Identifier = unsigned int; using Values = sdd::values::flat_set<unsigned int>;
  using variable_type = unsigned char; using operands_size_type = std::uint16_t; using alpha_size_type = std::uint32_t;
};
#if VF_CONF == 0
using C = sdd::conf0;
#elif VF_CONF == 1
using C = sdd::conf1;
#elif VF_CONF == 2
using C = conf_small_types;
#else
using C = conf_bitset128;
#endif

struct Sizes { std::size_t ut, dif, inter, sum, arena, hut, hc, fs; };
inline Sizes roomy() { return {2000, 2000, 2000, 2000, 1 << 20, 2000, 2000, 500}; }
inline Sizes random_sizes(Rng& g)
{
  auto sz = [&](std::size_t lo) -> std::size_t { switch (g.below(4)) { case 0: return lo; case 1: return lo + g.below(6); case 2: return 8 + g.below(60); default: return 1000; } };
  const std::size_t arenas[] = {1, 16, 64, 256, 1024, 4096, 1 << 16, 1 << 20};
  return {sz(1), sz(2), sz(2), sz(2), arenas[g.below(8)], sz(1), sz(2), sz(1)};
}
template <typename C, typename = void> struct set_fs { static void go(C&, std::size_t) {} };
template <typename C> struct set_fs<C, decltype(void(std::declval<C&>().flat_set_unique_table_size))> { static void go(C& c, std::size_t n) { c.flat_set_unique_table_size = n; } };
template <typename C> C config(const Sizes& s)
{
  C c;
  c.sdd_unique_table_size = s.ut; c.sdd_difference_cache_size = s.dif; c.sdd_intersection_cache_size = s.inter;
  c.sdd_sum_cache_size = s.sum; c.sdd_arena_size = s.arena; c.hom_unique_table_size = s.hut; c.hom_cache_size = s.hc;
  set_fs<C>::go(c, s.fs);
  return c;
}
inline std::string show(const Sizes& s)
{
  std::ostringstream o; o << "ut=" << s.ut << " caches=" << s.dif << "/" << s.inter << "/" << s.sum << " arena=" << s.arena << " hut=" << s.hut << " hc=" << s.hc << " fs=" << s.fs;
  return o.str();
}

// ------------------------------------------------------------------ building diagrams
using Box = std::vector<std::vector<unsigned>>; // one sorted non-empty list of values per leaf

template <typename C> sdd::SDD<C> mk_box(const Items& is, const Box& b, std::size_t i = 0)
{
  if (i == is.size()) return sdd::one<C>();
  const auto succ = mk_box<C>(is, b, i + 1);
  const unsigned var = static_cast<unsigned>(is.size() - 1 - i);
  if (is[i].leaf()) return sdd::SDD<C>(var, V<C>::make(b[is[i].lo]), succ);
  return sdd::SDD<C>(var, mk_box<C>(is[i].nested, b, 0), succ);
}
inline Box box_of(const Tuple& t) { Box b; for (auto c : t) b.push_back({unsigned(c)}); return b; }
template <typename C> sdd::SDD<C> mk_tuple(const Shape& s, const Tuple& t) { return mk_box<C>(s.items, box_of(t)); }

inline Set expand(const Box& b)
{
  Set r{Tuple()};
  for (auto& vs : b)
  {
    Set n; n.reserve(r.size() * vs.size());
    for (auto& t : r) for (auto v : vs) n.push_back(t + char16_t(v));
    r.swap(n);
  }
  norm(r);
  return r;
}
inline std::vector<unsigned> random_values(Rng& g, unsigned dom, unsigned maxk)
{
  const unsigned k = 1 + g.below(std::min(dom, maxk));
  std::set<unsigned> s;
  if (g.chance(1, 3)) { const unsigned a = g.below(dom - k + 1); for (unsigned i = 0; i < k; ++i) s.insert(a + i); } // a range
  else while (s.size() < k) s.insert(g.below(dom));
  return {s.begin(), s.end()};
}
// Per case and leaf, a few sets of values that boxes are drawn from, so that boxes overlap.
inline std::vector<std::vector<std::vector<unsigned>>>& palette() { static std::vector<std::vector<std::vector<unsigned>>> p; return p; }
inline void make_palette(Rng& g, int leaves, unsigned dom)
{
  palette().clear();
  for (int i = 0; i < leaves; ++i)
  {
    palette().emplace_back();
    for (int k = 0; k < 4; ++k) palette().back().push_back(random_values(g, dom, 1 + g.below(dom)));
  }
}
// A random box of at most `cap` assignments.
inline Box random_box(Rng& g, int leaves, unsigned dom, u64 cap)
{
  if (int(palette().size()) == leaves and g.chance(1, 2))
  {
    Box b; u64 n = 1;
    for (int i = 0; i < leaves; ++i)
    {
      auto vs = g.pick(palette()[i]);
      if (n * vs.size() > cap) vs = {vs[vs.size() / 2]};
      n *= vs.size(); b.push_back(vs);
    }
    return b;
  }
  Box b(leaves);
  u64 n = 1;
  std::vector<int> ord(leaves); for (int i = 0; i < leaves; ++i) ord[i] = i;
  for (int i = leaves - 1; i > 0; --i) std::swap(ord[i], ord[g.below(i + 1)]);
  for (int i : ord)
  {
    const u64 room = cap / n;
    b[i] = random_values(g, dom, room < 1 ? 1 : static_cast<unsigned>(std::min<u64>(room, g.chance(1, 3) ? 1 : 1 + g.below(dom))));
    n *= b[i].size();
  }
  return b;
}

// Build the diagram of a given set, by one of several routes.
template <typename C> sdd::SDD<C> build(Rng& g, const Shape& sh, const Set& s, int route = -1)
{
  using S = sdd::SDD<C>;
  if (route < 0) route = g.below(5);
  std::vector<Tuple> ts(s.begin(), s.end());
  for (std::size_t i = ts.size(); i > 1; --i) std::swap(ts[i-1], ts[g.below(i)]);
  switch (route)
  {
    case 0: { S r; for (auto& t : ts) r = r + mk_tuple<C>(sh, t); return r; }
    case 1: { std::vector<S> v; for (auto& t : ts) v.push_back(mk_tuple<C>(sh, t)); return sdd::sum<C>(v.begin(), v.end()); }
    case 2: // balanced tree of unions
    {
      std::vector<S> v; for (auto& t : ts) v.push_back(mk_tuple<C>(sh, t));
      while (v.size() > 1) { std::vector<S> n; for (std::size_t i = 0; i < v.size(); i += 2) n.push_back(i + 1 < v.size() ? v[i] + v[i+1] : v[i]); v.swap(n); }
      return v.empty() ? sdd::zero<C>() : v[0];
    }
    case 3: // too much, then remove
    {
      S r, extra;
      for (auto& t : ts)
      {
        r += mk_tuple<C>(sh, t);
        Tuple u = t; if (not u.empty()) { const auto k = g.below(u.size()); u[k] = ts[g.below(ts.size())][k]; }
        if (not s_has(s, u)) extra += mk_tuple<C>(sh, u);
      }
      return (r + extra) - extra;
    }
    default: // by intersection of two over-approximations
    {
      S a, b;
      for (auto& t : ts)
      {
        const auto x = mk_tuple<C>(sh, t);
        a += x; b += x;
        Tuple u = t; if (not u.empty()) { const auto k = g.below(u.size()); u[k] = ts[g.below(ts.size())][k]; }
        if (not s_has(s, u)) { if (hash_of({u}) & 1) a += mk_tuple<C>(sh, u); else b += mk_tuple<C>(sh, u); } // never in both
      }
      return a & b;
    }
  }
}

// ------------------------------------------------------------------ observing diagrams
// Independent traversal: the denoted set, checking the structure of each node on the way.
template <typename C>
struct Observer
{
  using S = sdd::SDD<C>;
  std::map<std::pair<const void*, std::size_t>, std::unordered_map<S, Set>> memo; // (scope, level) -> node -> set
  bool structure = true;
  u64 nodes = 0, arcs = 0;
  u64 cap = 200000;

  struct Visit
  {
    Observer& o; const Items& is; std::size_t i;
    Set operator()(const sdd::zero_terminal<C>&) const
    {
      if (o.structure) fail("|0| is reachable below a node");
      return {};
    }
    Set operator()(const sdd::one_terminal<C>&) const
    {
      if (i != is.size()) fail("|1| reached before the last level");
      return {Tuple()};
    }
    template <typename N> void head(const N& n) const
    {
      if (i >= is.size()) fail("node below the last level");
      if (n.variable() != is.size() - 1 - i)
        fail("node with variable " + std::to_string(n.variable()) + " at level " + std::to_string(is.size() - 1 - i));
      ++o.nodes;
      if (n.begin() == n.end()) fail("node without arcs");
      std::unordered_set<S> succs;
      std::size_t k = 0;
      for (const auto& a : n)
      {
        ++k; ++o.arcs;
        if (a.successor().empty()) fail("arc to |0|");
        if (not succs.insert(a.successor()).second) fail("two arcs with the same successor");
      }
      if (k != std::size_t(n.size())) fail("node size differs from its number of arcs");
    }
    Set operator()(const sdd::flat_node<C>& n) const
    {
      head(n);
      if (not is[i].leaf()) fail("flat node at a hierarchical level");
      Set r; std::set<unsigned> seen;
      for (const auto& a : n)
      {
        const auto vs = dec(a.valuation());
        if (vs.empty()) fail("arc with an empty set of values");
        for (auto v : vs) if (not seen.insert(v).second) fail("overlapping valuations in a flat node");
        const auto succ = a.successor();
        const Set& rest = o.set(succ, is, i + 1);
        for (auto v : vs) for (auto& t : rest) r.push_back(Tuple(1, char16_t(v)) + t);
        if (r.size() > o.cap) throw std::length_error("observer: set too large");
      }
      norm(r);
      return r;
    }
    Set operator()(const sdd::hierarchical_node<C>& n) const
    {
      head(n);
      if (is[i].leaf()) fail("hierarchical node at a flat level");
      Set r; std::set<Tuple> seen;
      for (const auto& a : n)
      {
        if (a.valuation().empty()) fail("arc with an empty nested diagram");
        const Set vs = o.set(a.valuation(), is[i].nested, 0);
        for (auto& v : vs) if (not seen.insert(v).second) fail("overlapping valuations in a hierarchical node");
        const auto succ = a.successor();
        const Set& rest = o.set(succ, is, i + 1);
        for (auto& v : vs) for (auto& t : rest) r.push_back(v + t);
        if (r.size() > o.cap) throw std::length_error("observer: set too large");
      }
      norm(r);
      return r;
    }
  };

  const Set& set(const S& x, const Items& is, std::size_t i)
  {
    auto& m = memo[{&is, i}];
    const auto it = m.find(x);
    if (it != m.end()) return it->second;
    Set r = visit(Visit{*this, is, i}, x);
    return m.emplace(x, std::move(r)).first->second;
  }
};

template <typename C> Set observe(const sdd::SDD<C>& x, const Shape& sh)
{
  if (x.empty()) return {};
  Observer<C> o;
  Set r = o.set(x, sh.items, 0);
  ev("nodes_observed", o.nodes);
  mx("max_set", r.size());
  return r;
}

template <typename C> sdd::order_builder<C> to_builder(const Items& is)
{
  sdd::order_builder<C> ob;
  for (auto it = is.rbegin(); it != is.rend(); ++it)
  {
    if (it->leaf()) ob.push(ident<C>(it->id));
    else ob.push(ident<C>(it->id), to_builder<C>(it->nested));
  }
  return ob;
}

template <typename C> void expect_set(const sdd::SDD<C>& x, const Shape& sh, const Set& want, const char* what)
{
  const Set got = observe<C>(x, sh);
  VF_CHECK(got == want, what << ": got " << show(got) << " expected " << show(want) << " over " << show(sh.items));
}

} // namespace vf
