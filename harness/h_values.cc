// C12: sets of values against std::set, over random histories.
#include "common.hh"
using namespace vf;

template <typename T> struct ConfOf : public sdd::flat_set_default_configuration { using Identifier = unsigned; using Values = sdd::values::flat_set<T>; };

// ------------------------------------------------------------------ drawing values
template <typename T> struct Draw
{
  std::vector<T> dom;
  T any(Rng& g) const { return g.pick(dom); }
};
template <typename T> Draw<T> domain(Rng& g, std::true_type /*integral*/)
{
  Draw<T> d; const unsigned n = 2 + g.below(g.chance(1, 4) ? 60 : 10);
  const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  std::set<T> s;
  switch (g.below(4))
  {
    case 0: for (unsigned i = 0; i < n; ++i) s.insert(T(i)); break;
    case 1: for (unsigned i = 0; i < n; ++i) s.insert(i % 2 ? T(hi - T(i)) : T(lo + T(i))); break;
    case 2: while (s.size() < n) s.insert(T(g.next())); break;
    default: { T b = T(g.next()); for (unsigned i = 0; i < n; ++i) s.insert(T(u64(b) + i + (i > n / 2 ? 3 : 0))); break; }
  }
  d.dom.assign(s.begin(), s.end());
  return d;
}
template <typename T> Draw<T> domain(Rng& g, std::false_type)
{
  Draw<T> d; std::set<T> s; const unsigned n = 2 + g.below(12);
  while (s.size() < n) { std::string x; for (unsigned k = g.below(g.chance(1, 5) ? 60 : 4); k--;) x += char('a' + g.below(3)); s.insert(x); }
  d.dom.assign(s.begin(), s.end());
  return d;
}
static std::string str(const std::string& s) { return "\"" + s + "\""; }
template <typename T> std::string str(const T& t) { return std::to_string(t); }
template <typename M> std::string showm(const M& m) { std::string r = "{"; for (auto& x : m) { if (r.size() > 1) r += ','; r += str(x); } return r + "}"; }
template <typename M> M mu(const M& a, const M& b) { M r(a); r.insert(b.begin(), b.end()); return r; }
template <typename M> M mi(const M& a, const M& b) { M r; for (auto& x : a) if (b.count(x)) r.insert(x); return r; }
template <typename M> M md(const M& a, const M& b) { M r; for (auto& x : a) if (not b.count(x)) r.insert(x); return r; }

// the ranges a..b of the textual output, for integers
template <typename T> std::string printed(const std::set<T>& m, std::true_type)
{
  std::ostringstream o; o << "{"; bool first = true;
  for (auto it = m.begin(); it != m.end(); )
  {
    auto last = it;
    for (auto n = std::next(last); n != m.end() and *last != std::numeric_limits<T>::max() and T(*last + 1) == *n; ++n) last = n;
    if (not first) o << ","; first = false;
    o << *it; if (last != it) o << ".." << *last;
    it = std::next(last);
  }
  o << "}"; return o.str();
}
template <typename T> std::string printed(const std::set<T>& m, std::false_type) { std::string r = "{"; bool first = true; for (auto& x : m) { if (not first) r += ","; first = false; r += x; } return r + "}"; }

// every pair of held sets: equality, hash, order
template <typename P> void relations(const P& pool, const char* when)
{
  using Vs = decltype(pool[0].v);
  for (std::size_t i = 0; i < pool.size(); ++i) for (std::size_t j = 0; j < pool.size(); ++j)
  {
    const auto &a = pool[i], &b = pool[j];
    const bool same = a.m == b.m;
    VF_CHECK((a.v == b.v) == same, when << ": " << showm(a.m) << (same ? " differs from its equal" : " equals another set ") << showm(b.m));
    VF_CHECK((a.v != b.v) == not same, when << ": != disagrees with ==");
    if (same) VF_CHECK(std::hash<std::decay_t<Vs>>()(a.v) == std::hash<std::decay_t<Vs>>()(b.v), when << ": equal sets hash differently " << showm(a.m));
    const bool l = a.v < b.v, r = b.v < a.v;
    VF_CHECK(not (l and r) and (l or r) == not same, when << ": < is not a total order consistent with == on " << showm(a.m) << " and " << showm(b.m));
    ev(same ? "equal_pairs" : "different_pairs");
    for (std::size_t k = 0; k < pool.size(); k += 2) if (l and b.v < pool[k].v) VF_CHECK(a.v < pool[k].v, when << ": < is not transitive");
  }
}

// ------------------------------------------------------------------ flat_set
template <typename T> void flat(Rng& g)
{
  using Conf = ConfOf<T>; using Vs = sdd::values::flat_set<T>; using M = std::set<T>;
  using Int = typename std::is_integral<T>::type;
  struct E { Vs v; M m; std::size_t hash; };
  Conf conf; conf.flat_set_unique_table_size = g.chance(1, 2) ? 1 + g.below(4) : 1000; conf.sdd_unique_table_size = 8; conf.hom_unique_table_size = 8;
  conf.sdd_difference_cache_size = conf.sdd_intersection_cache_size = conf.sdd_sum_cache_size = conf.hom_cache_size = 8; conf.sdd_arena_size = 1024;
  auto man = sdd::init<Conf>(conf);
  const u64 live0 = man.values_stats().size;
  const auto d = domain<T>(g, Int());
  {
  std::vector<E> pool;
  auto check = [&](const E& e, const char* what)
  {
    VF_CHECK(e.v.size() == e.m.size() and e.v.empty() == e.m.empty(), what << ": size " << e.v.size() << " for " << showm(e.m));
    VF_CHECK(sdd::values::empty_values(e.v) == e.m.empty(), what << ": empty_values");
    VF_CHECK(std::vector<T>(e.v.begin(), e.v.end()) == std::vector<T>(e.m.begin(), e.m.end()), what << ": iteration gives other values than " << showm(e.m));
    VF_CHECK(std::vector<T>(e.v.cbegin(), e.v.cend()) == std::vector<T>(e.m.begin(), e.m.end()), what << ": constant iteration gives other values than " << showm(e.m));
    VF_CHECK(std::vector<T>(e.v.rbegin(), e.v.rend()) == std::vector<T>(e.m.rbegin(), e.m.rend()), what << ": reverse iteration gives other values than " << showm(e.m));
    VF_CHECK(std::vector<T>(e.v.crbegin(), e.v.crend()) == std::vector<T>(e.m.rbegin(), e.m.rend()), what << ": constant reverse iteration gives other values than " << showm(e.m));
    VF_CHECK(std::hash<Vs>()(e.v) == e.hash, what << ": the hash of a held set changed");
    for (int i = 3; i--;)
    {
      const T x = d.any(g);
      VF_CHECK((e.v.find(x) != e.v.end()) == (e.m.count(x) == 1) and e.v.count(x) == e.m.count(x), what << ": lookup of " << str(x) << " in " << showm(e.m));
      if (e.m.count(x)) VF_CHECK(*e.v.find(x) == x, what << ": find designates another value");
      const auto lb = e.m.lower_bound(x), ub = e.m.upper_bound(x);
      VF_CHECK(std::distance(e.v.begin(), e.v.lower_bound(x)) == std::distance(e.m.begin(), lb), what << ": lower_bound of " << str(x) << " in " << showm(e.m));
      VF_CHECK(std::distance(e.v.begin(), e.v.upper_bound(x)) == std::distance(e.m.begin(), ub), what << ": upper_bound of " << str(x) << " in " << showm(e.m));
    }
    if (sizeof(T) > 1) { std::ostringstream o; o << e.v; VF_CHECK(o.str() == printed<T>(e.m, Int()), what << ": printed as " << o.str() << " instead of " << printed<T>(e.m, Int())); }
  };
  auto add = [&](Vs v, M m, const char* what)
  {
    E e{v, m, std::hash<Vs>()(v)};
    for (auto& x : m) dig(std::hash<T>()(x)); dig(std::string(what)); if (m.size() > 1) nontrivial();
    check(e, what); ev(what);
    if (pool.size() < 12) pool.push_back(e); else { const unsigned k = g.below(12); pool[k] = e; }
  };
  for (unsigned step = 30 + g.below(50); step--;)
  {
    switch (pool.size() < 2 ? g.below(4) : g.below(16))
    {
      case 0: { std::vector<T> r; for (unsigned n = g.below(12); n--;) r.push_back(d.any(g)); add(Vs(r.begin(), r.end()), M(r.begin(), r.end()), "from_range"); break; } // any order, repetitions
      case 1: { const T a = d.any(g), b = d.any(g), c = d.any(g); add(Vs{a, b, c}, M{a, b, c}, "from_list"); break; }
      case 2: { typename Vs::data_type fs; M m; for (unsigned n = g.below(8); n--;) { const T x = d.any(g); fs.insert(x); m.insert(x); } add(Vs(std::move(fs)), m, "from_data"); break; }
      case 3: add(Vs(), M(), "default"); break;
      case 4: case 5: case 6: // insertion
      {
        E e = g.pick(pool); const Vs before = e.v; const M bm = e.m;
        const T x = d.any(g);
        const auto r = e.v.insert(x);
        const bool fresh = e.m.insert(x).second;
        VF_CHECK(r.second == fresh, "insert of " << str(x) << " in " << showm(bm) << " returns " << r.second);
        VF_CHECK(r.first != e.v.end() and *r.first == x, "insert of " << str(x) << " returns an iterator to another value");
        VF_CHECK(std::distance(e.v.begin(), r.first) == std::distance(e.m.begin(), e.m.find(x)), "insert of " << str(x) << " in " << showm(bm) << " returns an iterator that is not into the resulting set");
        VF_CHECK(std::vector<T>(before.begin(), before.end()) == std::vector<T>(bm.begin(), bm.end()), "insertion changed a copy made before");
        add(e.v, e.m, fresh ? "inserted" : "insert_present");
        break;
      }
      case 7: case 8:
      {
        E e = g.pick(pool); const Vs before = e.v; const M bm = e.m;
        const bool inside = not e.m.empty() and g.chance(1, 2);
        std::size_t n, want; const T x = inside ? *std::next(e.m.begin(), g.below(u32(e.m.size()))) : d.any(g);
        want = e.m.erase(x);
        if (inside and g.chance(1, 2)) n = e.v.erase(*e.v.find(x)); else n = e.v.erase(x);
        VF_CHECK(n == want, "erase of " << str(x) << " from " << showm(bm) << " returns " << n);
        VF_CHECK(std::vector<T>(before.begin(), before.end()) == std::vector<T>(bm.begin(), bm.end()), "removal changed a copy made before");
        add(e.v, e.m, want ? "erased" : "erase_absent");
        break;
      }
      case 9: { const E a = g.pick(pool), b = g.pick(pool); add(sum(a.v, b.v), mu(a.m, b.m), "union"); break; }
      case 10: { const E a = g.pick(pool), b = g.pick(pool); add(intersection(a.v, b.v), mi(a.m, b.m), "intersection"); break; }
      case 11: { const E a = g.pick(pool), b = g.pick(pool); add(difference(a.v, b.v), md(a.m, b.m), "difference"); break; }
      case 12: { E a = g.pick(pool), b = g.pick(pool); using std::swap; swap(a.v, b.v); swap(a.m, b.m); Vs c(std::move(a.v)); Vs e; e = std::move(c); add(e, a.m, "moved"); e = e; add(e, a.m, "self_assigned"); break; }
      case 13: pool.erase(pool.begin() + g.below(u32(pool.size()))); ev("dropped"); break;
      case 14: if (g.chance(1, 4)) { pool.clear(); ev("all_dropped"); } break;
      default: { const E a = g.pick(pool); M m = a.m; std::vector<T> r(m.begin(), m.end()); for (std::size_t i = r.size(); i > 1; --i) std::swap(r[i-1], r[g.below(u32(i))]); Vs v; for (auto& x : r) v.insert(x); add(v, m, "rebuilt"); break; }
    }
    for (auto& e : pool) check(e, "held");
    if (step % 4 == 0 or step < 2) relations(pool, "pool");
  }
  }
  VF_CHECK(man.values_stats().size == live0, "sets of values left after all were dropped: " << man.values_stats().size << ", " << live0 << " before");
}

// ------------------------------------------------------------------ bitset
template <std::size_t N> void bits(Rng& g)
{
  using Vs = sdd::values::bitset<N>; using M = std::set<std::size_t>;
  struct E { Vs v; M m; std::size_t hash; };
  std::vector<E> pool;
  auto check = [&](const E& e, const char* what)
  {
    VF_CHECK(e.v.size() == e.m.size() and e.v.empty() == e.m.empty() and sdd::values::empty_values(e.v) == e.m.empty(), what << ": size " << e.v.size() << " for " << showm(e.m));
    M got; for (std::size_t i = 0; i < N; ++i) { if (e.v.content()[i]) got.insert(i); VF_CHECK(e.v.test(i) == (e.m.count(i) == 1), what << ": test(" << i << ") in " << showm(e.m)); }
    VF_CHECK(got == e.m, what << ": holds " << showm(got) << " instead of " << showm(e.m));
    VF_CHECK(std::hash<Vs>()(e.v) == e.hash, what << ": the hash changed");
    std::ostringstream o; o << e.v; VF_CHECK(o.str() == showm(e.m), what << ": printed as " << o.str() << " instead of " << showm(e.m));
  };
  auto add = [&](Vs v, M m, const char* what)
  {
    E e{v, m, std::hash<Vs>()(v)};
    dig(N); for (auto& x : m) dig(x); dig(std::string(what)); if (m.size() > 1) nontrivial();
    check(e, what); ev(what);
    if (pool.size() < 10) pool.push_back(e); else { const unsigned k = g.below(10); pool[k] = e; }
  };
  // few values, so that equal sets meet; the extremes included
  std::vector<std::size_t> dom{0, N - 1}; for (int i = 0; i < 5; ++i) dom.push_back(g.below(N)); if (N > 64) { dom.push_back(63); dom.push_back(64); }
  for (unsigned step = 30 + g.below(40); step--;)
  {
    switch (pool.size() < 2 ? g.below(3) : g.below(12))
    {
      case 0: add(Vs(), M(), "bit_default"); break;
      case 1: { const auto a = g.pick(dom), b = g.pick(dom), c = g.pick(dom); add(Vs{a, b, c}, M{a, b, c}, "bit_from_list"); break; }
      case 2: { std::bitset<N> s; M m; for (unsigned n = g.below(6); n--;) { const auto x = g.pick(dom); s.set(x); m.insert(x); } if (g.chance(1, 8)) { s.set(); for (std::size_t i = 0; i < N; ++i) m.insert(i); } add(Vs(s), m, "bit_from_std"); break; }
      case 3: case 4: { E e = g.pick(pool); const auto x = g.chance(1, 4) ? g.below(N) : g.pick(dom); Vs& r = e.v.insert(x); e.m.insert(x); VF_CHECK(&r == &e.v, "insert returns another set"); add(e.v, e.m, "bit_inserted"); break; }
      case 5: { const E a = g.pick(pool), b = g.pick(pool); add(sum(a.v, b.v), mu(a.m, b.m), "bit_union"); break; }
      case 6: { const E a = g.pick(pool), b = g.pick(pool); add(intersection(a.v, b.v), mi(a.m, b.m), "bit_intersection"); break; }
      case 7: { const E a = g.pick(pool), b = g.pick(pool); add(difference(a.v, b.v), md(a.m, b.m), "bit_difference"); break; }
      case 8: { const E a = g.pick(pool); const std::size_t k = g.chance(1, 5) ? g.below(2 * N + 2) : g.below(4); M m; for (auto x : a.m) if (x + k < N) m.insert(x + k); add(a.v << k, m, "bit_shifted_up"); break; }
      case 9: { const E a = g.pick(pool); const std::size_t k = g.chance(1, 5) ? g.below(2 * N + 2) : g.below(4); M m; for (auto x : a.m) if (x >= k) m.insert(x - k); add(a.v >> k, m, "bit_shifted_down"); break; }
      case 10: { E a = g.pick(pool), b = g.pick(pool); swap(a.v, b.v); std::swap(a.m, b.m); add(a.v, a.m, "bit_swapped"); Vs c(a.v); c = b.v; add(c, b.m, "bit_assigned"); break; }
      default: // out of range: refused, unchanged
      {
        E e = g.pick(pool); bool r = false;
        try { e.v.insert(N + g.below(70)); } catch (const std::out_of_range&) { r = true; }
        VF_CHECK(r, "inserting a value beyond the capacity of a bitset is accepted"); check(e, "refused"); ev("bit_refused");
        break;
      }
    }
    for (auto& e : pool) check(e, "held");
    if (step % 4 == 0) relations(pool, "pool");
  }
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  return run_cases(o, [&](Rng& g, u64)
  {
    switch (g.below(14))
    {
      case 0: case 1: flat<unsigned>(g); break;
      case 2: flat<int>(g); break;
      case 3: flat<unsigned long>(g); break;
      case 4: case 5: flat<std::string>(g); break;
      case 6: flat<short>(g); break;
      case 7: bits<1>(g); break;
      case 8: bits<7>(g); break;
      case 9: bits<63>(g); break;
      case 10: bits<64>(g); break;
      case 11: bits<65>(g); break;
      case 12: bits<128>(g); break;
      default: bits<200>(g); break;
    }
  });
}
