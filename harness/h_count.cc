// C03: counting and path enumeration.
#include "common.hh"
#include <boost/multiprecision/cpp_int.hpp>
using namespace vf;
using S = sdd::SDD<C>;
using Big = boost::multiprecision::cpp_int;
using Path = std::vector<std::vector<unsigned>>;

template <typename P> static Path decode(const P& p) { Path r; for (const auto& v : p) r.push_back(dec(v)); return r; }
static Big volume(const Path& p) { Big n = 1; for (auto& v : p) n *= v.size(); return n; }
static bool disjoint(const Path& a, const Path& b)
{
  for (std::size_t i = 0; i < a.size(); ++i)
  {
    std::vector<unsigned> c; std::set_intersection(a[i].begin(), a[i].end(), b[i].begin(), b[i].end(), std::back_inserter(c));
    if (c.empty()) return true;
  }
  return false;
}
static void well_formed(const Path& p, int leaves)
{
  VF_CHECK(int(p.size()) == leaves, "a path of " << p.size() << " sets of values for " << leaves << " variables");
  for (auto& v : p) VF_CHECK(not v.empty(), "a path with an empty set of values");
}
static Set cover(const std::vector<Path>& ps, int leaves, const char* what)
{
  Set all; std::size_t n = 0;
  for (auto& p : ps) { well_formed(p, leaves); const Set e = expand(p); n += e.size(); all.insert(all.end(), e.begin(), e.end()); }
  norm(all);
  VF_CHECK(all.size() == n, what << ": paths overlap");
  return all;
}

static void small(Rng& g)
{
  const int leaves = 1 + g.below(7); const unsigned dom = 2 + g.below(leaves <= 3 ? 12 : 3);
  V<C>::choose(g, dom);
  const Shape sh = random_shape(g, leaves, g.below(4));
  make_palette(g, leaves, dom);
  auto man = sdd::init<C>(config<C>(g.chance(1, 2) ? roomy() : random_sizes(g)));
  lg("small " + show(sh.items));
  struct E { S x; Set m; };
  std::vector<E> pool;
  for (unsigned i = 3 + g.below(4); i--;)
  {
    Set m; S x;
    for (unsigned k = 1 + g.below(5); k--;)
    {
      const auto b = random_box(g, leaves, dom, 60);
      const Set e = expand(b); const S bx = mk_box<C>(sh.items, b);
      if (g.chance(1, 4)) { m = s_diff(m, e); x -= bx; } else { m = s_union(m, e); x += bx; }
    }
    VF_CHECK(x.size() == m.size(), "size is " << x.size() << " for " << show(m));
    dig(hash_of(m)); if (m.size() > 1) nontrivial(); lg(show(m));
    ev("sizes"); ev("enumerations");
    if (not m.empty())
    {
      std::vector<Path> ps; auto gen = x.paths(); for (const auto& p : gen) ps.push_back(decode(p));
      const Set c = cover(ps, leaves, "enumeration");
      VF_CHECK(c == m, "paths cover " << show(c) << " instead of " << show(m));
      ev("paths", ps.size());
    }
    else
    {
      // the enumeration of the empty diagram names no assignment
      auto gen = x.paths(); unsigned n = 0; for (const auto& p : gen) { ++n; VF_CHECK(p.empty(), "the empty diagram has a path"); }
      VF_CHECK(n <= 1, "the empty diagram has paths");
    }
    pool.push_back({x, m});
  }
  // several enumerations at once, advanced in random order, with other work in between, on handles that die
  struct G { sdd::path_generator<C> gen; Set m; std::vector<Path> ps; bool abandon; unsigned until; };
  std::vector<std::unique_ptr<G>> gens;
  for (unsigned i = 1 + g.below(5); i--;)
  {
    const auto& e = g.pick(pool);
    if (e.m.empty()) continue;
    std::unique_ptr<G> n(new G{e.x.paths(), e.m, {}, g.chance(1, 4), g.below(6)});
    if (g.chance(1, 3)) { sdd::path_generator<C> other(std::move(n->gen)); n->gen = std::move(other); ev("generators_moved"); }
    gens.push_back(std::move(n));
  }
  if (gens.size() > 1) ev("interleaved");
  const bool drop = g.chance(1, 2);
  if (drop) { pool.erase(pool.begin(), pool.begin() + pool.size() / 2 + g.below(pool.size() / 2 + 1)); ev("outlived_handles"); }
  while (not gens.empty())
  {
    const unsigned i = g.below(gens.size());
    auto& q = *gens[i];
    if (not q.gen)
    {
      const Set c = cover(q.ps, leaves, "interleaved enumeration");
      VF_CHECK(c == q.m, "interleaved enumeration covers " << show(c) << " instead of " << show(q.m));
      gens.erase(gens.begin() + i);
      continue;
    }
    if (q.abandon and q.ps.size() >= q.until) { ev("abandoned"); gens.erase(gens.begin() + i); continue; }
    q.ps.push_back(decode(q.gen.get()));
    for (auto& t : expand(q.ps.back())) VF_CHECK(s_has(q.m, t), "a path outside of the diagram: " << show(t));
    q.gen();
    if (g.chance(1, 3) and not pool.empty())
    {
      const auto b = random_box(g, leaves, dom, 30);
      S y = mk_box<C>(sh.items, b); const auto& e = g.pick(pool);
      y = g.chance(1, 2) ? y + e.x : e.x - y; ev("work_between");
    }
  }
  for (auto& e : pool) expect_set<C>(e.x, sh, e.m, "held");
}

// Boxes over many variables: sizes far beyond 64 bits.
static void big(Rng& g)
{
  const int leaves = 10 + g.below(g.chance(1, 4) ? 200 : 60);
  const unsigned dom = std::min<unsigned>(V<C>::max_domain, 2 + g.below(g.chance(1, 2) ? 60 : 8));
  V<C>::choose(g, dom);
  palette().clear();
  const Shape sh = random_shape(g, leaves, g.below(5));
  Sizes sz = g.chance(1, 2) ? roomy() : random_sizes(g);
  sz.dif = sz.inter = sz.sum = 4000; // without caches operations on deep diagrams take exponential time, by design
  auto man = sdd::init<C>(config<C>(sz));
  const unsigned n = 1 + g.below(4);
  std::vector<Box> bs; S x;
  lg("big " + std::to_string(leaves) + " leaves, " + std::to_string(n) + " boxes");
  for (unsigned i = 0; i < n; ++i)
  {
    Box b;
    if (i and g.chance(2, 3)) { b = bs[g.below(i)]; for (unsigned k = 1 + g.below(3); k--;) b[g.below(leaves)] = random_values(g, dom, dom); }
    else for (int l = 0; l < leaves; ++l) b.push_back(random_values(g, dom, dom));
    bs.push_back(b); x += mk_box<C>(sh.items, b);
  }
  Big want = 0;
  for (unsigned mask = 1; mask < (1u << n); ++mask)
  {
    Path p; int bits = 0; bool empty = false;
    for (unsigned i = 0; i < n; ++i) if (mask >> i & 1)
    {
      ++bits;
      if (p.empty()) p = bs[i];
      else for (int l = 0; l < leaves; ++l) { std::vector<unsigned> c; std::set_intersection(p[l].begin(), p[l].end(), bs[i][l].begin(), bs[i][l].end(), std::back_inserter(c)); p[l] = c; empty = empty or c.empty(); }
    }
    if (not empty) { if (bits & 1) want += volume(p); else want -= volume(p); }
  }
  const Big got = x.size();
  VF_CHECK(got == want, "size is " << got << " instead of " << want << " (" << n << " boxes over " << leaves << " variables)");
  mx("max_bits", want == 0 ? 0 : msb(want) + 1); ev("big_sizes"); if (want > Big(1) << 64) ev("beyond_64_bits");
  dig(want.str()); nontrivial();
  // Enumerate when it is short enough.
  std::vector<Path> ps; bool all = true;
  { auto gen = x.paths(); for (const auto& p : gen) { if (ps.size() == 150) { all = false; break; } ps.push_back(decode(p)); } }
  Big sum = 0;
  for (std::size_t i = 0; i < ps.size(); ++i)
  {
    well_formed(ps[i], leaves); sum += volume(ps[i]);
    for (std::size_t j = 0; j < i; ++j) VF_CHECK(disjoint(ps[i], ps[j]), "two paths overlap");
    if (i < 20) VF_CHECK((mk_box<C>(sh.items, ps[i]) - x).empty(), "a path outside of the diagram");
  }
  if (all) { VF_CHECK(sum == want, "the paths hold " << sum << " assignments instead of " << want); ev("big_enumerations"); } else ev("abandoned");
  const S rest = x - mk_box<C>(sh.items, ps[0]);
  VF_CHECK(rest.size() == want - volume(ps[0]), "size after removing one path is " << rest.size());
}

static void deep(Rng& g)
{
  const int leaves = 300 + g.below(1200);
  V<C>::choose(g, 3); palette().clear();
  Items is;
  const int group = g.chance(1, 2) ? 0 : 20 + g.below(60);
  if (not group) is = random_items(g, leaves, 0);
  else for (int left = leaves; left > 0;) { const int k = std::min(left, group); Item i; i.nested = random_items(g, k, 0); is.push_back(i); left -= k; }
  const Shape sh = finish(is);
  auto man = sdd::init<C>(config<C>(roomy()));
  lg("deep " + std::to_string(leaves));
  const Box b = random_box(g, leaves, 3, 3000);
  S x = mk_box<C>(sh.items, b);
  Box c = b; c[g.below(leaves)] = {g.below(3)}; c[leaves - 1] = {2};
  x += mk_box<C>(sh.items, c);
  Set dummy;
  Big want = volume(b) + volume(c); { Path p = b; bool e = false; for (int l = 0; l < leaves; ++l) { std::vector<unsigned> i; std::set_intersection(b[l].begin(), b[l].end(), c[l].begin(), c[l].end(), std::back_inserter(i)); e = e or i.empty(); p[l] = i; } if (not e) want -= volume(p); }
  VF_CHECK(x.size() == want, "size of a deep diagram is " << x.size() << " instead of " << want);
  Big sum = 0; unsigned n = 0;
  { auto gen = x.paths(); for (const auto& p : gen) { const auto d = decode(p); well_formed(d, leaves); sum += volume(d); ++n; } }
  VF_CHECK(sum == want, "the " << n << " paths of a deep diagram hold " << sum << " assignments instead of " << want);
  mx("max_levels", leaves); ev("deep"); dig(want.str()); dig(leaves); nontrivial();
}

static void terminals()
{
  auto man = sdd::init<C>();
  VF_CHECK(sdd::zero<C>().size() == 0 and sdd::one<C>().size() == 1, "sizes of terminals");
  unsigned n = 0; auto gen = sdd::one<C>().paths(); for (const auto& p : gen) { ++n; VF_CHECK(p.empty(), "|1| has a path with values"); }
  VF_CHECK(n == 1, "|1| has " << n << " paths");
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  return run_cases(o, [&](Rng& g, u64 i)
  {
    if (i == 0) terminals();
    const unsigned k = g.below(60);
    if (k == 0) deep(g); else if (k < 16) big(g); else small(g);
  });
}
