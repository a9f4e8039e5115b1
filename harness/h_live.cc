// C08: what is held never changes; what is dropped is reclaimed.
#include "terms.hh"
using namespace vf;
using S = sdd::SDD<C>;
using H = sdd::homomorphism<C>;

template <typename M> auto values_live(const M& m, int) -> decltype(u64(m.values_stats().size)) { return m.values_stats().size; }
template <typename M> u64 values_live(const M&, long) { return 0; }

struct Live { u64 sdd, hom, val; bool operator==(const Live& o) const { return sdd == o.sdd and hom == o.hom and val == o.val; } };
static std::ostream& operator<<(std::ostream& os, const Live& l) { return os << "(" << l.sdd << " nodes, " << l.hom << " terms, " << l.val << " sets of values)"; }
static Live live(const sdd::manager<C>& m) { return {m.sdd_stats().size, m.hom_stats().size, values_live(m, 0)}; }

struct Held { S x; Set m; std::size_t hash; };
struct HeldH { H h; TermP t; std::size_t hash; };

static void go(Rng& g, u64)
{
  identity_map(64); palette().clear();
  hash_mask() = g.chance(1, 6) ? 3 : ~0ull;
  const int leaves = 2 + g.below(5);
  const unsigned dom = leaves <= 3 ? 2 + g.below(4) : 2 + g.below(2);
  const Shape sh = random_shape(g, leaves, g.below(4));
  Sizes sz = random_sizes(g);
  // caches small enough to be flushed by ordinary work
  // (at most 14 entries, the flush makes 36 or more distinct operations of each kind)
  sz.dif = 2 + g.below(12); sz.inter = 2 + g.below(12); sz.sum = 2 + g.below(12); sz.hc = 2 + g.below(200);
  lg("order " + show(sh.items) + " " + show(sz));
  const u64 blocks0 = live_blocks();
  {
  auto man = sdd::init<C>(config<C>(sz));
  const Scope<C> sc(sh.items);
  Gen<C> gen{g, dom};

  // Flush: push everything else out of the caches with a fixed series of operations on fixed diagrams.
  // (one-level diagrams: what their operations leave in the caches does not depend on addresses).
  std::vector<S> fx; for (unsigned i = 0; i < 9; ++i) fx.push_back(S(0, V<C>::make({i, 50u}), sdd::one<C>()));
  Spec fs; fs.kind = F_GROW; fs.a = 1; fs.dom = dom;
  const H f1 = sdd::function(sc.ord, ident<C>(Gen<C>::leaf_id(sh.items, 0)), UserFun<C, 0>{fs});
  auto flush = [&]()
  {
    // the set of operands used to build the last saturation fixpoint is kept by the library
    sdd::rewrite(sc.ord, sdd::fixpoint(sdd::sum<C>(sc.ord, {f1, sdd::id<C>(), sdd::inductive<C>(IndDeep<C>{fs})})));
    man.reset_hom_cache();
    for (auto& a : fx) for (auto& b : fx) { S t = a + b; t = a - b; t = a & b; }
  };
  std::vector<Held> held; std::vector<HeldH> heldh;
  auto check_held = [&](const char* when)
  {
    for (auto& k : held)
    {
      expect_set<C>(k.x, sh, k.m, when);
      VF_CHECK(std::hash<S>()(k.x) == k.hash, when << ": the hash of a held diagram changed");
    }
    for (std::size_t i = 0; i < held.size(); ++i) for (std::size_t j = 0; j < i; ++j)
      VF_CHECK((held[i].x == held[j].x) == (held[i].m == held[j].m), when << ": equality of held diagrams changed");
    for (auto& k : heldh)
    {
      VF_CHECK(std::hash<H>()(k.h) == k.hash, when << ": the hash of a held term changed");
      VF_CHECK(make<C>(*k.t, sc) == k.h, when << ": a held term differs from the same term built again");
    }
    ev("held_checks", held.size() + heldh.size());
  };

  flush(); flush();
  Live base = live(man);
  u64 bytes0 = 0, max_after = 0;
  const unsigned rounds = 3 + g.below(5);
  for (unsigned round = 0; round < rounds; ++round)
  {
    {
      // work of this round, all dropped at its end
      std::vector<Held> pool; std::vector<HeldH> terms; std::vector<S> copies;
      for (unsigned i = 10 + g.below(20); i--;)
      {
        switch (pool.size() < 2 ? 0 : g.below(10))
        {
          case 0: case 1:
          {
            // a plain construction involves no cache: dropping it is visible at once
            const Live before = live(man);
            const auto b = random_box(g, sh.leaves, dom, 30);
            { S x = mk_box<C>(sh.items, b); S y = x; S z(std::move(x)); y = z; }
            VF_CHECK(live(man) == before, "building and dropping a diagram leaves " << live(man) << " instead of " << before);
            S x = mk_box<C>(sh.items, b);
            pool.push_back({x, expand(b), std::hash<S>()(x)});
            break;
          }
          case 2: { const Held a = g.pick(pool), b = g.pick(pool); S x = a.x + b.x; pool.push_back({x, s_union(a.m, b.m), std::hash<S>()(x)}); break; }
          case 3: { const Held a = g.pick(pool), b = g.pick(pool); S x = a.x - b.x; pool.push_back({x, s_diff(a.m, b.m), std::hash<S>()(x)}); break; }
          case 4: { const Held a = g.pick(pool), b = g.pick(pool); S x = a.x & b.x; pool.push_back({x, s_inter(a.m, b.m), std::hash<S>()(x)}); break; }
          case 5: case 6:
          {
            const TermP t = gen.any(sc, g.below(3), true, false);
            const Live before = live(man);
            { const H h = make<C>(*t, sc); const H h2 = h; H h3(h2); h3 = h; }
            VF_CHECK(live(man).hom == before.hom, "building and dropping a term leaves " << live(man) << " instead of " << before << ": " << show(*t));
            const H h = make<C>(*t, sc);
            const Held a = g.pick(pool);
            S x = h(sc.ord, a.x);
            const Set m = Ref<C>::eval(*t, sc, a.m);
            if (m.size() <= 200) pool.push_back({x, m, std::hash<S>()(x)});
            terms.push_back({h, t, std::hash<H>()(h)});
            break;
          }
          case 7: { const TermP t = gen.net(sc); const H h = sdd::rewrite(sc.ord, make<C>(*t, sc)); S x = h(sc.ord, g.pick(pool).x); copies.push_back(x); break; }
          case 8: { auto gen2 = g.pick(pool).x.paths(); if (gen2) gen2(); copies.push_back(g.pick(pool).x); (void)g.pick(pool).x.size(); break; }
          default: if (pool.size() > 2) pool.erase(pool.begin() + g.below(pool.size())); break;
        }
        if (pool.size() > 12) pool.erase(pool.begin());
      }
      // some of it stays held
      if (g.chance(1, 2) and held.size() < 6) { held.push_back(g.pick(pool)); }
      if (g.chance(1, 3) and heldh.size() < 4 and not terms.empty()) { heldh.push_back(g.pick(terms)); }
      dig(hash_of(pool.back().m)); nontrivial();
      check_held("during work");
    }
    flush();
    check_held("after work was dropped");
    flush();
    const Live now = live(man);
    if (held.empty() and heldh.empty())
    {
      VF_CHECK(now == base, "after dropping everything " << now << " remain, " << base << " before; round " << round);
      ev("exact_returns");
    }
    else
    {
      // dropping what was held as well must give the base back
      if (g.chance(1, 3))
      {
        held.clear(); heldh.clear(); flush();
        const Live then = live(man);
        VF_CHECK(then == base, "after dropping what was held " << then << " remain, " << base << " before; round " << round);
        ev("exact_returns");
      }
      // and the excess is bounded by what the held handles reach
      else if (heldh.empty())
      {
        Observer<C> ob; std::unordered_set<S> reach;
        std::function<void(const S&)> walk;
        struct Vis { std::function<void(const S&)>& w; std::unordered_set<S>& r;
          void operator()(const sdd::zero_terminal<C>&) const {} void operator()(const sdd::one_terminal<C>&) const {}
          void operator()(const sdd::flat_node<C>& n) const { for (auto& a : n) w(a.successor()); }
          void operator()(const sdd::hierarchical_node<C>& n) const { for (auto& a : n) { w(a.valuation()); w(a.successor()); } } };
        walk = [&](const S& s) { if (reach.insert(s).second) visit(Vis{walk, reach}, s); };
        for (auto& k : held) walk(k.x);
        VF_CHECK(now.sdd <= base.sdd + reach.size() and now.sdd >= base.sdd, "held diagrams reach " << reach.size() << " nodes, but " << now << " live, " << base << " before");
        ev("bounded_returns");
      }
    }
    if (counts_blocks())
    {
      // bytes: after two warm-up rounds the rest of the history does not add up
      const u64 b = live_bytes();
      if (round == 1) bytes0 = b; else if (round > 1) max_after = std::max(max_after, b);
    }
    ev("rounds");
  }
  if (counts_blocks() and rounds > 2) { VF_CHECK(max_after < bytes0 + (256 << 10), "live memory grew from " << bytes0 << " to " << max_after << " bytes over " << rounds << " rounds"); ev("memory_checks"); }
  check_held("at the end");
  }
  if (counts_blocks()) { const u64 b = live_blocks(); VF_CHECK(b <= blocks0 + 64, "blocks left after the manager is gone: " << b - blocks0); }
}

// A long history: counts and memory are flat.
static void history(Rng& g)
{
  identity_map(64); palette().clear(); hash_mask() = ~0ull;
  const Shape sh = random_shape(g, 4 + g.below(3), g.below(3));
  Sizes sz = random_sizes(g); sz.ut = 1 + g.below(100); sz.dif = sz.inter = sz.sum = 2 + g.below(50); sz.hc = 2 + g.below(100);
  auto man = sdd::init<C>(config<C>(sz));
  const Scope<C> sc(sh.items);
  Gen<C> gen{g, 3};
  u64 early = 0, late = 0, early_n = 0, late_n = 0;
  for (int i = 0; i < 1500; ++i)
  {
    {
      S a = mk_box<C>(sh.items, random_box(g, sh.leaves, 3, 60)), b = mk_box<C>(sh.items, random_box(g, sh.leaves, 3, 60));
      S c = (a + b) - (a & b);
      if (i % 5 == 0) { const H h = make<C>(*gen.any(sc, g.below(3), true, false), sc); c = h(sc.ord, c); }
      if (i % 25 == 0) { const H h = sdd::rewrite(sc.ord, make<C>(*gen.net(sc), sc)); h(sc.ord, a); }
    }
    if (i % 50 == 49)
    {
      man.reset_hom_cache();
      const Live l = live(man);
      const u64 n = l.sdd + l.hom + l.val, bytes = live_bytes();
      if (i >= 100 and i < 600) { early = std::max(early, bytes); early_n = std::max(early_n, n); }
      if (i >= 1000) { late = std::max(late, bytes); late_n = std::max(late_n, n); }
    }
  }
  VF_CHECK(late_n <= 2 * early_n + 200, "live objects grow over a history of dropped work: " << early_n << " then " << late_n);
  if (counts_blocks()) VF_CHECK(late <= 2 * early + (64 << 10), "live memory grows over a history of dropped work: " << early << " then " << late);
  ev("histories"); nontrivial(); dig(early_n);
}

// Many handles to one diagram and one term: what is left after most of them are gone stays the same.
static void crowd(Rng& g)
{
  identity_map(64); palette().clear(); hash_mask() = ~0ull;
  const unsigned dom = 3;
  const Shape sh = random_shape(g, 2 + g.below(4), g.below(3));
  Sizes sz = random_sizes(g);
  auto man = sdd::init<C>(config<C>(sz));
  const Scope<C> sc(sh.items);
  Gen<C> gen{g, dom};
  const Live base = live(man);
  const unsigned n = 65537 + g.below(3000), left = n - 65536;
  {
    const auto box = random_box(g, sh.leaves, dom, 40);
    std::vector<S> many(n, mk_box<C>(sh.items, box));
    const std::size_t hash = std::hash<S>()(many[0]);
    const Live full = live(man);
    many.resize(left);
    VF_CHECK(live(man) == full, "dropping some of the handles to a diagram leaves " << live(man) << " instead of " << full);
    S other = mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 40));
    expect_set<C>(many.back(), sh, expand(box), "one of many handles");
    VF_CHECK(many.back() == mk_box<C>(sh.items, box) and std::hash<S>()(many[0]) == hash, "one of many handles differs from the diagram built again");
    expect_set<C>(many[0] & many[left - 1], sh, expand(box), "one of many handles");
    many.resize(1); other = S();
    expect_set<C>(many[0], sh, expand(box), "the last of many handles");
    VF_CHECK(many[0] == mk_box<C>(sh.items, box), "the last of many handles differs from the diagram built again");
  }
  VF_CHECK(live(man) == base, "after dropping many handles to a diagram " << live(man) << " remain, " << base << " before");
  {
    const TermP t = gen.any(sc, 1 + g.below(2), true, false);
    std::vector<H> many(n, make<C>(*t, sc));
    const std::size_t hash = std::hash<H>()(many[0]);
    const Live full = live(man);
    many.erase(many.begin() + left, many.end());
    VF_CHECK(live(man) == full, "dropping some of the handles to a term leaves " << live(man) << " instead of " << full);
    { const H other = make<C>(*gen.any(sc, 2, true, false), sc); VF_CHECK(many[0] == make<C>(*t, sc) and std::hash<H>()(many[0]) == hash, "one of many handles differs from the term built again"); }
    const auto box = random_box(g, sh.leaves, dom, 40);
    expect_set<C>(many[0](sc.ord, mk_box<C>(sh.items, box)), sh, Ref<C>::eval(*t, sc, expand(box)), "one of many handles to a term");
    many.erase(many.begin() + 1, many.end());
    VF_CHECK(many[0] == make<C>(*t, sc), "the last of many handles differs from the term built again");
  }
  ev("crowds"); nontrivial(); dig(n);
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  return run_cases(o, [&](Rng& g, u64 i) { if (g.chance(1, 60)) history(g); else if (g.chance(1, 60)) crowd(g); else go(g, i); });
}
