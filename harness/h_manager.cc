// C13: lifetimes of managers, over several configurations.
#include "terms.hh"
using namespace vf;

// an unrelated configuration, and one that shares its type of values with C
struct Other : public sdd::flat_set_default_configuration { using Identifier = unsigned; using Values = sdd::values::flat_set<unsigned short>; };
struct Twin : public C {};

template <typename M> auto values_live(const M& m, int) -> decltype(u64(m.values_stats().size)) { return m.values_stats().size; }
template <typename M> u64 values_live(const M&, long) { return 0; }

struct Birth
{
  u64 sdd, hom, val, caches, counts;
  bool operator==(const Birth& o) const { return sdd == o.sdd and hom == o.hom and val == o.val and caches == o.caches and counts == o.counts; }
};
static std::ostream& operator<<(std::ostream& os, const Birth& b) { return os << "(" << b.sdd << " nodes, " << b.hom << " terms, " << b.val << " sets of values, " << b.caches << " cached, " << b.counts << " counted)"; }
template <typename M> Birth birth(const M& m)
{
  Birth b; b.sdd = m.sdd_stats().size; b.hom = m.hom_stats().size; b.val = values_live(m, 0);
  b.caches = 0; b.counts = 0;
  for (auto* c : {&m.sdd_difference_cache_stats(), &m.sdd_intersection_cache_stats(), &m.sdd_sum_cache_stats(), &m.hom_cache_stats()})
  { b.caches += c->size; b.counts += c->hits + c->misses + c->filtered + c->discarded; }
  return b;
}

template <typename M> auto values_buckets(const M& m, int) -> decltype(u64(m.values_stats().buckets)) { return m.values_stats().buckets; }
template <typename M> u64 values_buckets(const M&, long) { return 0; }

template <typename K, bool Homs> struct Life
{
  using S = sdd::SDD<K>; using H = sdd::homomorphism<K>;
  Rng& g; const char* name;
  std::vector<sdd::manager<K>> copies;
  struct E { S x; Set m; std::size_t hash; };
  struct World { Shape sh; std::unique_ptr<Scope<K>> sc; std::vector<E> pool; struct T { H h; TermP t; }; std::vector<T> terms; };
  std::unique_ptr<World> w; // never outlives the manager
  std::map<std::string, std::map<u64, u64>> rooms; bool born = false; Birth first{0, 0, 0, 0, 0}; unsigned lives = 0;
  Life(Rng& r, const char* n) : g(r), name(n) {}
  bool live() const { return not copies.empty(); }
  Sizes sizes() { return random_sizes(g); }

  // init as allowed: works, and everything starts from scratch
  void start()
  {
    const Sizes sz = sizes();
    lg(std::string("init ") + name + " " + show(sz));
    copies.push_back(sdd::init<K>(config<K>(sz)));
    ++lives; mx("max_lives", lives);
    const Birth b = birth(copies[0]);
    VF_CHECK(b.caches == 0 and b.counts == 0, name << ": a new life starts with " << b);
    if (not born) { first = b; born = true; } else { VF_CHECK(b == first, name << ": life " << lives << " starts with " << b << ", the first one with " << first); ev("reborn"); }
    // the sizes asked for are those in effect, whatever the previous life had
    {
      const auto& m = copies[0];
      const std::pair<const char*, std::pair<u64, u64>> tables[] = {
        {"nodes", {sz.ut, m.sdd_stats().buckets}}, {"terms", {sz.hut, m.hom_stats().buckets}}, {"values", {sz.fs, values_buckets(m, 0)}},
        {"differences", {sz.dif, m.sdd_difference_cache_stats().buckets}}, {"intersections", {sz.inter, m.sdd_intersection_cache_stats().buckets}},
        {"unions", {sz.sum, m.sdd_sum_cache_stats().buckets}}, {"applications", {sz.hc, m.hom_cache_stats().buckets}}};
      for (auto& t : tables)
      {
        const u64 want = t.second.first, got = t.second.second;
        if (t.first == std::string("values") and got == 0) continue; // values without a table
        VF_CHECK(got >= want, name << ": asked for " << want << " " << t.first << ", the table has room for " << got << " in life " << lives);
        auto& known = rooms[t.first]; const auto k = known.emplace(want, got);
        VF_CHECK(k.first->second == got, name << ": asked for " << want << " " << t.first << ", the table has room for " << got << " in life " << lives << ", " << k.first->second << " in a former one");
        if (not k.second) ev("same_sizes");
      }
    }
    w.reset(new World);
    w->sh = random_shape(g, 2 + g.below(4), g.below(3));
    w->sc.reset(new Scope<K>(w->sh.items));
    work();
  }
  // init refused: raises, whatever is asked for
  void refused(const char* why)
  {
    bool raised = false;
    try { auto m = sdd::init<K>(config<K>(sizes())); } catch (const std::runtime_error&) { raised = true; }
    VF_CHECK(raised, name << ": init is accepted although " << why);
    ev("refused");
  }
  void put(S x, Set m) { expect_set<K>(x, w->sh, m, name); const std::size_t h = std::hash<S>()(x); if (m.size() > 100) return; dig(vf::hash_of(m)); if (m.size() > 1) nontrivial(); if (w->pool.size() < 6) w->pool.push_back({x, m, h}); else w->pool[g.below(6)] = {x, m, h}; }
  void work()
  {
    const unsigned dom = 3;
    for (unsigned i = 1 + g.below(5); i--;) switch (w->pool.size() < 2 ? 0 : g.below(6))
    {
      case 0: { const auto b = random_box(g, w->sh.leaves, dom, 20); put(mk_box<K>(w->sh.items, b), expand(b)); break; }
      case 1: { const E a = g.pick(w->pool), b = g.pick(w->pool); put(a.x + b.x, s_union(a.m, b.m)); break; }
      case 2: { const E a = g.pick(w->pool), b = g.pick(w->pool); put(a.x - b.x, s_diff(a.m, b.m)); break; }
      case 3: { const E a = g.pick(w->pool), b = g.pick(w->pool); put(a.x & b.x, s_inter(a.m, b.m)); break; }
      default: homs(std::integral_constant<bool, Homs>()); break;
    }
    ev("work");
  }
  void homs(std::false_type) { const E a = g.pick(w->pool); const E b = g.pick(w->pool); const H h = sdd::constant(a.x); put(h(w->sc->ord, b.x), b.m.empty() ? Set{} : a.m); }
  void homs(std::true_type)
  {
    Gen<K> gen{g, 3};
    const TermP t = not w->terms.empty() and g.chance(1, 3) ? g.pick(w->terms).t : g.chance(1, 4) ? gen.net(*w->sc) : gen.any(*w->sc, g.below(3), true, false);
    H h = make<K>(*t, *w->sc); if (g.chance(1, 3)) h = sdd::rewrite(w->sc->ord, h);
    const E a = g.pick(w->pool);
    put(h(w->sc->ord, a.x), Ref<K>::eval(*t, *w->sc, a.m));
    if (w->terms.size() < 4) w->terms.push_back({make<K>(*t, *w->sc), t});
    ev("terms_used");
  }
  void held(const char* when)
  {
    if (not live()) return;
    for (auto& e : w->pool) { expect_set<K>(e.x, w->sh, e.m, when); VF_CHECK(std::hash<S>()(e.x) == e.hash, name << " " << when << ": the hash of a held diagram changed"); }
    for (auto& t : w->terms) VF_CHECK(make<K>(*t.t, *w->sc) == t.h, name << " " << when << ": a held term differs from the same term built again");
    ev("held_checks");
  }
  void step(const std::function<bool()>& may, const char* why)
  {
    if (not live())
    {
      if (may()) start(); else refused(why);
      return;
    }
    switch (g.below(9))
    {
      case 0: refused("it is live"); held("after a refused init"); work(); break;
      case 1: case 2: if (copies.size() < 5) { copies.push_back(g.pick(copies)); ev("copies"); } break;
      case 3: case 4: // drop one copy; the last one ends the life
        if (copies.size() > 1)
        {
          if (g.chance(1, 3)) { auto m = std::move(copies[0]); copies.erase(copies.begin()); copies.push_back(m); ev("moved"); }
          else copies.erase(copies.begin() + g.below(u32(copies.size())));
          held("after a copy of the manager is gone"); work();
          ev("copies_dropped");
        }
        else if (g.chance(2, 3)) end();
        break;
      case 5: { auto m = g.pick(copies); m.reset_hom_cache(); } VF_CHECK(g.pick(copies).hom_cache_stats().size == 0, name << ": reset through a copy of the manager has no effect"); break;
      case 6: { const auto& a = g.pick(copies); const auto& b = g.pick(copies); VF_CHECK(birth(a) == birth(b), name << ": copies of the manager report different things"); break; }
      default: work(); break;
    }
  }
  void end() { if (not live()) return; lg(std::string("end ") + name); w.reset(); copies.clear(); ev("ended"); }
};

static void go(Rng& g)
{
  identity_map(64); palette().clear(); hash_mask() = ~0ull;
  const u64 b0 = live_blocks();
  {
    Life<C, true> a(g, "A"); Life<Other, true> b(g, "B"); Life<Twin, false> c(g, "C");
    for (unsigned i = 25 + g.below(40); i--;)
    {
      switch (g.below(5))
      {
        case 0: case 1: a.step([&] { return not c.live(); }, "another live configuration manages its type of values"); break;
        case 2: case 3: b.step([&] { return true; }, ""); break;
        default: c.step([&] { return not a.live(); }, "another live configuration manages its type of values"); if (c.live() and a.live()) fail("two live configurations share one type of values"); if (c.live() and g.chance(1, 2)) c.end(); break;
      }
      if (g.chance(1, 3)) { a.held("between"); b.held("between"); c.held("between"); }
      if (a.live() and b.live()) ev("coexist");
    }
    a.held("at the end"); b.held("at the end"); c.held("at the end");
    if (g.chance(1, 2)) { a.end(); b.held("after another configuration ended"); } else { b.end(); a.held("after another configuration ended"); }
    a.end(); b.end(); c.end();
    // each can live again
    for (int i = 0; i < 2; ++i) { c.start(); c.end(); a.start(); b.start(); a.end(); b.held("after another configuration ended"); b.end(); }
  }
  if (counts_blocks()) { const u64 b = live_blocks(); VF_CHECK(b <= b0 + 64, "blocks left after all managers are gone: " << b - b0); }
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  return run_cases(o, [&](Rng& g, u64) { go(g); });
}
