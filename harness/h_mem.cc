// C07: hostile but valid use of handles, values, terms, orders and builders, watched by sanitizers, memcheck or
// the allocator monitor (leaks: every block is back once the manager is gone).
#include "terms.hh"
#include <boost/container/flat_set.hpp>
#ifdef VF_PATHS
#define VF_HAS_PATHS 1
#else
#define VF_HAS_PATHS 0
#endif
using namespace vf;
using S = sdd::SDD<C>;
using H = sdd::homomorphism<C>;
using O = sdd::order<C>;
using OB = sdd::order_builder<C>;

// x = <something inside x>, through references into the node
struct Inner
{
  S& x; Rng& g; bool by_valuation;
  bool operator()(const sdd::zero_terminal<C>&) const { return false; }
  bool operator()(const sdd::one_terminal<C>&) const { return false; }
  bool operator()(const sdd::flat_node<C>& n) const { auto it = n.begin(); for (unsigned k = g.below(n.size()); k--;) ++it; const auto& s = it->successor(); x = s; return true; }
  bool operator()(const sdd::hierarchical_node<C>& n) const
  {
    auto it = n.begin(); for (unsigned k = g.below(n.size()); k--;) ++it;
    if (by_valuation) { const auto& v = it->valuation(); x = v; } else { const auto& s = it->successor(); x = s; }
    return true;
  }
};

// references into a set of values, used to change that set
template <typename Vs> auto own_values(Rng& g, Vs& a, int) -> decltype(void(*a.begin()), void(a.erase(*a.begin())))
{
  if (a.empty()) return;
  auto it = a.begin(); for (unsigned k = g.below(a.size()); k--;) ++it;
  const auto& inside = *it;
  const auto copy = inside; const std::size_t n = a.size();
  switch (g.below(3))
  {
    case 0: VF_CHECK(a.erase(inside) == 1 and a.size() == n - 1 and a.find(copy) == a.end(), "erasing a value through a reference into the set"); break;
    case 1: { const auto r = a.insert(inside); VF_CHECK(not r.second and *r.first == copy and a.size() == n, "inserting a value through a reference into the set"); break; }
    default: { Vs b(a.begin(), a.end()); a = Vs(a.begin(), std::next(a.begin(), (n + 1) / 2)); VF_CHECK(b.size() == n and a.size() == (n + 1) / 2, "a set from its own range"); break; }
  }
  ev("own_values");
}
template <typename Vs> void own_values(Rng&, Vs& a, long) { a = sum(a, a); a = intersection(a, a); ev("own_values"); }

// x changed from references to its own valuation and successor
struct Own
{
  S& x; Rng& g;
  void operator()(const sdd::zero_terminal<C>&) const {}
  void operator()(const sdd::one_terminal<C>&) const {}
  template <typename N> void operator()(const N& n) const
  {
    auto it = n.begin(); for (unsigned k = g.below(n.size()); k--;) ++it;
    const auto& v = it->valuation(); const auto& s = it->successor(); const auto var = n.variable();
    switch (g.below(4))
    {
      case 0: x = S(var, v, s); break;
      case 1: x -= S(var, v, s); break;
      case 2: x &= S(var, v, s); break;
      default: { S t(var, v, s); swap(x, t); t += x; break; }
    }
    ev("own_parts");
  }
};

#ifndef VF_REDUCED
// h = <an operand of h>, through a reference into the term
struct InnerTerm
{
  H& h; Rng& g;
  bool operator()(const sdd::hom::_composition<C>& c) const { const H& r = g.chance(1, 2) ? c.left : c.right; h = r; return true; }
  bool operator()(const sdd::hom::_fixpoint<C>& c) const { const H& r = c.h; h = r; return true; }
  bool operator()(const sdd::hom::_local<C>& c) const { const H& r = c.h; h = r; return true; }
  bool operator()(const sdd::hom::_if_then_else<C>& c) const { const H& r = g.chance(1, 2) ? c.h_then : c.h_else; h = r; return true; }
  bool operator()(const sdd::hom::_sum<C>& c) const { auto it = c.begin(); for (unsigned k = g.below(c.size); k--;) ++it; const H& r = *it; h = r; return true; }
  template <typename T> bool operator()(const T&) const { return false; }
};
#endif

static void handles(Rng& g, const Shape& sh, const Scope<C>& sc, unsigned dom)
{
  std::vector<S> v;
  auto fresh = [&]() { return mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 40)); };
  for (int i = 0; i < 4; ++i) v.push_back(fresh());
  for (unsigned i = 20 + g.below(20); i--;)
  {
    S& a = v[g.below(v.size())]; S& b = v[g.below(v.size())];
    switch (g.below(23))
    {
      case 0: a = a; ev("self_assign"); break;
      case 20: case 21: { S x = fresh(); visit(Own{x, g}, x); v.push_back(x); break; }
      case 22: visit(Own{a, g}, a); break;
      case 1: { S& r = a; a = r + b; break; }
      case 2: { if (&a == &b) break; S t(std::move(a)); a = b; b = std::move(t); break; }
      case 3: swap(a, b); break;
      case 4: std::swap(a, b); ev("self_swap", &a == &b); break;
      case 5: a += a; a &= a; break;
      case 6: { S t = a; t -= t; a = t + a; break; }
      case 7: // walk down through references into the diagram held
      {
        S x = a; while (visit(Inner{x, g, g.chance(1, 2)}, S(x))) ev("inner_assign");
        S y = b; bool more = true; while (more) { more = visit([&](const auto& n) { return Inner{y, g, true}(n); }, y); ev("inner_assign_held"); }
        break;
      }
      case 8: { std::vector<S> w(v); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); S t = sdd::sum<C>(w.begin(), w.end()); v.push_back(t); break; }
      case 9: { std::unordered_map<S, int> m; for (auto& x : v) ++m[x]; std::set<S> s(v.begin(), v.end()); boost::container::flat_set<S> fs(v.begin(), v.end()); break; }
      case 10: v.erase(v.begin() + g.below(v.size())); v.push_back(fresh()); break;
      case 11: v.insert(v.begin() + g.below(v.size()), fresh()); break;
      case 12: { auto p = std::make_shared<S>(a - b); S t = *p; p.reset(); v.push_back(std::move(t)); break; }
      case 13: { S t; t = fresh(); S u = std::move(t); t = u; v.push_back(t); break; }
      case 14: { auto f = [a]() { return a; }; S t = f(); std::function<S()> h(f); t = h(); break; }
      case 15: { S t = (a + b) - (a & b); t = t + t; v.push_back(std::move(t)); break; }
      case 16: { const S& r = v.front(); S t = r; v.clear(); v.push_back(t); v.push_back(fresh()); v.push_back(fresh()); break; }
      case 17: { S x = fresh(), y = a; x = std::move(x); x = y; v.push_back(x); ev("self_move"); break; }
#if VF_HAS_PATHS
      case 18: { auto gen = std::unique_ptr<sdd::path_generator<C>>(new sdd::path_generator<C>(S(a).paths())); if (*gen) { auto p = gen->get(); gen.reset(); for (auto& q : p) (void)dec(q); } ev("generators"); break; }
#endif
      default: { std::ostringstream os; os << a; (void)a.size(); break; }
    }
    if (v.size() > 14) v.erase(v.begin(), v.begin() + 6);
  }
}

static void terms(Rng& g, const Shape& sh, const Scope<C>& sc, unsigned dom, sdd::manager<C>& man)
{
  Gen<C> gen{g, dom};
  std::vector<H> v{sdd::id<C>()};
  std::vector<S> xs; for (int i = 0; i < 3; ++i) xs.push_back(mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 40)));
  for (unsigned i = 12 + g.below(12); i--;)
  {
    H& a = v[g.below(v.size())]; H& b = v[g.below(v.size())];
    switch (g.below(14))
    {
#ifndef VF_REDUCED
      case 12: { H x = make<C>(*gen.any(sc, 3, true, false), sc); while (visit(InnerTerm{x, g}, x)) ev("inner_term"); break; }
      case 13: { H x = sdd::rewrite(sc.ord, make<C>(*gen.net(sc), sc)); while (visit(InnerTerm{x, g}, H(x))) ev("inner_term"); break; }
#endif
      case 0: case 1: case 2: v.push_back(make<C>(*gen.any(sc, g.below(4), true, false), sc, g.chance(1, 2) ? &g : nullptr)); break;
      case 3: a = a; break;
      case 4: { if (&a == &b) break; H t(std::move(a)); a = b; b = t; break; }
      case 5: std::swap(a, b); break;
      case 6: { const H t = sdd::rewrite(sc.ord, make<C>(*gen.net(sc), sc)); v.push_back(t); break; }
      case 7: xs[g.below(xs.size())] = a(sc.ord, mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 40))); break;
      case 8: { S& x = xs[g.below(xs.size())]; x = b(sc.ord, x); if (x.size() > 400) x = mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 40)); break; }
      case 9: { std::ostringstream os; os << a; std::unordered_set<H> u(v.begin(), v.end()); std::set<H> w(v.begin(), v.end()); break; }
      case 10: if (v.size() > 2) v.erase(v.begin() + 1 + g.below(v.size() - 1)); break;
      default: man.reset_hom_cache(); break;
    }
    if (v.size() > 10) v.erase(v.begin() + 1, v.begin() + 5);
  }
}

template <typename Vs> auto erase(Vs& v, unsigned x, int) -> decltype(void(v.erase(x))) { v.erase(x); }
template <typename Vs> void erase(Vs& v, unsigned x, long) { v = v >> (x % 7); }

static void values(Rng& g)
{
  using Vs = typename C::Values;
  std::vector<Vs> v; for (int i = 0; i < 4; ++i) v.push_back(V<C>::make(random_values(g, 40, 10)));
  for (int i = 0; i < 25; ++i)
  {
    Vs& a = v[g.below(v.size())]; Vs& b = v[g.below(v.size())];
    switch (g.below(13))
    {
      case 10: case 11: case 12: own_values(g, a, 0); break;
      case 0: a = a; break;
      case 1: { if (&a == &b) break; Vs t(std::move(a)); a = b; b = t; break; }
      case 2: std::swap(a, b); break;
      case 3: a = sum(a, b); break;
      case 4: b = difference(a, b); break;
      case 5: a = intersection(a, a); break;
      case 6: a.insert(g.below(60)); break;
      case 7: erase(a, g.below(60), 0); break;
      case 8: { S x(0, a, sdd::one<C>()); a = V<C>::make({1}); S y = x; x = S(0, b, sdd::one<C>()); break; }
      default: { std::ostringstream os; os << a; (void)std::hash<Vs>()(a); for (auto w : VT<Vs>::raw(a)) (void)w; break; }
    }
  }
}

// more handles to one thing than a narrow counter can count
static void crowd(Rng& g, const Shape& sh, const Scope<C>& sc, unsigned dom)
{
  const unsigned n = 65537 + g.below(3000);
  const auto box = random_box(g, sh.leaves, dom, 40);
  switch (g.below(3))
  {
    case 0:
    {
      std::vector<S> many(n, mk_box<C>(sh.items, box));
      const S other = mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 40));
      many.resize(n - 65536); // as many are left as a 16-bit counter would have forgotten
      VF_CHECK(many.front() == many.back() and many[0] == mk_box<C>(sh.items, box), "one of many handles differs from the others");
      many.resize(1); const S u = many[0] + other; VF_CHECK((u & many[0]) == many[0], "the last of many handles is not what it was");
      break;
    }
    case 1:
    {
      auto t = std::make_shared<Term>(); t->k = T_MOD; t->m = 2; t->r = 1;
      std::vector<H> many(n, make<C>(*t, sc)); many.erase(many.begin() + (n - 65536), many.end()); const H again = make<C>(*t, sc);
      VF_CHECK(many[0] == again, "one of many handles to a term differs"); many.erase(many.begin() + 1, many.end()); (void)many[0](sc.ord, mk_box<C>(sh.items, box));
      break;
    }
    default:
    {
      using Vs = typename C::Values; std::vector<Vs> many(n, V<C>::make({1, 3})); many.resize(n - 65536); const Vs again = V<C>::make({1, 3});
      VF_CHECK(many[0] == again and V<C>::raw(many.back()) == V<C>::raw(again), "one of many handles to a set of values differs"); many.resize(1); many[0].insert(2);
    }
  }
  ev("crowds");
}

static void orders(Rng& g, const Shape& sh)
{
  OB ob = to_builder<C>(sh.items);
  OB copy = ob; copy = copy; ob = copy; std::swap(ob, copy);
  OB down = copy; while (not down.empty()) { if (g.chance(1, 3) and not down.nested().empty()) down = down.nested(); else down = down.next(); }
  O o(ob); { O p = o; p = p; O q(std::move(p)); p = q; o = p; }
  O w = o; while (not w.empty()) { if (g.chance(1, 2) and not w.nested().empty()) w = w.nested(); else w = w.next(); ev("order_walk"); }
  std::ostringstream os; os << o;
  std::vector<typename C::Identifier> ids; o.flat(std::back_inserter(ids));
  O late = [&] { O tmp(to_builder<C>(sh.items)); return tmp.next(); }();
  if (not late.empty()) (void)late.variable();
  (void)std::hash<O>()(o); (void)(o == late);
  const OB f = sdd::order_builder<C>(ids.begin(), ids.end());
  (void)O(f);
  if (g.chance(1, 2)) { S x(o, [&](const typename C::Identifier&) { return V<C>::make({g.below(3)}); }); S y = x + x; }
}

static void go(Rng& g, u64)
{
  identity_map(64); palette().clear();
  hash_mask() = g.chance(1, 5) ? 3 : ~0ull;
  const int leaves = 1 + g.below(6);
  const unsigned dom = 2 + g.below(leaves <= 3 ? 6 : 2);
  const Shape sh = random_shape(g, leaves, g.below(4));
  const Sizes sz = random_sizes(g);
  lg("order " + show(sh.items) + " " + show(sz));
  ev("cases_run");
  const u64 before = live_blocks();
  {
    auto man = sdd::init<C>(config<C>(sz));
    { auto m2 = man; auto m3(std::move(m2)); }
    const Scope<C> sc(sh.items);
    const unsigned n = 2 + g.below(3);
    if (g.chance(1, 150)) crowd(g, sh, sc, dom);
    for (unsigned i = 0; i < n; ++i) switch (g.below(5))
    {
      case 0: case 1: handles(g, sh, sc, dom); ev("handles"); break;
      case 2: terms(g, sh, sc, dom, man); ev("terms"); break;
      case 3: values(g); ev("values"); break;
      default: orders(g, sh); ev("orders"); break;
    }
  }
  const u64 after = live_blocks();
  VF_CHECK(after <= before + 40, after - before << " blocks leaked once all handles and the manager are gone"); // the harness' own counters may take a few
  ev("leak_checks", counts_blocks());
  dig(g.next()); nontrivial();
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  return run_cases(o, [&](Rng& g, u64 i) { go(g, i); });
}
