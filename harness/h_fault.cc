// C09: faults injected at every point where the library calls the user back, incompatible operands, capacity
// and argument errors: the exception reaches the caller unchanged, everything stays usable.
#include "terms.hh"
#include <typeinfo>
using namespace vf;
using S = sdd::SDD<C>;
using H = sdd::homomorphism<C>;

template <typename M> auto values_live(const M& m, int) -> decltype(u64(m.values_stats().size)) { return m.values_stats().size; }
template <typename M> u64 values_live(const M&, long) { return 0; }
struct Live { u64 sdd, hom, val; bool operator==(const Live& o) const { return sdd == o.sdd and hom == o.hom and val == o.val; } };
static std::ostream& operator<<(std::ostream& os, const Live& l) { return os << "(" << l.sdd << " nodes, " << l.hom << " terms, " << l.val << " sets of values)"; }
static Live live(const sdd::manager<C>& m) { return {m.sdd_stats().size, m.hom_stats().size, values_live(m, 0)}; }

// Runs f with the k-th user call failing. True: it failed (as it should); false: fewer than k calls were made.
template <typename F> bool faulty(u64 k, unsigned kind, const F& f)
{
  auto& c = CALLS();
  c.n = 0; c.fail_at = k; c.kind = kind; c.thrown = 0;
  bool caught = false, same = false;
  const std::string tok = "token " + std::to_string(k);
  try { f(); }
  catch (const UserFault2& e) { caught = true; same = kind == FAULT_DERIVED and e.token == k; }
  catch (const UserFault& e) { caught = true; same = kind == FAULT_USER and e.token == k and typeid(e) == typeid(UserFault); }
  catch (const PlainFault& e) { caught = true; same = kind == FAULT_PLAIN and e.token == k; }
  catch (int e) { caught = true; same = kind == FAULT_INT and u64(e) == k; }
  catch (const std::bad_alloc&) { caught = true; same = kind == FAULT_ALLOC; }
  catch (const Violation&) { c.fail_at = 0; throw; }
  catch (const std::exception& e)
  {
    caught = true;
    same = e.what() == tok and (kind == FAULT_RANGE ? typeid(e) == typeid(std::out_of_range) : kind == FAULT_LENGTH ? typeid(e) == typeid(std::length_error)
                              : kind == FAULT_RUNTIME ? typeid(e) == typeid(std::runtime_error) : kind == FAULT_INVALID ? typeid(e) == typeid(std::invalid_argument) : false);
  }
  c.fail_at = 0;
  const bool reached = c.thrown != 0;
  VF_CHECK(caught == reached, (reached ? "an exception of the user was swallowed" : "an exception came out although no user function failed") << " (call " << k << ", kind " << kind << ")");
  if (caught) VF_CHECK(same, "an exception of the user was changed on its way to the caller (call " << k << ", kind " << kind << ")");
  return reached;
}

static std::vector<u64> points(Rng& g, u64 n, unsigned max)
{
  std::vector<u64> r;
  if (n <= max) for (u64 k = 1; k <= n; ++k) r.push_back(k);
  else { std::set<u64> s{1, n}; while (s.size() < max) s.insert(1 + g.below(u32(n))); r.assign(s.begin(), s.end()); }
  for (std::size_t i = r.size(); i > 1; --i) std::swap(r[i-1], r[g.below(u32(i))]);
  return r;
}

struct Held { S x; Set m; std::size_t hash; };

static void faults(Rng& g)
{
  identity_map(64); palette().clear();
  hash_mask() = g.chance(1, 6) ? 3 : ~0ull;
  const int leaves = 1 + g.below(6);
  const unsigned dom = leaves <= 3 ? 2 + g.below(4) : 2 + g.below(2);
  const Shape sh = random_shape(g, leaves, g.below(4));
  Sizes sz = random_sizes(g);
  sz.dif = 2 + g.below(12); sz.inter = 2 + g.below(12); sz.sum = 2 + g.below(12); if (g.chance(1, 2)) sz.hc = 2 + g.below(200);
  lg("order " + show(sh.items) + " " + show(sz));
  auto man = sdd::init<C>(config<C>(sz));
  const Scope<C> sc(sh.items);
  Gen<C> gen{g, dom};

  std::vector<S> fx; for (unsigned i = 0; i < 9; ++i) fx.push_back(S(0, V<C>::make({i, 50u}), sdd::one<C>()));
  Spec fs; fs.kind = F_GROW; fs.a = 1; fs.dom = dom;
  const H f1 = sdd::function(sc.ord, ident<C>(Gen<C>::leaf_id(sh.items, 0)), UserFun<C, 0>{fs});
  auto flush = [&]()
  {
    sdd::rewrite(sc.ord, sdd::fixpoint(sdd::sum<C>(sc.ord, {f1, sdd::id<C>(), sdd::inductive<C>(IndDeep<C>{fs})})));
    man.reset_hom_cache();
    for (auto& a : fx) for (auto& b : fx) { S t = a + b; t = a - b; t = a & b; }
  };
  flush(); flush();
  const Live base = live(man);
  {
    std::vector<Held> pool;
    for (unsigned i = 2 + g.below(4); i--;)
    {
      S x; Set m;
      for (unsigned k = 1 + g.below(3); k--;) { const auto b = random_box(g, sh.leaves, dom, 30); x += mk_box<C>(sh.items, b); m = s_union(m, expand(b)); }
      pool.push_back({x, m, std::hash<S>()(x)});
    }
    auto check_pool = [&](const char* when)
    {
      for (auto& p : pool)
      {
        expect_set<C>(p.x, sh, p.m, when);
        VF_CHECK(std::hash<S>()(p.x) == p.hash, when << ": the hash of a held diagram changed");
      }
    };
    for (unsigned round = 2 + g.below(4); round--;)
    {
      const TermP t = g.chance(1, 4) ? gen.net(sc) : gen.any(sc, 1 + g.below(4), true, false);
      const H h0 = make<C>(*t, sc);
      const bool rw = g.chance(1, 2);
      const H h = rw ? sdd::rewrite(sc.ord, h0) : h0;
      const Held a = g.pick(pool);
      const Set want = Ref<C>::eval(*t, sc, a.m);
      // how many calls a complete evaluation makes
      man.reset_hom_cache();
      CALLS().n = 0; CALLS().fail_at = 0;
      S full; Set before_m;
      {
        // the first fault may come before anything of this term was ever evaluated
        if (g.chance(1, 2)) { if (faulty(1 + g.below(6), g.below(FAULT_KINDS), [&] { h(sc.ord, a.x); })) ev("faults_first"); }
        man.reset_hom_cache(); CALLS().n = 0;
        full = h(sc.ord, a.x);
        expect_set<C>(full, sh, want, rw ? "rewritten term" : "term");
      }
      const u64 n = CALLS().n;
      ev("evaluations"); mx("max_calls", n);
      if (want.size() > 1 and n) nontrivial();
      dig(hash_of(*t)); dig(hash_of(want)); dig(n);
      const unsigned how = g.below(3); // 0: always from an empty cache, 1: never, 2: sometimes
      if (g.chance(1, 2)) full = S();
      for (auto k : points(g, n, 16))
      {
        if (how == 0 or (how == 2 and g.chance(1, 2))) man.reset_hom_cache();
        const S keep = g.chance(1, 2) ? a.x : S();
        if (faulty(k, g.below(FAULT_KINDS), [&] { h(sc.ord, a.x); })) ev("faults"); else ev("fault_not_reached");
        switch (g.below(4))
        {
          case 0: check_pool("held, after an exception"); break;
          case 1: // another operation, possibly sharing parts with the interrupted one
          {
            const Held& b = g.pick(pool);
            const TermP t2 = g.chance(1, 2) and not t->sub.empty() and t->k != T_LOCAL ? t->sub[g.below(t->sub.size())] : gen.any(sc, g.below(3), true, false);
            expect_set<C>(make<C>(*t2, sc)(sc.ord, b.x), sh, Ref<C>::eval(*t2, sc, b.m), "another term, after an exception");
            ev("others_after");
            break;
          }
          case 2: { const Held &b = g.pick(pool), &c = g.pick(pool); expect_set<C>((b.x + c.x) - (b.x & c.x), sh, s_diff(s_union(b.m, c.m), s_inter(b.m, c.m)), "set operations, after an exception"); break; }
          default: break;
        }
        if (g.chance(2, 3)) { expect_set<C>(h(sc.ord, a.x), sh, want, "the interrupted term tried again"); ev("retries"); }
      }
      expect_set<C>(h(sc.ord, a.x), sh, want, "the interrupted term at the end");
      if (want.size() <= 200 and pool.size() < 8) { const S x = h(sc.ord, a.x); pool.push_back({x, want, std::hash<S>()(x)}); }
    }
    // construction from an order with a failing initializer
    {
      const auto b = random_box(g, sh.leaves, dom, 40);
      std::map<typename C::Identifier, int> leaf;
      std::function<void(const Items&)> rec = [&](const Items& is) { for (auto& i : is) { if (i.leaf()) leaf[ident<C>(i.id)] = i.lo; else rec(i.nested); } };
      rec(sh.items);
      auto ini = [&](const typename C::Identifier& id) { CALLS().tick(); return V<C>::make(b[leaf.at(id)]); };
      for (u64 k = 1; k <= u64(sh.leaves) + 1; ++k)
      {
        const bool hit = faulty(k, g.below(FAULT_KINDS), [&] { S x(sc.ord, ini); expect_set<C>(x, sh, expand(b), "from an order"); });
        VF_CHECK(hit or k > u64(sh.leaves), "the initializer is not called for every leaf");
        ev("initializer_faults", hit);
      }
    }
    check_pool("at the end");
  }
  flush(); flush();
  const Live now = live(man);
  VF_CHECK(now == base, "after exceptions and dropping everything " << now << " remain, " << base << " before");
  ev("conserved");
}

// ------------------------------------------------------------------ incompatible operands
// Random tuple-like diagrams over a shape; `tail` replaces everything below level `cut` of the top sequence.
static void incompatible(Rng& g)
{
  identity_map(64); palette().clear(); hash_mask() = ~0ull;
  auto man = sdd::init<C>(config<C>(random_sizes(g)));
  const unsigned dom = 2 + g.below(3);
  const Shape sh = random_shape(g, 2 + g.below(5), g.below(4));
  struct Held { S x; Set m; };
  std::vector<Held> pool;
  for (int i = 0; i < 3; ++i) { const auto b = random_box(g, sh.leaves, dom, 40); pool.push_back({mk_box<C>(sh.items, b), expand(b)}); }
  for (unsigned round = 6 + g.below(6); round--;)
  {
    // two incompatible diagrams u, v
    S u, v;
    auto some_values = [&]() { return V<C>::make(random_values(g, dom, dom)); };
    auto chain = [&](unsigned n) { S r = sdd::one<C>(); for (unsigned i = 0; i < n; ++i) r = S(i, some_values(), r); return r; };
    switch (g.below(5))
    {
      case 0: { const unsigned n = 1 + g.below(4); u = chain(n); v = chain(n + 1 + g.below(3)); break; }   // different variables
      case 1: { const unsigned n = g.below(4); const S t = chain(n), t2 = chain(n); u = S(n, some_values(), t); v = S(n, chain(1 + g.below(3)), t2); break; } // flat / nested
      case 2: u = sdd::one<C>(); v = chain(1 + g.below(3)); break;                                        // terminal / node
      case 3: u = sdd::one<C>(); v = S(0, chain(1 + g.below(3)), sdd::one<C>()); break;
      default: { const S n1 = chain(1 + g.below(2)), n2 = chain(1 + g.below(2)); u = S(1, n1, chain(1)); v = S(2, n2, chain(2)); break; }
    }
    if (g.chance(1, 2)) swap(u, v);
    // possibly below a common prefix of levels (overlapping values), or inside a nested level
    S a = u, b = v;
    const unsigned up = g.below(4);
    for (unsigned i = 0; i < up; ++i)
    {
      if (g.chance(1, 3)) // nested: they become valuations
      {
        const S t = chain(2);
        const bool same_tail = g.chance(1, 2);
        a = S(2, a, t); b = S(2, b, same_tail ? t : chain(2));
        if (not same_tail) ev("nested_other_tail");
      }
      else
      {
        auto x = random_values(g, dom, dom), y = random_values(g, dom, dom);
        y.push_back(x[0]); std::sort(y.begin(), y.end()); y.erase(std::unique(y.begin(), y.end()), y.end());
        a = S(5 + i, V<C>::make(x), a); b = S(5 + i, V<C>::make(y), b);
      }
    }
    lg("depth " + std::to_string(up));
    const u64 live0 = man.sdd_stats().size;
    auto raises = [&](const char* what, const std::function<void()>& f)
    {
      bool ok = false;
      try { f(); }
      catch (const sdd::top<C>& t)
      {
        ok = true;
        const S l = t.lhs(), r = t.rhs();
        VF_CHECK((l == u and r == v) or (l == v and r == u), what << ": the exception carries other operands than the incompatible ones");
        const sdd::top<C> copy(t);
        VF_CHECK(std::string(t.what()).size() > 0 and std::string(copy.what()) == t.what() and copy.lhs() == l and copy.rhs() == r, what << ": the exception loses its description or operands when copied");
        std::ostringstream d1, d2; d1 << l; d2 << r;
        VF_CHECK(std::string(t.what()).find(d1.str()) != std::string::npos and std::string(t.what()).find(d2.str()) != std::string::npos, what << ": the description does not show the operands: " << t.what());
        const std::exception& e = t; VF_CHECK(e.what() == std::string(t.what()), what << ": not reported as a standard exception");
      }
      catch (const Violation&) { throw; }
      catch (const std::exception& e) { fail(std::string(what) + ": another exception: " + e.what()); }
      VF_CHECK(ok, what << " of incompatible diagrams raises nothing (depth " << up << ")");
      ev("incompatible");
    };
    const S a0 = a, b0 = b;
    for (unsigned rep = 1 + g.below(2); rep--;)
    {
      raises("union", [&] { a + b; });
      raises("union", [&] { b + a; });
      raises("intersection", [&] { a & b; });
      raises("difference", [&] { a - b; });
      raises("difference", [&] { b - a; });
      S c = a;
      raises("+=", [&] { c += b; }); VF_CHECK(c == a0, "a failed += changed its left operand");
      raises("&=", [&] { c &= b; }); VF_CHECK(c == a0, "a failed &= changed its left operand");
      raises("-=", [&] { c -= b; }); VF_CHECK(c == a0, "a failed -= changed its left operand");
      raises("sum of a list", [&] { sdd::sum<C>({a, b}); });
      raises("intersection of a list", [&] { sdd::intersection<C>({a, b}); });
      raises("sum of a range", [&] { std::vector<S> w{a, sdd::zero<C>(), b, a}; sdd::sum<C>(w.begin(), w.end()); });
      VF_CHECK(a == a0 and b == b0, "operands changed");
      // the empty diagram is compatible with everything, and everything with itself
      VF_CHECK(a + sdd::zero<C>() == a and (a & sdd::zero<C>()).empty() and a - sdd::zero<C>() == a and (sdd::zero<C>() - a).empty() and (a & a) == a and (a - a).empty() and a + a == a, "trivial operations on incompatible diagrams");
    }
    if (up == 0)
    {
      // more operands: a union cannot succeed as soon as two of them are incompatible at their heads
      std::vector<S> w; for (unsigned i = g.below(4); i--;) w.push_back(g.chance(1, 2) ? a : b);
      w.push_back(a); w.push_back(b);
      for (std::size_t i = w.size(); i > 1; --i) std::swap(w[i-1], w[g.below(u32(i))]);
      raises("n-ary union", [&] { sdd::sum<C>(w.begin(), w.end()); });
      // many operands of each kind: the exception carries one of each
      if (u != sdd::one<C>() and v != sdd::one<C>())
      {
        std::vector<S> left{u}, right{v}, all;
        auto alike = [&](const S& x) -> S // another one, compatible with x at its head
        {
          struct { S operator()(const sdd::zero_terminal<C>&) const { return S(); } S operator()(const sdd::one_terminal<C>&) const { return S(); }
                   S operator()(const sdd::flat_node<C>&) const { return S(); } S operator()(const sdd::hierarchical_node<C>& n) const { return n.begin()->valuation(); } } inner;
          struct { unsigned operator()(const sdd::zero_terminal<C>&) const { return 0; } unsigned operator()(const sdd::one_terminal<C>&) const { return 0; }
                   unsigned operator()(const sdd::flat_node<C>& n) const { return n.variable(); } unsigned operator()(const sdd::hierarchical_node<C>& n) const { return n.variable(); } } var;
          struct { bool operator()(const sdd::zero_terminal<C>&) const { return true; } bool operator()(const sdd::one_terminal<C>&) const { return true; }
                   bool operator()(const sdd::flat_node<C>&) const { return true; } bool operator()(const sdd::hierarchical_node<C>&) const { return false; } } flat;
          const unsigned n = visit(var, x);
          return visit(flat, x) ? S(n, some_values(), chain(n)) : S(n, visit(inner, x), chain(n));
        };
        for (unsigned i = g.below(6); i--;) left.push_back(alike(u));
        for (unsigned i = g.below(6); i--;) right.push_back(alike(v));
        for (auto& x : left) all.push_back(x);
        for (auto& x : right) all.push_back(x);
        for (std::size_t i = all.size(); i > 1; --i) std::swap(all[i-1], all[g.below(u32(i))]);
        for (int rep = 0; rep < 2; ++rep)
        {
          bool raised = false;
          try { sdd::sum<C>(all.begin(), all.end()); }
          catch (const sdd::top<C>& t)
          {
            raised = true;
            auto in = [](const std::vector<S>& l, const S& x) { return std::find(l.begin(), l.end(), x) != l.end(); };
            const S l = t.lhs(), r = t.rhs();
            VF_CHECK((in(left, l) and in(right, r)) or (in(right, l) and in(left, r)), "n-ary union: the exception carries " << l << " and " << r << ", which are not the incompatible operands");
          }
          VF_CHECK(raised, "n-ary union of incompatible diagrams raises nothing");
          ev("incompatible_lists");
        }
      }
      // union of operations
      const Scope<C> sc(sh.items);
      const H bad = sdd::sum<C>(sc.ord, {sdd::constant(a), sdd::constant(b)});
      raises("union of operations", [&] { bad(sc.ord, pool[0].x); });
      raises("union of operations again", [&] { bad(sc.ord, pool[0].x); });
      ev("incompatible_terms");
    }
    (void)live0;
    for (auto& p : pool) expect_set<C>(p.x, sh, p.m, "held, after incompatible operations");
    const Held &x = g.pick(pool), &y = g.pick(pool);
    expect_set<C>(x.x + y.x, sh, s_union(x.m, y.m), "union after incompatible operations");
    expect_set<C>(x.x & y.x, sh, s_inter(x.m, y.m), "intersection after incompatible operations");
    expect_set<C>(x.x - y.x, sh, s_diff(x.m, y.m), "difference after incompatible operations");
    dig(up); for (auto k : random_values(g, dom, dom)) dig(k);
  }
  nontrivial();
}

// ------------------------------------------------------------------ capacity and argument errors
struct Tiny : public sdd::flat_set_default_configuration
{
  using Identifier = unsigned; using Values = sdd::values::flat_set<unsigned short>; using alpha_size_type = unsigned char;
};

static void capacity(Rng& g)
{
  using T = sdd::SDD<Tiny>; using TV = Tiny::Values;
  Tiny conf; conf.sdd_unique_table_size = 1 + g.below(500); conf.sdd_sum_cache_size = 2 + g.below(500); conf.sdd_arena_size = 1 << g.below(20);
  auto man = sdd::init<Tiny>(conf);
  const unsigned n = 250 + g.below(12); // arcs of the node to be built
  auto one_of = [](unsigned v, unsigned w) { TV a; a.insert(static_cast<unsigned short>(v)); TV b; b.insert(static_cast<unsigned short>(w)); return T(1, a, T(0, b, sdd::one<Tiny>())); };
  std::vector<T> v; for (unsigned i = 0; i < n; ++i) v.push_back(one_of(i, i));
  const T held = one_of(7, 9) + one_of(8, 3);
  auto fits = [&](const std::function<T()>& f, const char* what)
  {
    if (n <= 255) { VF_CHECK(f().size() == n, what << ": " << n << " arcs fit"); ev("capacity_fits"); return; }
    bool ok = false;
    try { f(); } catch (const std::length_error&) { ok = true; } catch (const Violation&) { throw; } catch (const std::exception&) {}
    VF_CHECK(ok, what << ": a node of " << n << " arcs does not fit, but no length_error is raised");
    ev("capacity_errors");
  };
  fits([&] { return sdd::sum<Tiny>(v.begin(), v.end()); }, "n-ary union");
  fits([&] { return sdd::sum<Tiny>(v.begin(), v.end()); }, "n-ary union again");
  const T half = sdd::sum<Tiny>(v.begin(), v.begin() + n / 2), other = sdd::sum<Tiny>(v.begin() + n / 2, v.end());
  VF_CHECK(half.size() == n / 2 and other.size() == n - n / 2, "halves");
  fits([&] { return half + other; }, "union");
  VF_CHECK(held.size() == 2 and (half & other).empty() and half - other == half and (half + v[0]) == half, "usable after a capacity error");
  T all; unsigned at = 0; bool raised = false;
  try { for (auto& x : v) { all += x; ++at; } } catch (const std::length_error&) { raised = true; }
  VF_CHECK(raised == (n > 255) and all.size() == std::min(n, 255u) and at == std::min(n, 255u), "growing one by one to " << n << " arcs stops at " << at);
  dig(n); nontrivial();
}

static void arguments(Rng& g)
{
  identity_map(64); palette().clear(); hash_mask() = ~0ull;
  auto man = sdd::init<C>(config<C>(random_sizes(g)));
  const unsigned dom = 2 + g.below(3);
  const Shape sh = random_shape(g, 1 + g.below(5), g.below(3));
  const Scope<C> sc(sh.items);
  Gen<C> gen{g, dom};
  const auto b = random_box(g, sh.leaves, dom, 40);
  const S x = mk_box<C>(sh.items, b);
  const u64 terms0 = man.hom_stats().size;
  for (unsigned i = 4; i--;)
  {
    {
      const H p = make<C>(*gen.any(sc, g.below(3), true, false), sc), q = make<C>(*gen.any(sc, g.below(3), true, false), sc);
      bool raised = false, other = false; H h = sdd::id<C>();
      try { h = sdd::if_then_else(p, q, sdd::id<C>()); } catch (const std::invalid_argument&) { raised = true; } catch (...) { other = true; }
      VF_CHECK(not other and raised == not p.selector(), "a conditional on a term that is " << (p.selector() ? "" : "not ") << "a selector is " << (raised ? "refused" : "accepted"));
      ev(raised ? "arguments_refused" : "arguments_accepted");
      std::vector<H> none;
      raised = false; try { sdd::sum(sc.ord, none.begin(), none.end()); } catch (const std::invalid_argument&) { raised = true; }
      VF_CHECK(raised, "a union of no operation is accepted");
      raised = false; try { sdd::intersection(sc.ord, none.begin(), none.end()); } catch (const std::invalid_argument&) { raised = true; }
      VF_CHECK(raised, "an intersection of no operation is accepted");
      raised = false;
      Spec s; s.dom = dom;
      const auto bad = ident<C>(sh.ids + 1 + g.below(5));
      std::ostringstream os; os << bad;
      auto unknown = [&](const char* what, const std::function<void()>& f)
      {
        bool ok = false;
        try { f(); } catch (const sdd::order_error& e) { ok = std::string(e.what()).find(os.str()) != std::string::npos; } catch (const std::exception&) {}
        VF_CHECK(ok, what << " on an unknown identifier does not raise the error naming it");
        ev("unknown_identifiers");
      };
      unknown("function", [&] { sdd::function(sc.ord, bad, UserFun<C, 0>{s}); });
      unknown("local", [&] { sdd::local(bad, sc.ord, sdd::inductive<C>(IndDeep<C>{s})); });
      unknown("node", [&] { sc.ord.node(bad); });
    }
    expect_set<C>(x, sh, expand(b), "held, after refused arguments");
    const TermP t = gen.any(sc, g.below(3), true, false);
    const Set want = Ref<C>::eval(*t, sc, expand(b));
    expect_set<C>(make<C>(*t, sc)(sc.ord, x), sh, want, "a term after refused arguments");
    man.reset_hom_cache();
    dig(hash_of(*t));
  }
  // dropping all of it gives the terms back (the operands of the last saturation fixpoint may stay)
  VF_CHECK(man.hom_stats().size <= terms0 + 0, "terms left after refused constructions: " << man.hom_stats().size << ", " << terms0 << " before");
  nontrivial();
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  return run_cases(o, [&](Rng& g, u64)
  {
    switch (g.below(12))
    {
      case 0: case 1: incompatible(g); break;
      case 2: if (g.chance(1, 3)) capacity(g); else arguments(g); break;
      case 3: arguments(g); break;
      default: faults(g); break;
    }
  });
}
