// C01 (canonicity) and C02 (exact set algebra): random programs over a pool of diagrams, each step
// compared with explicit sets of assignments.
#include "common.hh"
using namespace vf;

template <typename C>
struct Prog
{
  using S = sdd::SDD<C>;
  struct Ent { S x; Set m; };
  Rng& g; Shape sh; unsigned dom; u64 cap; bool canon;
  std::vector<Ent> pool;
  std::map<Set, std::size_t> hashes; // C01: hash of every set ever held continuously
  Prog(Rng& rng, Shape s, unsigned d, u64 c, bool k) : g(rng), sh(std::move(s)), dom(d), cap(c), canon(k) {}

  void check(const Ent& e, const char* what)
  {
    VF_CHECK(e.x.empty() == e.m.empty(), what << ": empty() is " << e.x.empty() << " for " << show(e.m));
    VF_CHECK(bool(e.x) == not e.m.empty(), what << ": conversion to bool is wrong");
    expect_set<C>(e.x, sh, e.m, what);
    if (canon)
    {
      for (const auto& p : pool)
      {
        const bool same = p.m == e.m;
        VF_CHECK((p.x == e.x) == same, what << ": handles " << (same ? "differ for equal sets " : "are equal for different sets ") << show(e.m) << " / " << show(p.m));
        VF_CHECK((p.x != e.x) == not same, what << ": != disagrees with ==");
        if (same) VF_CHECK(std::hash<S>()(p.x) == std::hash<S>()(e.x), what << ": equal diagrams hash differently");
        VF_CHECK(((p.x < e.x) or (e.x < p.x)) == not same, what << ": < is inconsistent with ==");
        ev(same ? "equal_pairs" : "different_pairs");
      }
    }
  }
  void add(S x, Set m, const char* what)
  {
    Ent e{std::move(x), std::move(m)};
    dig(hash_of(e.m)); dig(std::string(what)); lg(std::string(what) + "=" + show(e.m));
    if (e.m.size() > 1) nontrivial();
    check(e, what);
    if (e.m.size() > cap) return; // checked, but not kept
    if (pool.size() < 10) pool.push_back(std::move(e)); else pool[g.below(pool.size())] = std::move(e);
  }
  const Ent& any() { return pool[g.below(pool.size())]; }
  Box rbox() { return random_box(g, sh.leaves, dom, std::max<u64>(1, cap / 8)); }

  void step()
  {
    const unsigned k = pool.size() < 3 ? 0 : g.chance(1, 60) ? 22 : g.chance(1, 40) ? 23 : g.below(22);
    switch (k)
    {
      default:
      case 0: case 1: case 2: { const auto b = rbox(); add(mk_box<C>(sh.items, b), expand(b), "box"); break; }
      case 3: case 4: { const Ent a = any(), b = any(); add(a.x + b.x, s_union(a.m, b.m), "union"); ev("op_union"); break; }
      case 5: case 6: { const Ent a = any(), b = any(); add(a.x & b.x, s_inter(a.m, b.m), "intersection"); ev("op_intersection"); break; }
      case 7: case 8: { const Ent a = any(), b = any(); add(a.x - b.x, s_diff(a.m, b.m), "difference"); ev("op_difference"); break; }
      case 9: case 10: // n-ary union
      {
        std::vector<S> v; Set m;
        const unsigned n = g.chance(1, 6) ? g.below(2) : 2 + g.below(g.chance(1, 5) ? 40 : 8);
        for (unsigned i = 0; i < n; ++i)
        {
          if (g.chance(1, 2)) { const auto& a = any(); v.push_back(a.x); m = s_union(m, a.m); }
          else { const auto b = rbox(); v.push_back(mk_box<C>(sh.items, b)); m = s_union(m, expand(b)); }
        }
        add(sdd::sum<C>(v.begin(), v.end()), m, "nary-union"); ev("op_nary_union"); mx("max_nary", n);
        break;
      }
      case 11: case 12: // n-ary intersection
      {
        std::vector<S> v; Set m; const unsigned n = g.chance(1, 8) ? g.below(2) : 2 + g.below(6);
        const Ent core = any();
        for (unsigned i = 0; i < n; ++i)
        {
          const Ent a = any();
          const bool grow = g.chance(2, 3);
          const S x = grow ? a.x + core.x : a.x; const Set xm = grow ? s_union(a.m, core.m) : a.m;
          v.push_back(x); m = i ? s_inter(m, xm) : xm;
        }
        add(sdd::intersection<C>(v.begin(), v.end()), m, "nary-intersection"); ev("op_nary_intersection");
        break;
      }
      case 13: // compound assignment, possibly with itself
      {
        const Ent a = any(), b = g.chance(1, 5) ? a : any();
        S x = a.x; Set m;
        const bool self = g.chance(1, 6);
        const S& y = self ? x : b.x; const Set ym = self ? a.m : b.m;
        switch (g.below(3)) { case 0: x += y; m = s_union(a.m, ym); break; case 1: x &= y; m = s_inter(a.m, ym); break; default: x -= y; m = s_diff(a.m, ym); }
        add(x, m, self ? "compound-self" : "compound"); ev("op_compound");
        break;
      }
      case 14: // rebuild from scratch by another route
      {
        const Ent a = any(); if (a.m.size() > 120) break;
        add(build<C>(g, sh, a.m), a.m, "rebuild"); ev("op_rebuild");
        break;
      }
      case 15: pool.erase(pool.begin() + g.below(pool.size())); ev("op_drop"); break;
      case 16: // initializer lists
      {
        const Ent a = any(), b = any(), c = any();
        add(sdd::sum<C>({a.x, b.x, c.x}), s_union(s_union(a.m, b.m), c.m), "list-union");
        add(sdd::intersection<C>({a.x, b.x}), s_inter(a.m, b.m), "list-intersection");
        break;
      }
      case 17: // complement inside a box: small difference of large sets
      {
        const auto b = rbox(); const Set bm = expand(b); const Ent a = any();
        const S bx = mk_box<C>(sh.items, b);
        add(bx - a.x, s_diff(bm, a.m), "box-minus"); add(a.x - bx, s_diff(a.m, bm), "minus-box");
        break;
      }
      case 18: // near-identical sets: one assignment more or less
      {
        const Ent a = any(); if (a.m.empty()) break;
        const auto& t = a.m[g.below(a.m.size())];
        const S one = mk_tuple<C>(sh, t);
        add(a.x - one, s_diff(a.m, {t}), "minus-one"); add((a.x - one) + one, a.m, "minus-plus-one");
        break;
      }
      case 19: // node constructors with empty parts give the empty set
      {
        const Ent a = any();
        add(S(unsigned(sh.items.size()), typename C::Values(), a.x), {}, "empty-values");
        add(S(unsigned(sh.items.size() - 1), V<C>::make({0}), sdd::zero<C>()), {}, "zero-successor");
        add(S(unsigned(sh.items.size()), sdd::zero<C>(), a.x), {}, "zero-nested");
        break;
      }
      case 20: // order + initializer
      {
        const auto b = rbox();
        std::map<typename C::Identifier, int> leaf;
        std::function<void(const Items&)> rec = [&](const Items& is) { for (auto& i : is) { if (i.leaf()) leaf[ident<C>(i.id)] = i.lo; else rec(i.nested); } };
        rec(sh.items);
        const sdd::order<C> o(to_builder<C>(sh.items));
        add(S(o, [&](const typename C::Identifier& id) { return V<C>::make(b[leaf.at(id)]); }), expand(b), "from-order"); ev("op_from_order");
        break;
      }
      case 22: // one more operand each time: operations that share most of their operands
      {
        std::vector<S> v, w; Set m, in; const unsigned n = 3 + g.below(g.chance(1, 4) ? 60 : 14);
        const Ent core = any();
        for (unsigned i = 0; i < n; ++i)
        {
          const auto b = rbox(); const S x = mk_box<C>(sh.items, b); const Set bm = expand(b);
          v.insert(v.begin() + g.below(u32(v.size() + 1)), x); m = s_union(m, bm);
          const S y = core.x - x; w.insert(w.begin() + g.below(u32(w.size() + 1)), y); in = i ? s_diff(in, bm) : s_diff(core.m, bm);
          if (i and (n < 20 or g.chance(1, 3)))
          {
            add(sdd::sum<C>(v.begin(), v.end()), m, "nary-union of a growing list");
            add(sdd::intersection<C>(w.begin(), w.end()), in, "nary-intersection of a growing list");
          }
        }
        mx("max_nary", n); ev("op_growing");
        break;
      }
      case 23: // one operand left out, each in turn: lists of the same length that share all but one operand
      {
        if (not g.chance(1, 4)) break;
        std::vector<S> v, w; std::vector<Set> vm, wm; const unsigned n = 4 + g.below(g.chance(1, 3) ? 40 : 12);
        const Ent core = any();
        for (unsigned k = 0; k < n; ++k)
        {
          const auto b = rbox(); const S x = mk_box<C>(sh.items, b); const Set bm = expand(b);
          v.push_back(x); vm.push_back(bm); w.push_back(core.x - x); wm.push_back(s_diff(core.m, bm));
        }
        for (unsigned k = 0; k < n; ++k)
        {
          if (n > 20 and g.chance(1, 2)) continue;
          std::vector<S> v1, w1; Set m, in; bool first = true;
          for (unsigned i = 0; i < n; ++i) if (i != k) { v1.push_back(v[i]); w1.push_back(w[i]); m = s_union(m, vm[i]); in = first ? wm[i] : s_inter(in, wm[i]); first = false; }
          add(sdd::sum<C>(v1.begin(), v1.end()), m, "union of a list without one operand");
          add(sdd::intersection<C>(w1.begin(), w1.end()), in, "intersection of a list without one operand");
        }
        ev("op_other");
        break;
      }
      case 21: { const Ent a = any(); S x = a.x; S y(std::move(x)); S z; z = std::move(y); S w; swap(w, z); add(w, a.m, "moved"); break; }
    }
  }
};

// A dense family: many diagrams of two levels that differ in one detail, all held at once, so that near-equal
// nodes meet in the tables, and near-equal operations in the caches.
template <typename C> void family(Rng& g, bool canon)
{
  using S = sdd::SDD<C>;
  identity_map(64); palette().clear();
  const bool nest0 = g.chance(1, 2), nest1 = g.chance(1, 3);
  Items is(2); if (nest0) is[0].nested = Items(1); if (nest1) is[1].nested = Items(1);
  const Shape sh = finish(is);
  Sizes sz = random_sizes(g); if (g.chance(1, 2)) { const Sizes r = roomy(); sz.dif = r.dif; sz.inter = r.inter; sz.sum = r.sum; }
  auto man = sdd::init<C>(config<C>(sz));
  const unsigned dom = 3 + g.below(3), low = 2 + g.below(3);
  lg("family over " + show(sh.items) + " " + show(sz));
  struct Ent { S x; std::vector<unsigned> key; }; // key[v]: set of second values (bits) for the first value v
  auto mk = [&](const std::vector<unsigned>& key)
  {
    std::vector<S> v;
    for (unsigned a = 0; a < dom; ++a)
    {
      Box b(2); b[0] = {a}; for (unsigned k = 0; k < low; ++k) if (key[a] >> k & 1) b[1].push_back(k);
      if (not b[1].empty()) v.push_back(mk_box<C>(sh.items, b));
    }
    return sdd::sum<C>(v.begin(), v.end());
  };
  auto random_key = [&]() { std::vector<unsigned> k(dom); for (auto& x : k) x = g.chance(1, 4) ? 0 : g.below(1u << low); return k; };
  std::vector<Ent> fam;
  std::vector<unsigned> base = random_key();
  const unsigned n = canon ? 60 + g.below(60) : 20 + g.below(25);
  for (unsigned i = 0; i < n; ++i)
  {
    if (g.chance(1, 20)) base = random_key();
    auto k = base; k[g.below(dom)] = g.below(1u << low); if (g.chance(1, 3)) std::swap(k[g.below(dom)], k[g.below(dom)]);
    fam.push_back({mk(k), k});
  }
  auto same = [&](const S& x, const std::vector<unsigned>& k, const char* what)
  {
    Set m; for (unsigned a = 0; a < dom; ++a) for (unsigned b = 0; b < low; ++b) if (k[a] >> b & 1) m.push_back(Tuple{char16_t(a), char16_t(b)});
    norm(m); expect_set<C>(x, sh, m, what); dig(hash_of(m)); if (m.size() > 1) nontrivial();
  };
  if (canon)
  {
    for (auto& e : fam) same(e.x, e.key, "one of a family");
    for (auto& a : fam) for (auto& b : fam)
    {
      VF_CHECK((a.x == b.x) == (a.key == b.key), "handles of a family are " << (a.x == b.x ? "equal for different sets" : "different for equal sets"));
      ev(a.key == b.key ? "equal_pairs" : "different_pairs");
      if (a.key == b.key) VF_CHECK(std::hash<S>()(a.x) == std::hash<S>()(b.x), "equal diagrams hash differently");
    }
    // the same arcs at many levels: one node per level
    struct Level { long operator()(const sdd::flat_node<C>& n) const { return long(n.variable()); } long operator()(const sdd::hierarchical_node<C>& n) const { return long(n.variable()); } long operator()(const sdd::zero_terminal<C>&) const { return -1; } long operator()(const sdd::one_terminal<C>&) const { return -1; } };
    std::vector<S> at; const unsigned v = g.below(6), levels = 10 + g.below(90);
    for (unsigned i = 0; i < levels; ++i) at.push_back(g.chance(1, 2) or not nest0 ? S(i, V<C>::make({v}), sdd::one<C>()) : S(i, fam[0].x, sdd::one<C>()));
    for (unsigned i = 0; i < levels; ++i)
    {
      VF_CHECK(at[i].empty() or visit(Level{}, at[i]) == long(i), "a node made for level " << i << " is of level " << visit(Level{}, at[i]));
      for (unsigned j = 0; j < i; ++j) VF_CHECK(at[i].empty() or at[i] != at[j], "nodes of two levels are identified");
    }
    ev("families"); return;
  }
  for (unsigned i = 150 + g.below(150); i--;)
  {
    const Ent& a = g.pick(fam); const Ent& b = g.pick(fam); const Ent& c = g.pick(fam);
    std::vector<unsigned> k(dom);
    auto each = [&](auto f) { for (unsigned v = 0; v < dom; ++v) k[v] = f(v); return k; };
    switch (g.below(6))
    {
      case 0: same(a.x + b.x, each([&](unsigned v) { return a.key[v] | b.key[v]; }), "union in a family"); break;
      case 1: same(a.x & b.x, each([&](unsigned v) { return a.key[v] & b.key[v]; }), "intersection in a family"); break;
      case 2: same(a.x - b.x, each([&](unsigned v) { return a.key[v] & ~b.key[v]; }), "difference in a family"); break;
      case 3: same(sdd::sum<C>({a.x, b.x, c.x}), each([&](unsigned v) { return a.key[v] | b.key[v] | c.key[v]; }), "n-ary union in a family"); break;
      case 4: same(sdd::intersection<C>({a.x, b.x, c.x}), each([&](unsigned v) { return a.key[v] & b.key[v] & c.key[v]; }), "n-ary intersection in a family"); break;
      default: same((a.x + b.x) - (a.x & b.x), each([&](unsigned v) { return a.key[v] ^ b.key[v]; }), "symmetric difference in a family"); break;
    }
    ev("family_operations");
  }
  ev("families");
}

// Nodes with hundreds of arcs, sets of hundreds of values, operations on hundreds of operands.
template <typename C> void huge(Rng& g, bool canon)
{
  using S = sdd::SDD<C>;
  palette().clear();
  const bool nest = V<C>::max_domain < 200 ? g.chance(2, 3) : g.chance(1, 3);
  const unsigned side = 6 + g.below(13);                          // nested: pairs below side
  const unsigned n = nest ? side * side : std::min<unsigned>(V<C>::max_domain, 150 + g.below(1200));
  const unsigned low = 9 + g.below(5);
  identity_map(std::max(n, 64u));
  Items is(2); if (nest) is[0].nested = Items(2); if (g.chance(1, 4)) is[1].nested = Items(1);
  const Shape sh = finish(is);
  Sizes sz = roomy(); sz.ut = 1 + g.below(5000); sz.arena = g.chance(1, 3) ? 1u << g.below(12) : sz.arena; sz.fs = 1 + g.below(1000); if (g.chance(1, 3)) sz.sum = 2 + g.below(30);
  auto man = sdd::init<C>(config<C>(sz));
  lg("huge over " + show(sh.items) + " " + std::to_string(n) + " heads, " + show(sz));
  using Key = std::vector<unsigned>; // for each head, the set (bits) of second values
  struct Ent { S x; Key k; };
  auto bits = [&](unsigned m) { std::vector<unsigned> v; for (unsigned b = 0; b < low; ++b) if (m >> b & 1) v.push_back(b); return v; };
  auto one = [&](unsigned h, unsigned m) { Box b; if (nest) { b.push_back({h / side}); b.push_back({h % side}); } else b.push_back({h}); b.push_back(bits(m)); return mk_box<C>(sh.items, b); };
  auto row = [&](unsigned a, unsigned lo, unsigned hi, unsigned m) // a group of heads at once
  {
    Box b; std::vector<unsigned> v; for (unsigned i = lo; i < hi; ++i) v.push_back(i);
    if (nest) { b.push_back({a}); b.push_back(v); } else b.push_back(v);
    b.push_back(bits(m)); return mk_box<C>(sh.items, b);
  };
  auto judge = [&](const Ent& e, const char* what)
  {
    Set m; for (unsigned h = 0; h < n; ++h) for (auto b : bits(e.k[h])) { Tuple t; if (nest) { t += char16_t(h / side); t += char16_t(h % side); } else t += char16_t(h); t += char16_t(b); m.push_back(t); }
    norm(m); expect_set<C>(e.x, sh, m, what); dig(hash_of(m)); if (m.size() > 1) nontrivial();
    mx("max_huge", m.size()); std::set<unsigned> arcs(e.k.begin(), e.k.end()); arcs.erase(0); mx("max_arcs", arcs.size());
  };
  std::vector<Ent> pool;
  const unsigned all = (1u << low) - 1;
  auto fresh = [&]() // many heads, most with successors of their own
  {
    Ent e{S(), Key(n)}; std::vector<S> parts; const unsigned few = g.chance(1, 4) ? 1 + g.below(40) : 0; std::vector<unsigned> pal; for (unsigned i = 0; i < few; ++i) pal.push_back(g.below(all + 1));
    const unsigned keep = 1 + g.below(6);
    for (unsigned h = 0; h < n; ++h) { if (not g.below(keep + 1)) continue; e.k[h] = few ? g.pick(pal) : g.below(all + 1); if (e.k[h]) parts.push_back(one(h, e.k[h])); }
    for (std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i-1], parts[g.below(u32(i))]);
    mx("max_nary", parts.size());
    e.x = sdd::sum<C>(parts.begin(), parts.end());
    return e;
  };
  pool.push_back(fresh()); pool.push_back(fresh());
  for (auto& e : pool) judge(e, "huge n-ary union");
  for (unsigned steps = 4 + g.below(4); steps--;)
  {
    const Ent a = g.pick(pool), b = g.pick(pool); Ent r{S(), Key(n)};
    switch (g.below(7))
    {
      case 0: r.x = a.x + b.x; for (unsigned h = 0; h < n; ++h) r.k[h] = a.k[h] | b.k[h]; judge(r, "huge union"); break;
      case 1: r.x = a.x & b.x; for (unsigned h = 0; h < n; ++h) r.k[h] = a.k[h] & b.k[h]; judge(r, "huge intersection"); break;
      case 2: r.x = a.x - b.x; for (unsigned h = 0; h < n; ++h) r.k[h] = a.k[h] & ~b.k[h]; judge(r, "huge difference"); break;
      case 3: // intersection of many operands
      {
        std::vector<S> v{a.x}; r.k = a.k;
        for (unsigned i = 2 + g.below(300); i--;)
        {
          // all but one head or one second value
          const unsigned h = g.below(n), m = g.below(all + 1);
          v.push_back(a.x - one(h, m ? m : 1)); r.k[h] &= ~(m ? m : 1);
        }
        mx("max_nary", v.size());
        r.x = sdd::intersection<C>(v.begin(), v.end()); judge(r, "huge n-ary intersection"); break;
      }
      case 4: // rows
      {
        r = a; std::vector<S> v{a.x};
        for (unsigned i = 1 + g.below(30); i--;)
        {
          const unsigned w = nest ? side : n, lo = g.below(w), hi = lo + 1 + g.below(w - lo), q = nest ? g.below(side) : 0, m = 1 + g.below(all);
          v.push_back(row(q, lo, hi, m)); for (unsigned h = lo; h < hi; ++h) r.k[q * side * nest + h] |= m;
        }
        r.x = sdd::sum<C>(v.begin(), v.end()); judge(r, "huge union of rows"); break;
      }
      case 5: // one by one
      {
        r = a; for (unsigned i = 1 + g.below(40); i--;) { const unsigned h = g.below(n), m = 1 + g.below(all); if (g.chance(1, 2)) { r.x += one(h, m); r.k[h] |= m; } else { r.x -= one(h, m); r.k[h] &= ~m; } }
        judge(r, "huge, changed one by one"); break;
      }
      default: r = fresh(); judge(r, "huge n-ary union"); break;
    }
    if (canon)
    {
      for (auto& p : pool) VF_CHECK((p.x == r.x) == (p.k == r.k), "huge: handles are " << (p.x == r.x ? "equal for different sets" : "different for equal sets"));
      // the same again by another route
      const unsigned h = g.below(n), m = 1 + g.below(all); const S d = one(h, m);
      S y = (r.x + d) - d; y = y + (r.x & d);
      VF_CHECK(y == r.x and std::hash<S>()(y) == std::hash<S>()(r.x), "huge: removed and added back gives another diagram");
      ev("equal_pairs");
    }
    if (pool.size() < 5) pool.push_back(r); else pool[g.below(u32(pool.size()))] = r;
    ev("huge_operations");
  }
}

template <typename C> void go(Rng& g, u64 idx, bool canon)
{
  if (g.chance(1, 250)) return huge<C>(g, canon);
  if (g.chance(1, 12)) return family<C>(g, canon);
  unsigned dom; int leaves, depth; u64 cap; unsigned steps;
  switch (g.below(6))
  {
    case 0: leaves = 1 + g.below(3); depth = 0; dom = 2 + g.below(3); cap = 200; steps = 60; break;          // tiny
    case 1: leaves = 2 + g.below(2); depth = g.below(2); dom = std::min<unsigned>(V<C>::max_domain, 20 + g.below(200)); cap = 700; steps = 30; break; // wide
    case 2: leaves = 20 + g.below(40); depth = g.below(3); dom = 2 + g.below(2); cap = 60; steps = 30; break;  // deep
    case 3: leaves = 3 + g.below(6); depth = 1 + g.below(3); dom = 2 + g.below(4); cap = 400; steps = 45; break; // hierarchical
    case 4: leaves = 2 + g.below(3); depth = 1 + g.below(2); dom = 2 + g.below(2); cap = 100; steps = 60; break; // small hierarchical
    default: leaves = 3 + g.below(5); depth = 0; dom = 2 + g.below(6); cap = 500; steps = 45; break;            // flat
  }
  V<C>::choose(g, dom);
  auto shape = random_shape(g, leaves, depth);
  make_palette(g, leaves, dom);
  const Sizes sz = g.chance(1, 2) ? roomy() : random_sizes(g);
  lg("order " + show(shape.items) + " dom " + std::to_string(dom) + " " + show(sz));
  auto m = sdd::init<C>(config<C>(sz));
  Prog<C> p(g, shape, dom, cap, canon);
  for (unsigned i = 0; i < steps; ++i) p.step();
  // At the end everything held is still what it was.
  for (auto& e : p.pool) p.check(e, "held");
  mx("max_leaves", leaves); mx("max_domain", dom); mx("max_depth", depth_of(shape.items));
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  const bool canon = o.mode == "C01";
  return run_cases(o, [&](Rng& g, u64 i) { go<vf::C>(g, i, canon); });
}
