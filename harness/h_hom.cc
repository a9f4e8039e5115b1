// C01 (results of terms are canonical), C04 (operation terms compute their denotation), C05 (rewriting changes nothing), C16 (terms are
// canonical, selector and skip answers are sound).
#include "terms.hh"
using namespace vf;
using S = sdd::SDD<C>;
using H = sdd::homomorphism<C>;

struct World
{
  Rng& g; Shape sh; unsigned dom; std::unique_ptr<Scope<C>> sc; bool large = false;
  struct X { S x; Set m; };
  std::vector<X> xs;
  World(Rng& r, Shape s, unsigned d) : g(r), sh(std::move(s)), dom(d), sc(new Scope<C>(sh.items)) {}
  // a few tuples with few tokens
  void sparse(unsigned n)
  {
    for (unsigned i = 0; i < n; ++i)
    {
      Set m;
      for (unsigned k = 1 + g.below(3); k--;) { Tuple t(sh.leaves, 0); for (unsigned j = 1 + g.below(3); j--;) t[g.below(u32(t.size()))] = char16_t(1 + g.below(dom - 1)); m.push_back(t); }
      norm(m); xs.push_back({g.chance(1, 3) ? build<C>(g, sh, m) : mk_over<C>(*sc, m), m});
    }
  }
  void operands(unsigned n, u64 cap)
  {
    for (unsigned i = 0; i < n; ++i)
    {
      Set m;
      for (unsigned k = 1 + g.below(3); k--;) m = s_union(m, expand(random_box(g, sh.leaves, dom, cap)));
      if (g.chance(1, 3) and m.size() <= 60) xs.push_back({build<C>(g, sh, m), m});
      else xs.push_back({mk_over<C>(*sc, m), m});
    }
    if (g.chance(1, 4)) { Tuple z(sh.leaves, 0); for (auto& c : z) c = char16_t(g.below(dom)); xs.push_back({mk_tuple<C>(sh, z), {z}}); }
  }
};

static void describe(const TermP& t, const char* what) { if (logging()) lg(std::string(what) + " " + show(*t)); dig(hash_of(*t)); }
static bool too_big(const Set& s) { return s.size() > 3000; }
static void count_kinds(const Term& t)
{
  static const char* n[] = {"term_id", "term_const", "term_comp", "term_sum", "term_inter", "term_fix", "term_ite", "term_local", "term_fun", "term_ind_skip", "term_ind_walk", "term_ind_mod", "term_ind_deep", "term_ind_pair"};
  ev(n[t.k]); for (auto& s : t.sub) count_kinds(*s);
}

static void apply_check(World& w, const TermP& t, const H& h, const World::X& x, const char* what)
{
  if (w.large and not Ref<C>::small(*t, *w.sc, x.m, 1500)) return;
  const Set want = Ref<C>::eval(*t, *w.sc, x.m);
  const S y = h(w.sc->ord, x.x);
  expect_set<C>(y, w.sh, want, what);
  dig(hash_of(want));
  ev("applications");
  if (want.size() > 1 and want != x.m) { nontrivial(); ev("applications_changing"); }
}

static TermP random_term(World& w) // one of the generators
{
  Gen<C> gen{w.g, w.dom};
  for (int tries = 0; w.large and tries < 10; ++tries)
  {
    const TermP t = gen.large(*w.sc, w.g.below(3));
    bool ok = true; for (auto& x : w.xs) ok = ok and Ref<C>::small(*t, *w.sc, x.m, 1500);
    if (ok) { ev("large_terms"); return t; }
  }
  if (w.large) return leafterm(T_ID);
  switch (w.g.below(8))
  {
    case 0: return gen.net(*w.sc);
    case 1: return gen.selector(*w.sc, 1 + w.g.below(3));
    case 2: if (w.g.chance(1, 2)) { ev("settling"); return gen.settle(*w.sc, 1 + w.g.below(2), w.g.next()); } // fallthrough
    case 3: if (w.g.chance(2, 3)) { ev("leaf_unions"); return gen.leaves(*w.sc); } // fallthrough
    default: return gen.any(*w.sc, w.g.below(5), w.g.chance(1, 2), false);
  }
}

static void mode_c04(World& w)
{
  std::vector<std::pair<TermP, H>> held;
  for (unsigned n = 4 + w.g.below(5); n--;)
  {
    const auto t = random_term(w);
    describe(t, "term"); count_kinds(*t);
    const H h = make<C>(*t, *w.sc, w.g.chance(1, 3) ? &w.g : nullptr);
    if (w.g.chance(1, 6)) { std::ostringstream os; os << h; VF_CHECK(not os.str().empty(), "printing a term gives nothing"); }
    for (auto& x : w.xs) apply_check(w, t, h, x, show(*t).c_str());
    // results become operands of later terms
    if (w.xs.size() < 6)
    {
      const auto& x = w.g.pick(w.xs);
      const Set m = Ref<C>::eval(*t, *w.sc, x.m);
      if (m.size() <= (w.large ? 20 : 300) and not m.empty()) w.xs.push_back({h(w.sc->ord, x.x), m});
    }
    held.emplace_back(t, h);
    // cons: the head level is rebuilt above the result on the rest
    if (w.g.chance(1, 4) and w.sh.items.size() > 1)
    {
      const Scope<C> tail(w.sh.items, 1);
      Gen<C> gen{w.g, w.dom};
      auto tt = w.large ? gen.large(tail, w.g.below(2)) : gen.any(tail, w.g.below(3), true, false);
      Set xm; for (unsigned k = 1 + w.g.below(6); k--;) { Tuple u; for (int i = tail.lo; i < tail.hi; ++i) u += char16_t(w.g.below(w.dom)); xm.push_back(u); }
      norm(xm);
      if (w.large and not Ref<C>::small(*tt, tail, xm, 1500)) tt = leafterm(T_ID);
      const S x = mk_over<C>(tail, xm);
      const auto& head = w.sh.items[0];
      const H inner = make<C>(*tt, tail);
      Set hm;
      for (unsigned k = 1 + w.g.below(3); k--;) { Tuple u; for (int i = 0; i < head.hi; ++i) u += char16_t(w.g.below(w.dom)); hm.push_back(u); }
      if (w.g.chance(1, 8)) hm.clear();
      norm(hm);
      S y;
      if (head.leaf()) { std::vector<unsigned> v; for (auto& u : hm) v.push_back(u[0]); y = sdd::cons(w.sc->ord, V<C>::make(v), inner)(w.sc->ord.next(), x); }
      else { const Scope<C> in(head.nested); y = sdd::cons(w.sc->ord, mk_over<C>(in, hm), inner)(w.sc->ord.next(), x); }
      const Set rest = Ref<C>::eval(*tt, tail, xm);
      Set want; for (auto& a : hm) for (auto& b : rest) want.push_back(a + b);
      norm(want);
      expect_set<C>(y, w.sh, want, "cons"); ev("cons");
    }
  }
  // earlier terms again, after all the others
  for (auto& p : held) { const auto& x = w.g.pick(w.xs); if (not too_big(x.m)) apply_check(w, p.first, p.second, x, "again"); }
}

static void mode_c05(World& w, sdd::manager<C>& man)
{
  for (unsigned n = 4 + w.g.below(4); n--;)
  {
    const auto t = random_term(w);
    describe(t, "term"); count_kinds(*t);
    const H h = make<C>(*t, *w.sc, w.g.chance(1, 4) ? &w.g : nullptr);
    const H r = sdd::rewrite(w.sc->ord, h);
    if (r != h) ev("rewritten"); else ev("unchanged");
    const H rr = sdd::rewrite(w.sc->ord, r);
    for (auto& x : w.xs)
    {
      const Set want = Ref<C>::eval(*t, *w.sc, x.m);
      const bool first = w.g.chance(1, 2);
      S a, b;
      if (first) { a = r(w.sc->ord, x.x); if (w.g.chance(1, 2)) man.reset_hom_cache(); b = h(w.sc->ord, x.x); }
      else { b = h(w.sc->ord, x.x); if (w.g.chance(1, 2)) man.reset_hom_cache(); a = r(w.sc->ord, x.x); }
      VF_CHECK(a == b, "rewritten and original term differ: " << show(*t) << " on " << show(x.m) << " over " << show(w.sh.items) << ": " << show(observe<C>(a, w.sh)) << " / " << show(observe<C>(b, w.sh)));
      expect_set<C>(a, w.sh, want, show(*t).c_str());
      VF_CHECK(rr(w.sc->ord, x.x) == a, "rewriting twice changes the result of " << show(*t));
      dig(hash_of(want)); ev("applications");
      if (want.size() > 1 and want != x.m and r != h) { nontrivial(); ev("rewritten_changing"); }
    }
  }
}

// The same net over the same flat variables, nested differently.
static void nestings(Rng& g)
{
  const int leaves = 3 + g.below(5);
  const unsigned dom = leaves > 5 ? 3 : 3 + g.below(2);
  Set want; bool have = false; Tuple start; for (int i = 0; i < leaves; ++i) start += char16_t(g.below(3));
  struct T { std::vector<std::pair<int, Spec>> fs; }; std::vector<T> ts;
  for (unsigned k = 2 + g.below(5); k--;)
  {
    T t;
    for (unsigned a = 2 + g.below(2); a--;) { Spec s; s.kind = F_MOVE; s.dom = dom; s.a = g.below(2); s.b = s.a ? g.below(2) : 1; t.fs.emplace_back(g.below(leaves), s); }
    ts.push_back(t);
  }
  for (int round = 0; round < 3; ++round)
  {
    auto m = sdd::init<C>(config<C>(random_sizes(g)));
    const Shape sh = round == 0 ? random_shape(g, leaves, 0) : random_shape(g, leaves, 1 + g.below(3));
    const Scope<C> sc(sh.items);
    std::vector<TermP> subs{leafterm(T_ID)};
    for (auto& t : ts)
    {
      TermP c;
      for (auto& f : t.fs)
      {
        auto n = std::make_shared<Term>(); n->k = T_FUN; n->at = f.first; n->id = Gen<C>::leaf_id(sh.items, f.first); n->s = f.second; n->fk = 2;
        c = c ? node(T_COMP, {n, c}) : TermP(n);
      }
      subs.push_back(c);
    }
    const auto term = node(T_FIX, {node(T_SUM, subs)});
    describe(term, "net");
    const Set mine = Ref<C>::eval(*term, sc, {start});
    if (not have) { want = mine; have = true; }
    VF_CHECK(mine == want, "reference: nesting changed the reachable states"); // sanity of the model itself
    const H h = make<C>(*term, sc, &g);
    const H r = sdd::rewrite(sc.ord, h);
    const S x = mk_tuple<C>(sh, start);
    expect_set<C>(r(sc.ord, x), sh, want, "reachable states, rewritten");
    expect_set<C>(h(sc.ord, x), sh, want, "reachable states");
    dig(hash_of(want)); ev("nestings"); mx("max_reachable", want.size());
    if (want.size() > 1) nontrivial();
  }
}

static Set head_slice(const Set& m, const Tuple& head) { Set r; for (auto& t : m) if (t.compare(0, head.size(), head) == 0) r.push_back(t.substr(head.size())); return r; }

static void mode_c16(World& w)
{
  Gen<C> gen{w.g, w.dom};
  struct K { TermP t; H h; std::size_t hash; std::vector<Set> res; };
  std::vector<K> pool;
  auto results = [&](const TermP& t) { std::vector<Set> r; for (auto& x : w.xs) r.push_back(Ref<C>::eval(*t, *w.sc, x.m)); return r; };
  auto add = [&](const TermP& t, const H& h)
  {
    K k{t, h, std::hash<H>()(h), results(t)};
    for (auto& p : pool)
    {
      if (p.h == h)
      {
        ev("identified_pairs");
        VF_CHECK(p.hash == k.hash, "equal terms hash differently: " << show(*t));
        VF_CHECK(p.res == k.res, "terms with different behaviours are identified: " << show(*t) << " and " << show(*p.t));
      }
      else ev("distinct_pairs");
      VF_CHECK((p.h != h) == not (p.h == h), "!= disagrees with == on terms");
    }
    pool.push_back(std::move(k));
  };
  const auto& o = w.sc->ord;
  for (unsigned n = 4 + w.g.below(4); n--;)
  {
    const TermP t = not pool.empty() and w.g.chance(1, 2) ? gen.mutate(w.g.pick(pool).t, *w.sc) : random_term(w);
    describe(t, "term"); count_kinds(*t);
    const H h = make<C>(*t, *w.sc);
    const H h2 = make<C>(*t, *w.sc, &w.g);
    VF_CHECK(h == h2, "the same term built again (operands shuffled, some twice) differs: " << show(*t));
    VF_CHECK(std::hash<H>()(h) == std::hash<H>()(h2), "equal terms hash differently: " << show(*t));
    VF_CHECK(not (h < h2) and not (h2 < h), "< on equal terms: " << show(*t));
    VF_CHECK(sdd::composition(sdd::id<C>(), h) == h and sdd::composition(h, sdd::id<C>()) == h, "identity is not neutral for composition: " << show(*t));
    VF_CHECK((sdd::sum<C>(o, {h, h, h}) == sdd::sum<C>(o, {h})), "duplicate operands matter in a union: " << show(*t));
    VF_CHECK((sdd::intersection<C>(o, {h, h, h}) == sdd::intersection<C>(o, {h})), "duplicate operands matter in an intersection: " << show(*t));
    VF_CHECK(sdd::fixpoint(h) == sdd::fixpoint(h), "fixpoint of the same term differs: " << show(*t));
    if (w.sh.items[0].leaf()) // cons from equal parts; the order may have been built again
    {
      const sdd::order<C> o2(to_builder<C>(w.sh.items));
      const unsigned v1 = w.g.below(w.dom), v2 = w.g.below(w.dom);
      const auto val = [&](unsigned v) { return V<C>::make({v}); };
      const H c1 = sdd::cons(o, val(v1), h), c2 = sdd::cons(w.g.chance(1, 2) ? o2 : o, val(v1), h2);
      VF_CHECK(c1 == c2 and std::hash<H>()(c1) == std::hash<H>()(c2), "cons of equal parts differ");
      const H c3 = sdd::cons(o2, val(v2), h2), c4 = sdd::cons(o2, val(v1), sdd::composition(h, h));
      VF_CHECK((c1 == c3) == (v1 == v2), "cons is equal exactly when the values are: violated");
      VF_CHECK((c1 == c4) == (sdd::composition(h, h) == h), "cons of different terms are identified");
      ev("cons_built");
    }
    auto answers = [&](const H& h)
    {
      const bool sel = h.selector();
      if (sel) ev("selectors"); else ev("not_selectors");
      for (auto& x : w.xs)
      {
        const S y = h(o, x.x);
        if (sel) VF_CHECK((y - x.x).empty(), "a selector added assignments: " << show(*t) << " on " << show(x.m));
        const Set want = Ref<C>::eval(*t, *w.sc, x.m);
        if (sel) VF_CHECK(s_diff(want, x.m).empty(), "a term reported as selector adds assignments: " << show(*t));
        if (want.size() > 1 and want != x.m) nontrivial();
        dig(hash_of(want));
      }
      // skip: level by level while the term says so
      for (auto& x : w.xs)
      {
        sdd::order<C> ord = o; S cur = x.x; Set m = x.m;
        std::size_t lvl = 0;
        while (lvl < w.sh.items.size() and h.skip(ord))
        {
          ev("skips_checked");
          const auto& it = w.sh.items[lvl];
          const int n2 = it.hi - it.lo;
          std::map<Tuple, int> heads; for (auto& u : m) heads[u.substr(0, n2)]++;
          const Shape cursh = [&] { Shape s; s.items = Items(w.sh.items.begin() + lvl, w.sh.items.end()); return s; }();
          Set whole; { Observer<C> ob; const S y = h(ord, cur); if (not y.empty()) whole = ob.set(y, cursh.items, 0); }
          Set next_m; S next_x; bool chosen = false; Set rebuilt;
          for (auto& hd : heads)
          {
            const Set rest = head_slice(m, hd.first);
            // the slice alone, below this level
            Set below; S restx;
            {
              if (lvl + 1 == w.sh.items.size()) restx = sdd::one<C>();
              else { const Scope<C> tail(w.sh.items, lvl + 1); restx = mk_over<C>(tail, rest); }
              const S y = h(ord.next(), restx);
              const Items ti(w.sh.items.begin() + lvl + 1, w.sh.items.end());
              Observer<C> ob; if (not y.empty()) below = ob.set(y, ti, 0);
            }
            VF_CHECK(head_slice(whole, hd.first) == below, "level " << lvl << " is reported as skipped but its values matter: " << show(*t) << " on " << show(m));
            for (auto& b : below) rebuilt.push_back(hd.first + b);
            if (not chosen) { chosen = true; next_m = rest; next_x = restx; }
            if (heads.size() > 8 and rebuilt.size() > 2000) break;
          }
          norm(rebuilt);
          VF_CHECK(rebuilt == whole, "level " << lvl << " is reported as skipped but its values change: " << show(*t) << " on " << show(m));
          if (heads.empty()) break;
          m = next_m; cur = next_x; ord = ord.next(); ++lvl;
        }
      }
    };
    answers(h);
    const H rw = sdd::rewrite(o, h);
    if (rw != h) { answers(rw); ev("rewritten_answers"); }
    add(t, h);
    if (w.g.chance(1, 3)) add(t, h2);
    if (w.g.chance(1, 4)) pool.erase(pool.begin() + w.g.below(pool.size()));
  }
  // rebuilt at the end, all parts possibly gone and back
  for (auto& p : pool) VF_CHECK(make<C>(*p.t, *w.sc, &w.g) == p.h, "a held term differs from the same term built later: " << show(*p.t));
}

// C01: whatever a term yields is the one diagram of its set: compared with a canonical rebuild of the
// observed set, with its operands and with every other result held.
static void mode_c01(World& w)
{
  std::vector<World::X> pool(w.xs);
  auto check = [&](const S& y, const char* what, const TermP& t)
  {
    const Set m = observe<C>(y, w.sh); // checks the structure of every node
    VF_CHECK(y.empty() == m.empty(), what << ": empty() is " << y.empty() << " for " << show(m));
    for (auto& p : pool)
    {
      const bool same = p.m == m;
      VF_CHECK((p.x == y) == same, what << " " << show(*t) << ": handles " << (same ? "differ for equal sets " : "are equal for different sets ") << show(m) << " / " << show(p.m));
      if (same) VF_CHECK(std::hash<S>()(p.x) == std::hash<S>()(y), what << ": equal diagrams hash differently");
      ev(same ? "equal_pairs" : "different_pairs");
    }
    if (m.size() <= 60)
    {
      const S r = w.g.chance(1, 2) ? mk_over<C>(*w.sc, m) : build<C>(w.g, w.sh, m);
      VF_CHECK(r == y and std::hash<S>()(r) == std::hash<S>()(y), what << " " << show(*t) << ": differs from the same set built directly: " << show(m) << " over " << show(w.sh.items));
      ev("op_rebuild");
    }
    dig(hash_of(m)); if (m.size() > 1) nontrivial();
    if (pool.size() < 12) pool.push_back({y, m});
    else { pool[w.g.below(pool.size())] = {y, m}; ev("op_drop"); }
  };
  for (unsigned n = 4 + w.g.below(5); n--;)
  {
    const auto t = random_term(w);
    describe(t, "term"); count_kinds(*t);
    const H h = make<C>(*t, *w.sc, w.g.chance(1, 3) ? &w.g : nullptr);
    const H r = w.g.chance(1, 2) ? sdd::rewrite(w.sc->ord, h) : h;
    for (unsigned k = 3; k--;)
    {
      const World::X x = w.g.pick(pool);
      if (x.m.size() > 300 or (w.large and not Ref<C>::small(*t, *w.sc, x.m, 1500))) continue;
      check(r(w.sc->ord, x.x), "result of a term", t);
      ev("applications");
    }
  }
}

// C16: a dense family of terms that differ in one detail, all held at once, in a table where they meet.
static void term_family(Rng& g)
{
  identity_map(64); palette().clear();
  hash_mask() = g.chance(1, 4) ? 3 : ~0ull;
  const Sizes sz = random_sizes(g);
  auto man = sdd::init<C>(config<C>(sz));
  const bool wide = g.chance(1, 2); // many levels: the hashes of terms of different levels meet too
  Items is(wide ? 20 + g.below(60) : 4 + g.below(4)); for (auto& i : is) if (g.chance(2, 3)) i.nested = Items(wide ? 1 : 1 + g.below(2));
  if (not is.back().leaf()) is.back().nested.clear();
  const Shape sh = finish(is);
  const unsigned dom = 5;
  const Scope<C> sc(sh.items);
  const auto& o = sc.ord;
  lg("family of terms over " + show(sh.items) + " " + show(sz));
  std::vector<Set> probes;
  for (int k = 0; k < 6; ++k) { Set m; for (unsigned n = 1 + g.below(4); n--;) { Tuple t; for (int i = 0; i < sh.leaves; ++i) t += char16_t(g.below(dom)); m.push_back(t); } norm(m); probes.push_back(m); }
  struct K { TermP t; H h; };
  std::map<std::string, K> all; // by structure
  auto put = [&](const TermP& t, bool rewritten = false)
  {
    const std::string key = (rewritten ? "sat " : "") + show(*t);
    H h = make<C>(*t, sc, g.chance(1, 2) ? &g : nullptr);
    if (rewritten) h = sdd::rewrite(o, h);
    const auto f = all.find(key);
    if (f == all.end()) { all.emplace(key, K{t, h}); return; }
    VF_CHECK(f->second.h == h and std::hash<H>()(f->second.h) == std::hash<H>()(h), "the same term built again differs: " << key);
    ev("identified_pairs");
  };
  std::vector<int> hiers; for (std::size_t i = 0; i < sh.items.size(); ++i) if (not sh.items[i].leaf()) hiers.push_back(int(i));
  std::vector<int> leaves; for (std::size_t i = 0; i < sh.items.size(); ++i) if (sh.items[i].leaf()) leaves.push_back(int(i));
  auto fun = [&](unsigned kind, int fk, unsigned a) { auto t = std::make_shared<Term>(); t->k = T_FUN; const auto& it = sh.items[g.pick(leaves)]; t->at = it.lo; t->id = it.id; t->s.kind = kind; t->s.dom = dom; t->fk = fk; if (kind == F_KEEP) t->s.keep = 1 + a; else t->s.a = a % dom; return TermP(t); };
  std::vector<TermP> fs, sel;
  for (unsigned i = 5 + g.below(4); i--;) { fs.push_back(fun(g.chance(1, 2) ? F_SET : F_ADD, 0, g.below(5))); put(fs.back()); sel.push_back(fun(F_KEEP, 1, g.below(30))); put(sel.back()); }
  auto several = [&](TermKind k, bool id) { std::vector<TermP> v; if (id) v.push_back(leafterm(T_ID)); for (unsigned n = 2 + g.below(3); n--;) v.push_back(g.pick(fs)); std::sort(v.begin(), v.end(), [](const TermP& a, const TermP& b) { return show(*a) < show(*b); }); v.erase(std::unique(v.begin(), v.end(), [](const TermP& a, const TermP& b) { return show(*a) == show(*b); }), v.end()); return node(k, v); };
  Spec inner; inner.kind = F_ADD; inner.dom = dom; inner.a = 1;
  for (unsigned n = 80 + g.below(80); n--;) switch (g.below(wide ? 22 : 12))
  {
    case 0: case 1: case 12: case 13: case 14: case 15: case 16: case 17: case 18: case 19:
    {
      if (hiers.empty()) break;
      const int i = g.pick(hiers); const auto& in = sh.items[i].nested;
      auto f = std::make_shared<Term>(); f->k = T_FUN; const auto& it = g.pick(in); f->at = it.lo; f->id = it.id; f->s = inner; f->s.a = 1 + g.below(3);
      auto t = std::make_shared<Term>(); t->k = T_LOCAL; t->at = i; t->id = sh.items[i].id; t->sub = {f};
      put(t); if (g.chance(1, 4)) fs.push_back(t); break;
    }
    case 2: put(node(T_COMP, {g.pick(fs), g.pick(fs)})); break;
    case 3: put(several(T_SUM, g.chance(1, 2)), g.chance(1, 3)); break;
    case 4: put(several(T_INTER, false), g.chance(1, 3)); break;
    case 5: put(node(T_ITE, {g.pick(sel), g.pick(fs), g.pick(fs)})); break;
    case 6: put(node(T_FIX, {several(T_SUM, true)}), g.chance(1, 2)); break;
    case 7: { auto t = std::make_shared<Term>(); t->k = T_CONST; Tuple u; for (int i = 0; i < sh.leaves; ++i) u += char16_t(i ? 0 : g.below(dom)); t->set = {u}; put(t); break; }
    case 8: { auto t = std::make_shared<Term>(); t->k = g.chance(1, 2) ? T_ONE : T_WALK; t->at = g.pick(leaves); t->id = sh.items[t->at].id; t->s = inner; t->s.a = 1 + g.below(3); put(t); break; }
    case 9: { auto t = std::make_shared<Term>(); t->k = T_MOD; t->m = 2 + g.below(3); t->r = g.below(2); put(t); break; }
    case 10: case 20: case 21: fs.push_back(fun(F_SET, 0, g.below(5))); put(fs.back()); break;
    default: put(node(T_COMP, {g.pick(sel), g.pick(sel)})); break;
  }
  for (auto a = all.begin(); a != all.end(); ++a) for (auto b = std::next(a); b != all.end(); ++b)
  {
    const H& x = a->second.h; const H& y = b->second.h;
    VF_CHECK((x != y) == not (x == y), "!= disagrees with == on terms");
    if (x == y)
    {
      VF_CHECK(std::hash<H>()(x) == std::hash<H>()(y), "equal terms hash differently");
      for (auto& p : probes) VF_CHECK(Ref<C>::eval(*a->second.t, sc, p) == Ref<C>::eval(*b->second.t, sc, p), "terms with different behaviours are identified: " << a->first << " and " << b->first);
      ev("identified_pairs"); continue;
    }
    VF_CHECK((x < y) != (y < x), "< does not separate different terms");
    ev("distinct_pairs");
  }
  for (auto& a : all) dig(a.first);
  ev("term_families"); mx("max_family", all.size()); nontrivial();
}

static void go(Rng& g, const std::string& mode)
{
  if (mode == "C16" and g.chance(1, 10)) return term_family(g);
  identity_map(64); palette().clear();
  hash_mask() = g.chance(1, 4) ? 3 : ~0ull;
  if (mode == "C05" and g.chance(1, 4)) { nestings(g); return; }
  const bool large = g.chance(1, 20);
  const int leaves = large ? 7 + g.below(g.chance(1, 3) ? 40 : 12) : 1 + g.below(6);
  const unsigned dom = large ? 2 + g.below(2) : leaves <= 3 ? 2 + g.below(4) : leaves <= 5 ? 2 + g.below(2) : 2;
  const Shape sh = random_shape(g, leaves, g.below(large ? 5 : 4));
  Sizes sz = g.chance(1, 2) ? roomy() : random_sizes(g);
  if (large) { sz.hc = std::max<std::size_t>(sz.hc, 500); sz.sum = std::max<std::size_t>(sz.sum, 200); sz.dif = std::max<std::size_t>(sz.dif, 200); sz.inter = std::max<std::size_t>(sz.inter, 200); }
  lg("order " + show(sh.items) + " dom " + std::to_string(dom) + " " + show(sz));
  auto man = sdd::init<C>(config<C>(sz));
  World w(g, sh, dom);
  w.large = large;
  if (large) w.sparse(2); else w.operands(2 + g.below(2), 80);
  if (mode == "C04") mode_c04(w);
  else if (mode == "C01") mode_c01(w);
  else if (mode == "C05") mode_c05(w, man);
  else mode_c16(w);
  mx("max_leaves", leaves); mx("max_depth", depth_of(sh.items));
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  return run_cases(o, [&](Rng& g, u64) { go(g, o.mode); });
}
