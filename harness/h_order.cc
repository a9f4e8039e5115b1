// C10: builders and orders against a model tree. C11: strategies keep identifiers and honour their contract.
#include "terms.hh"
#include "sdd/order/strategies/flatten.hh"
#include "sdd/order/strategies/force.hh"
#include "sdd/order/strategies/identifiers_per_hierarchy.hh"
using namespace vf;
using S = sdd::SDD<C>;
using H = sdd::homomorphism<C>;
using B = sdd::order_builder<C>;
using O = sdd::order<C>;
using Id = C::Identifier;

// ------------------------------------------------------------------ model: a sequence of trees
struct Tree { int id; std::vector<Tree> nested; };
using Seq = std::vector<Tree>;
static bool operator==(const Tree& a, const Tree& b) { return a.id == b.id and a.nested == b.nested; }
static bool operator!=(const Tree& a, const Tree& b) { return not (a == b); }
static std::size_t total(const Seq& s) { std::size_t n = 0; for (auto& t : s) n += 1 + total(t.nested); return n; }
static void ids(const Seq& s, std::vector<int>& r) { for (auto& t : s) { r.push_back(t.id); ids(t.nested, r); } }
static void leaf_ids(const Seq& s, std::vector<int>& r) { for (auto& t : s) { if (t.nested.empty()) r.push_back(t.id); else leaf_ids(t.nested, r); } }
static std::string show(const Seq& s) { std::string r = "["; for (auto& t : s) { if (r.size() > 1) r += ' '; r += std::to_string(t.id); if (not t.nested.empty()) r += show(t.nested); } return r + "]"; }
static unsigned depth(const Seq& s) { unsigned d = 0; for (auto& t : s) d = std::max(d, 1 + depth(t.nested)); return d; }
static u64 hash_of(const Seq& s) { u64 h = 5; for (auto& t : s) { h = mix(h, u64(t.id) + 1); h = mix(h, hash_of(t.nested)); } return mix(h, 99); }
static std::string text(const Id& id) { std::ostringstream o; o << id; return o.str(); }
static bool names(const std::string& what, const Id& id) // the identifier as a whole word
{
  const std::string t = text(id);
  auto word = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) or c == '_'; };
  for (auto p = what.find(t); p != std::string::npos; p = what.find(t, p + 1))
    if ((p == 0 or not word(what[p-1])) and (p + t.size() == what.size() or not word(what[p + t.size()]))) return true;
  return false;
}

static void same(const B& b, const Seq& s, const char* what, std::size_t i = 0)
{
  B cur = b;
  for (; i < s.size(); ++i)
  {
    VF_CHECK(not cur.empty(), what << ": the builder ends early, expected " << show(s));
    VF_CHECK(not cur.identifier().is_artificial() and cur.identifier().user() == ident<C>(s[i].id), what << ": identifier " << cur.identifier() << " instead of " << ident<C>(s[i].id));
    same(cur.nested(), s[i].nested, what);
    const B n = cur.next(); cur = n;
  }
  VF_CHECK(cur.empty(), what << ": the builder goes on after " << show(s));
}
static void check_builder(const B& b, const Seq& s, const char* what)
{
  same(b, s, what);
  VF_CHECK(b.empty() == s.empty(), what << ": empty()");
  VF_CHECK(b.size() == total(s), what << ": size " << b.size() << " instead of " << total(s));
  if (not s.empty()) VF_CHECK(b.height() == s.size(), what << ": height " << b.height() << " instead of " << s.size());
  ev("builders_checked");
}

struct Where { unsigned var, pos; std::vector<unsigned> path; int parent; };
static void locate(const Seq& s, unsigned& pos, const std::vector<unsigned>& path, std::map<int, Where>& w, std::vector<int>& by_pos)
{
  unsigned v = unsigned(s.size());
  for (auto& t : s)
  {
    --v;
    const unsigned p = pos++;
    by_pos.push_back(t.id);
    w[t.id] = {v, p, path, 0};
    auto np = path; np.push_back(p);
    locate(t.nested, pos, np, w, by_pos);
  }
}
static void check_seq(const O& o, const Seq& s, std::size_t i, const std::map<int, Where>& w)
{
  if (i == s.size()) { VF_CHECK(o.empty(), "an order goes on after its last level"); return; }
  VF_CHECK(not o.empty(), "an order ends early");
  const auto& k = w.at(s[i].id);
  VF_CHECK(o.identifier().user() == ident<C>(s[i].id) and not o.identifier().is_artificial(), "identifier " << o.identifier() << " instead of " << ident<C>(s[i].id));
  VF_CHECK(unsigned(o.variable()) == k.var, "variable of " << ident<C>(s[i].id) << " is " << unsigned(o.variable()) << " instead of " << k.var);
  VF_CHECK(o.position() == k.pos, "position of " << ident<C>(s[i].id) << " is " << o.position() << " instead of " << k.pos);
  check_seq(o.nested(), s[i].nested, 0, w);
  check_seq(o.next(), s, i + 1, w);
}
// every sub-order lists its own flat identifiers, and looks up every identifier of the whole order
static void check_parts(const O& o, const Seq& s, std::size_t i, const std::vector<int>& all, Rng& g)
{
  if (i == s.size()) return;
  std::vector<int> lv; leaf_ids(Seq(s.begin() + i, s.end()), lv);
  std::vector<Id> want, f; for (auto l : lv) want.push_back(ident<C>(l));
  o.flat(std::back_inserter(f));
  VF_CHECK(f == want, "flat identifiers of a part of an order are wrong");
  const int k = g.pick(all);
  const auto& n = o.node(ident<C>(k));
  VF_CHECK(n.identifier().user() == ident<C>(k) and &n == &o.node_from_position(n.position()), "lookup through a part of an order gives another level");
  if (not s[i].nested.empty()) check_parts(o.nested(), s[i].nested, 0, all, g); else VF_CHECK(o.nested().empty(), "a leaf has a nested order");
  check_parts(o.next(), s, i + 1, all, g);
  ev("parts_checked");
}
static void check_order(const O& o, const Seq& s, Rng& g, int unknown)
{
  std::map<int, Where> w; std::vector<int> by_pos; unsigned pos = 0;
  locate(s, pos, {}, w, by_pos);
  VF_CHECK(o.empty() == s.empty(), "empty()");
  check_seq(o, s, 0, w);
  std::vector<int> lv; leaf_ids(s, lv);
  std::vector<Id> want; for (auto l : lv) want.push_back(ident<C>(l));
  std::vector<Id> f; o.flat(std::back_inserter(f));
  VF_CHECK(f == want, "flat identifiers of " << show(s) << " are wrong");
  { std::vector<Id> raw(lv.size()); if (not raw.empty()) { o.flat(raw.begin()); VF_CHECK(raw == want, "flat identifiers of " << show(s) << " through an ordinary iterator are wrong"); } }
  if (not s.empty())
  {
    VF_CHECK(o.nodes().size() == total(s), "number of nodes");
    for (auto& k : w)
    {
      const auto& n = o.node(ident<C>(k.first));
      VF_CHECK(n.identifier().user() == ident<C>(k.first) and unsigned(n.variable()) == k.second.var and n.position() == k.second.pos, "lookup of " << ident<C>(k.first) << " gives another level");
      VF_CHECK(std::vector<unsigned>(n.path().begin(), n.path().end()) == k.second.path, "lookup of " << ident<C>(k.first) << " gives a wrong chain of enclosing levels");
      const auto& m = o.node_from_position(k.second.pos);
      VF_CHECK(m.identifier().user() == ident<C>(k.first) and &m == &n, "position " << k.second.pos << " is another level");
      for (int r = 3; r--;) { const int other = by_pos[g.below(u32(by_pos.size()))]; const auto& p = k.second.path; const unsigned up = w[other].pos;
        VF_CHECK(o.contains(up, k.second.pos) == (std::find(p.begin(), p.end(), up) != p.end()), "contains(" << up << "," << k.second.pos << ") is wrong in " << show(s)); }
      VF_CHECK((n < o.node_from_position(0)) == false and (k.second.pos == 0 or o.node_from_position(0) < n), "order of nodes");
    }
    ev("identifiers_checked", w.size());
    if (by_pos.size() < 60 or g.chance(1, 20)) check_parts(o, s, 0, by_pos, g);
  }
  // unknown identifiers
  bool ok = false;
  try { o.node(ident<C>(unknown)); } catch (const sdd::identifier_not_found_error<C>& e) { const sdd::order_error& b = e; ok = names(b.what(), ident<C>(unknown)) and b.what() == std::string(e.what()); }
  VF_CHECK(ok, "looking up an unknown identifier does not raise the error naming it");
  ev("unknown_raised");
}

static Seq random_seq(Rng& g, int& next, unsigned n, unsigned d)
{
  Seq s;
  for (unsigned i = 0; i < n; ++i)
  {
    Tree t{next++, {}};
    if (d and g.chance(1, 3)) t.nested = random_seq(g, next, 1 + g.below(4), d - 1);
    s.push_back(t);
  }
  return s;
}
static B plain_builder(const Seq& s)
{
  B b; for (auto it = s.rbegin(); it != s.rend(); ++it) if (it->nested.empty()) b.push(ident<C>(it->id)); else b.push(ident<C>(it->id), plain_builder(it->nested));
  return b;
}

// Hundreds of identifiers, dozens of nested levels.
static void c10_big(Rng& g)
{
  int next = g.below(1000);
  Seq s;
  switch (g.below(3))
  {
    case 0: s = random_seq(g, next, 100 + g.below(150), 0); break;
    case 1: { const unsigned n = 20 + g.below(60); for (unsigned i = 0; i < n; ++i) { Tree t{next++, random_seq(g, next, g.below(12), g.below(2))}; s.push_back(t); } break; }
    default: // a deep chain of levels
      for (unsigned d = 10 + g.below(60); d--;) { Seq up; for (unsigned i = g.below(3); i--;) up.push_back({next++, {}}); up.push_back({next++, s}); for (unsigned i = g.below(3); i--;) up.push_back({next++, {}}); s = up; }
      break;
  }
  B b = plain_builder(s);
  check_builder(b, s, "big builder");
  const O o(b);
  check_order(o, s, g, next + 5);
  const O again(plain_builder(s));
  VF_CHECK(o == again and std::hash<O>()(o) == std::hash<O>()(again), "big orders of the same structure differ");
  // one change somewhere
  std::function<void(Seq&)> tweak = [&](Seq& q) { const unsigned i = g.below(u32(q.size())); if (not q[i].nested.empty() and g.chance(9, 10)) return tweak(q[i].nested); if (g.chance(1, 2)) q[i].id = next + 7; else q.insert(q.begin() + i, {next + 7, {}}); };
  Seq m = s; tweak(m);
  const O other(plain_builder(m));
  VF_CHECK(not (o == other) and not (other == o), "big orders that differ in one identifier are equal");
  // a duplicate at both ends
  std::vector<int> v; ids(s, v);
  B dup = b; dup.push(ident<C>(v[v.size() - 1 - g.below(3) % v.size()]));
  bool raised = false; try { O x(dup); } catch (const sdd::duplicate_identifier_error<C>&) { raised = true; }
  VF_CHECK(raised, "a big order with a duplicate identifier is accepted"); ev("duplicates_raised");
  check_builder(b, s, "big builder, after its copy changed");
  mx("max_identifiers", v.size()); mx("max_depth", depth(s)); ev("big_orders"); nontrivial(); dig(hash_of(s));
}

static void c10(Rng& g)
{
  if (g.chance(1, 100)) return c10_big(g);
  struct E { B b; Seq s; };
  std::vector<E> pool{{B(), {}}};
  int next = g.below(100);
  auto fresh = [&] { return next++; };
  auto put = [&](B b, Seq s)
  {
    if (total(s) > 120 or s.size() > 200) return;
    dig(hash_of(s));
    if (pool.size() < 7) pool.push_back({b, s}); else pool[g.below(7)] = {b, s};
  };
  std::vector<std::pair<O, Seq>> orders;
  for (unsigned step = 10 + g.below(40); step--;)
  {
    const unsigned k = g.below(u32(pool.size()));
    switch (g.below(13))
    {
      case 0: { const int i = fresh(); put(B(ident<C>(i)), {{i, {}}}); break; }
      case 1: { const Id id = ident<C>(next); const int i = fresh(); put(B(id), {{i, {}}}); break; }
      case 2: { Seq s; std::vector<Id> v; for (unsigned n = g.below(8); n--;) { const int i = fresh(); s.push_back({i, {}}); v.push_back(ident<C>(i)); } put(B(v.begin(), v.end()), s); break; }
      case 3: { const int a = fresh(), b = fresh(), c = fresh(); put(B{ident<C>(a), ident<C>(b), ident<C>(c)}, {{a, {}}, {b, {}}, {c, {}}}); break; }
      case 4: { const int i = fresh(); const auto e = pool[k]; if (g.chance(1, 2)) put(B(ident<C>(i), e.b), {{i, e.s}}); else { const Id id = ident<C>(i); put(B(id, e.b), {{i, e.s}}); } break; }
      case 5: case 6: { auto& e = pool[k]; if (e.s.size() > 100) break; const int i = fresh(); B& r = e.b.push(ident<C>(i)); VF_CHECK(&r == &e.b, "push returns another builder"); e.s.insert(e.s.begin(), {i, {}}); break; }
      case 7: { const auto n = pool[g.below(u32(pool.size()))]; auto& e = pool[k]; if (e.s.size() > 100 or total(n.s) + total(e.s) > 100) break; const int i = fresh(); e.b.push(ident<C>(i), n.b); e.s.insert(e.s.begin(), {i, n.s}); break; }
      case 8: // append: changes the left one, returns the result
      {
        const auto n = pool[g.below(u32(pool.size()))]; auto& e = pool[k];
        if (total(n.s) + total(e.s) > 100) break;
        const B r = e.b << n.b;
        e.s.insert(e.s.end(), n.s.begin(), n.s.end());
        check_builder(r, e.s, "appended");
        break;
      }
      case 9: { const auto e = pool[k]; put(e.b, e.s); break; }                       // a copy, later changed on its own
      case 10: if (not pool[k].s.empty()) { const auto e = pool[k]; const Seq rest(e.s.begin() + 1, e.s.end()); put(e.b.next(), rest); put(e.b.nested(), e.s[0].nested); } break;
      case 11: if (pool.size() > 2) pool.erase(pool.begin() + k); break;
      default: { Seq s = random_seq(g, next, 1 + g.below(5), g.below(5)); put(plain_builder(s), s); break; }
    }
    if (pool.empty()) pool.push_back({B(), {}});
    // every builder is still what it was, whatever happened to its copies
    for (auto& e : pool) check_builder(e.b, e.s, "builder");
    if (g.chance(1, 2))
    {
      const auto e = g.pick(pool);
      std::vector<int> v; ids(e.s, v);
      std::map<int, int> count; for (auto i : v) ++count[i];
      std::vector<int> dups; for (auto& c : count) if (c.second > 1) dups.push_back(c.first);
      if (not dups.empty())
      {
        bool raised = false, named = false;
        try { O o(e.b); } catch (const sdd::duplicate_identifier_error<C>& x) { raised = true; for (auto d : dups) named = named or names(static_cast<const sdd::order_error&>(x).what(), ident<C>(d)); }
        VF_CHECK(raised and named, "an order with the duplicate identifier " << ident<C>(dups[0]) << (raised ? " raises an error that does not name it" : " is accepted") << ": " << show(e.s));
        ev("duplicates_raised");
      }
      else
      {
        const O o(e.b);
        check_order(o, e.s, g, next + 3);
        ev("orders_checked"); mx("max_depth", depth(e.s)); mx("max_identifiers", v.size());
        if (v.size() > 2) nontrivial();
        // copies and sub-orders outlive the order they come from
        if (orders.size() < 6) orders.push_back({o, e.s}); else orders[g.below(6)] = {o, e.s};
        if (not e.s.empty())
        {
          O sub = o, deep = o;
          { O tmp(e.b); sub = tmp; deep = tmp.nested(); const O t2 = std::move(tmp); sub = t2; }
          check_order(sub, e.s, g, next + 1);
          std::map<int, Where> w; std::vector<int> bp; unsigned p = 0; locate(e.s, p, {}, w, bp);
          check_seq(deep, e.s[0].nested, 0, w);
          VF_CHECK(sub == o and o == sub, "an order differs from one built from the same builder");
          const O again(plain_builder(e.s));
          VF_CHECK(again == o, "an order differs from one of the same structure");
          VF_CHECK(std::hash<O>()(again) == std::hash<O>()(o) and std::hash<O>()(sub) == std::hash<O>()(o), "orders of the same structure hash differently");
        }
      }
    }
  }
  for (auto& a : orders)
  {
    check_order(a.first, a.second, g, next + 7);
    for (auto& b : orders)
    {
      VF_CHECK((a.first == b.first) == (a.second == b.second), "orders " << show(a.second) << " and " << show(b.second) << (a.second == b.second ? " differ" : " are equal"));
      if (a.second == b.second) VF_CHECK(std::hash<O>()(a.first) == std::hash<O>()(b.first), "equal orders " << show(a.second) << " hash differently");
      ev(a.second == b.second ? "equal_orders" : "different_orders");
    }
    // near misses: one detail changed
    Seq m = a.second; if (m.empty()) continue;
    std::function<bool(Seq&)> tweak = [&](Seq& s) -> bool
    {
      const unsigned i = g.below(u32(s.size()));
      if (not s[i].nested.empty() and g.chance(1, 2)) return tweak(s[i].nested);
      switch (g.below(5))
      {
        case 0: s[i].id = next + 11; return true;
        case 1: if (s.size() < 2) return false; std::swap(s[0], s[s.size() - 1]); return true;
        case 2: s.insert(s.begin() + i, {next + 12, {}}); return true;
        case 3: s[i].nested.insert(s[i].nested.begin(), {next + 13, {}}); return true;
        default: if (s[i].nested.empty()) return false; { const Seq in = s[i].nested; s[i].nested.clear(); s.insert(s.begin() + i + 1, in.begin(), in.end()); } return true; // out of the hierarchy: same pre-order
      }
    };
    if (tweak(m) and m.size() < 200) { const O o(plain_builder(m)); check_order(o, m, g, next + 20); VF_CHECK(not (o == a.first) and not (a.first == o), "orders " << show(m) << " and " << show(a.second) << " are equal"); ev("near_misses"); }
  }
}

// ------------------------------------------------------------------ C11
// the shape of an order, read from it
static Items items_of(const O& o0)
{
  Items is;
  for (O o = o0; not o.empty(); ) { Item i; if (not o.nested().empty()) i.nested = items_of(o.nested()); is.push_back(i); const O n = o.next(); o = n; }
  return is;
}
static void builder_flat(const B& b, std::vector<Id>& r) { for (B c = b; not c.empty(); ) { if (c.nested().empty()) r.push_back(c.identifier().user()); else builder_flat(c.nested(), r); const B n = c.next(); c = n; } }
static void builder_max_height(const B& b, std::size_t& m) { if (b.empty()) return; m = std::max(m, b.height()); for (B c = b; not c.empty(); ) { builder_max_height(c.nested(), m); const B n = c.next(); c = n; } }
static void artificials(const B& b, std::vector<unsigned>& r, bool& bad) { for (B c = b; not c.empty(); ) { if (c.identifier().is_artificial()) { r.push_back(c.identifier().artificial()); if (c.nested().empty()) bad = true; } artificials(c.nested(), r, bad); const B n = c.next(); c = n; } }

// the order is usable: its initial diagram and an operation on one leaf are right
static void usable(const B& b, const std::vector<Id>& flat, Rng& g, const char* what)
{
  identity_map(64); palette().clear(); hash_mask() = ~0ull;
  auto man = sdd::init<C>(config<C>(roomy()));
  const O o(b);
  std::vector<Id> f; o.flat(std::back_inserter(f));
  VF_CHECK(f == flat, what << ": the order lists other flat identifiers than the builder");
  const Shape sh = finish(items_of(o));
  VF_CHECK(sh.leaves == int(flat.size()), what << ": " << sh.leaves << " leaves instead of " << flat.size());
  std::map<Id, int> at; for (std::size_t i = 0; i < flat.size(); ++i) at[flat[i]] = int(i);
  std::vector<std::vector<unsigned>> box; for (std::size_t i = 0; i < flat.size(); ++i) box.push_back({unsigned(i % 7)});
  if (flat.size() > 1) { box[0] = {1, 2}; box[flat.size() / 2] = {0, 3}; }
  const S x(o, [&](const Id& id) { return V<C>::make(box[at.at(id)]); });
  expect_set<C>(x, sh, expand(box), "initial diagram over the order of a strategy");
  const int k = g.below(u32(flat.size()));
  Spec s; s.kind = F_ADD; s.a = 1; s.dom = 10;
  const H h = sdd::function(o, flat[k], UserFun<C, 0>{s});
  auto box2 = box; for (auto& v : box2[k]) v = (v + 1) % 10;
  expect_set<C>(h(o, x), sh, expand(box2), "operation over the order of a strategy");
  const H fx = sdd::rewrite(o, sdd::fixpoint(sdd::sum<C>(o, {sdd::id<C>(), h})));
  auto box3 = box; box3[k] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
  expect_set<C>(fx(o, x), sh, expand(box3), "saturation over the order of a strategy");
  // every level of its own
  std::set<unsigned> pos; for (auto& n : o.nodes()) VF_CHECK(pos.insert(n.position()).second, what << ": two levels at one position");
  ev("orders_used");
}

static void c11(Rng& g)
{
  int next = 0;
  std::vector<Id> flat;
  switch (g.below(3))
  {
    case 0: // flattening
    {
      Seq s = random_seq(g, next, g.chance(1, 30) ? 30 + g.below(100) : g.below(8), g.below(5));
      if (g.chance(1, 50)) for (unsigned d = 5 + g.below(40); d--;) { Seq up; for (unsigned i = g.below(3); i--;) up.push_back({next++, {}}); up.push_back({next++, s}); for (unsigned i = g.below(3); i--;) up.push_back({next++, {}}); s = up; }
      std::vector<int> v; leaf_ids(s, v);
      for (auto i : v) flat.push_back(ident<C>(i));
      const B b = plain_builder(s);
      const B f = sdd::flatten<C>()(b);
      check_builder(b, s, "the builder given to flatten");
      Seq want; for (auto i : v) want.push_back({i, {}});
      check_builder(f, want, "flattened");
      check_builder(sdd::flatten<C>()(f), want, "flattened twice");
      if (not flat.empty() and flat.size() < 60 and g.chance(1, 3)) usable(f, flat, g, "flatten");
      ev("flattened"); dig(hash_of(s)); if (v.size() > 1) nontrivial();
      break;
    }
    case 1: // grouping
    {
      const bool nested = g.chance(1, 4);
      const unsigned m = g.chance(1, 10) ? g.below(3) : g.chance(1, 3) ? 100 + g.below(150) : 1 + g.below(40);
      const Seq s = nested ? random_seq(g, next, m % 40, 2) : random_seq(g, next, m, 0);
      std::vector<int> v; leaf_ids(s, v);
      for (auto i : v) flat.push_back(ident<C>(i));
      const B b = plain_builder(s);
      const unsigned n = g.chance(1, 10) ? 1 : g.chance(1, 6) ? 50 + g.below(200) : 2 + g.below(9);
      const B r = sdd::identifiers_per_hierarchy<C>(n)(b);
      check_builder(b, s, "the builder given to identifiers_per_hierarchy");
      std::vector<Id> f; builder_flat(r, f);
      VF_CHECK(f == flat, "grouping by " << n << " changes the flat identifiers of " << show(s));
      std::size_t h = 0; builder_max_height(r, h);
      if (n >= 2 and not nested) VF_CHECK(h <= n, "grouping by " << n << " leaves a level of " << h << " identifiers");
      if (n >= 2 and not r.empty()) VF_CHECK(r.height() <= n, "grouping by " << n << " leaves " << r.height() << " identifiers at the top");
      std::vector<unsigned> art; bool bad = false; artificials(r, art, bad);
      std::set<unsigned> distinct(art.begin(), art.end());
      VF_CHECK(not bad, "an artificial level of a grouped order is empty");
      VF_CHECK(distinct.size() == art.size(), "two artificial levels of a grouped order share an identifier");
      // user identifiers (hierarchies included): all there, once
      std::vector<Id> user; std::function<void(const B&)> walk = [&](const B& x) { for (B c = x; not c.empty(); ) { if (not c.identifier().is_artificial()) user.push_back(c.identifier().user()); walk(c.nested()); const B nx = c.next(); c = nx; } };
      walk(r);
      std::vector<int> all; ids(s, all); std::vector<Id> want; for (auto i : all) want.push_back(ident<C>(i));
      VF_CHECK(user == want, "grouping by " << n << " changes the identifiers of " << show(s));
      if (m <= n and n >= 2 and not nested) check_builder(r, s, "an order that needs no grouping");
      if (not flat.empty() and flat.size() < 60 and g.chance(1, 3)) usable(r, flat, g, "identifiers_per_hierarchy");
      ev("grouped"); mx("max_grouped", s.size()); dig(hash_of(s)); dig(n); if (v.size() > 1) nontrivial();
      break;
    }
    default: // FORCE
    {
      const unsigned n = 1 + g.below(g.chance(1, 60) ? 300 : g.chance(1, 4) ? 60 : 12);
      std::vector<Id> v; for (unsigned i = 0; i < n; ++i) v.push_back(ident<C>(int(i)));
      for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[g.below(u32(i))]);
      sdd::force::hypergraph<C> gr(v.begin(), v.end());
      std::vector<std::vector<Id>> edges;
      const bool weights = g.chance(1, 4);
      for (unsigned e = g.below(2 * n + 2); e--;)
      {
        std::vector<Id> ed; const unsigned k = g.chance(1, 10) ? 0 : 1 + g.below(std::min(n, 5u));
        for (unsigned i = 0; i < k; ++i) ed.push_back(g.pick(v));
        std::sort(ed.begin(), ed.end()); ed.erase(std::unique(ed.begin(), ed.end()), ed.end());
        for (std::size_t i = ed.size(); i > 1; --i) std::swap(ed[i-1], ed[g.below(u32(i))]);
        if (weights) gr.add_hyperedge(ed.begin(), ed.end(), 1 + g.below(5)); else gr.add_hyperedge(ed.begin(), ed.end());
        if (not ed.empty()) edges.push_back(ed);
      }
      const unsigned its = g.chance(1, 6) ? g.below(2) : g.chance(1, 40) ? 200 + g.below(200) : 2 + g.below(40);
      const bool rev = g.chance(1, 2);
      sdd::force::worker<C> w(gr, rev);
      const B b = w(its);
      std::vector<Id> f; builder_flat(b, f);
      for (B c = b; not c.empty(); ) { VF_CHECK(c.nested().empty() and not c.identifier().is_artificial(), "FORCE returns a nested order"); const B nx = c.next(); c = nx; }
      auto sorted = f, want = v; std::sort(sorted.begin(), sorted.end()); std::sort(want.begin(), want.end());
      VF_CHECK(sorted == want, "FORCE does not return the identifiers it was given: " << f.size() << " of " << v.size());
      VF_CHECK(w.spans().size() == its, "FORCE reports " << w.spans().size() << " spans for " << its << " iterations");
      std::map<Id, int> at; for (std::size_t i = 0; i < f.size(); ++i) at[f[i]] = int(i);
      double span = 0;
      for (auto& e : edges) { int lo = 1 << 30, hi = 0; for (auto& i : e) { lo = std::min(lo, at[i]); hi = std::max(hi, at[i]); } span += hi - lo; }
      if (its)
      {
        const double best = *std::min_element(w.spans().begin(), w.spans().end());
        VF_CHECK(span == best, "FORCE returns an arrangement of span " << span << ", the smallest it reports is " << best);
        if (*std::max_element(w.spans().begin(), w.spans().end()) > best) ev("force_spans_differ");
        if (w.spans().back() > best) ev("force_last_not_best");
      }
      if (g.chance(1, 6) and n < 60) usable(b, f, g, "FORCE");
      ev("forced"); dig(u64(span)); for (auto& e : edges) dig(e.size()); if (edges.size() > 1) nontrivial();
      // a duplicate identifier is refused
      if (g.chance(1, 5)) { auto d = v; d.push_back(g.pick(v)); bool r = false; try { sdd::force::hypergraph<C> g2(d.begin(), d.end()); } catch (const std::runtime_error& e) { r = names(e.what(), d.back()); } VF_CHECK(r, "a hypergraph with a duplicate identifier is accepted"); ev("force_duplicates"); }
      break;
    }
  }
}

int main(int argc, char** argv)
{
  const auto o = parse(argc, argv);
  return run_cases(o, [&](Rng& g, u64) { if (o.mode == "C11") c11(g); else c10(g); });
}
