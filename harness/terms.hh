// Operation terms: generator, construction with the library, reference interpreter on explicit sets.
#pragma once
#include "common.hh"
#include <memory>

namespace vf {

// ------------------------------------------------------------------ functions on one value
enum FunKind : unsigned { F_ADD, F_KEEP, F_SET, F_GROW, F_SHIFT, F_NONE, F_HALF, F_MOVE, F_UP, F_DOWN };
struct Spec
{
  unsigned kind = 0, a = 0, b = 0, dom = 4;
  u64 keep = 0; // F_KEEP: bit v set = value v is kept
  std::vector<unsigned> apply(unsigned v) const
  {
    switch (kind)
    {
      case F_ADD: return {v < dom ? (v + a) % dom : v};            // permutation of 0..dom-1
      case F_KEEP: return (keep >> (v & 63)) & 1 ? std::vector<unsigned>{v} : std::vector<unsigned>{};
      case F_SET: return {a};
      case F_GROW: return {v, v < dom ? (v + a) % dom : v};
      case F_SHIFT: return v + a < 60 ? std::vector<unsigned>{v + a} : std::vector<unsigned>{};
      case F_NONE: return {};
      case F_HALF: return {v / 2};
      case F_UP: return {v < a ? v + 1 : v};                       // up to a, step by step
      case F_DOWN: return {v > a ? v - 1 : v};                     // down to a
      default: return v >= a and v - a + b < dom ? std::vector<unsigned>{v - a + b} : std::vector<unsigned>{}; // consume a, produce b
    }
  }
  bool can_select() const { return kind == F_KEEP or kind == F_NONE; }
  bool can_shift() const { return kind == F_ADD or kind == F_SHIFT or kind == F_MOVE or kind == F_KEEP; }
  bool operator==(const Spec& o) const { return kind == o.kind and a == o.a and b == o.b and dom == o.dom and keep == o.keep; }
  std::size_t hash() const { return mix(mix(mix(mix(kind, a), b), dom), keep); }
  std::string show() const
  {
    static const char* n[] = {"add", "keep", "set", "grow", "shift", "none", "half", "move", "up", "down"};
    return std::string(n[kind]) + (kind == F_KEEP ? "#" + std::to_string(keep) : std::to_string(a) + (kind == F_MOVE ? "/" + std::to_string(b) : ""));
  }
};
inline u64& hash_mask() { static u64 m = ~0ull; return m; } // small: user hashes collide

// User function calls are observed here (C09 makes the n-th one throw).
struct UserFault : std::exception { u64 token; explicit UserFault(u64 t) : token(t) {} const char* what() const noexcept override { return "user fault"; } };
struct UserFault2 : UserFault { using UserFault::UserFault; };
struct PlainFault { u64 token; };
// What kind of exception a fault is: of the user's own, of the standard library, not an exception class at all.
enum { FAULT_USER, FAULT_DERIVED, FAULT_PLAIN, FAULT_INT, FAULT_RANGE, FAULT_LENGTH, FAULT_RUNTIME, FAULT_INVALID, FAULT_ALLOC, FAULT_KINDS };
struct Calls
{
  u64 n = 0, fail_at = 0, thrown = 0; unsigned kind = 0;
  void tick() { if (++n == fail_at) { ++thrown; raise(); } }
  [[noreturn]] void raise() const
  {
    const std::string tok = "token " + std::to_string(n);
    switch (kind)
    {
      case FAULT_DERIVED: throw UserFault2(n);
      case FAULT_PLAIN: throw PlainFault{n};
      case FAULT_INT: throw int(n);
      case FAULT_RANGE: throw std::out_of_range(tok);
      case FAULT_LENGTH: throw std::length_error(tok);
      case FAULT_RUNTIME: throw std::runtime_error(tok);
      case FAULT_INVALID: throw std::invalid_argument(tok);
      case FAULT_ALLOC: throw std::bad_alloc();
      default: throw UserFault(n);
    }
  }
};
inline Calls& CALLS() { static Calls c; return c; }

template <typename C> typename C::Values apply_spec(const Spec& s, const typename C::Values& vs)
{
  CALLS().tick();
  std::vector<unsigned> r;
  for (auto v : dec(vs)) for (auto w : s.apply(v)) r.push_back(w);
  return V<C>::make(r);
}

template <typename C, int K> struct UserFun;
template <typename C> struct UserFun<C, 0> // plain
{
  Spec s;
  typename C::Values operator()(const typename C::Values& v) const { return apply_spec<C>(s, v); }
  bool operator==(const UserFun& o) const { return s == o.s; }
};
template <typename C> struct UserFun<C, 1> // selector
{
  Spec s;
  typename C::Values operator()(const typename C::Values& v) const { return apply_spec<C>(s, v); }
  bool operator==(const UserFun& o) const { return s == o.s; }
  bool selector() const noexcept { return true; }
};
template <typename C> struct UserFun<C, 2> // shifter
{
  Spec s;
  typename C::Values operator()(const typename C::Values& v) const { return apply_spec<C>(s, v); }
  bool operator==(const UserFun& o) const { return s == o.s; }
  bool shifter() const noexcept { return true; }
};
template <typename C, int K> std::ostream& operator<<(std::ostream& os, const UserFun<C, K>& f) { return os << f.s.show(); }

// ------------------------------------------------------------------ inductives
// Applies a function to one leaf of the scope, skipping the others.
template <typename C> struct IndOne
{
  typename C::Identifier target; Spec s; bool sel;
  using O = sdd::order<C>; using H = sdd::homomorphism<C>;
  bool skip(const typename C::Identifier& i) const noexcept { return i != target; }
  bool selector() const noexcept { return sel; }
  H operator()(const O& o, const sdd::SDD<C>& x) const { CALLS().tick(); return sdd::cons(o, x, sdd::id<C>()); }
  H operator()(const O& o, const typename C::Values& v) const { return sdd::cons(o, apply_spec<C>(s, v), sdd::id<C>()); }
  sdd::SDD<C> operator()() const { CALLS().tick(); return sdd::one<C>(); }
  bool operator==(const IndOne& o) const { return target == o.target and s == o.s and sel == o.sel; }
};
// The same without skip(): copies every other level itself.
template <typename C> struct IndWalk
{
  typename C::Identifier target; Spec s;
  using O = sdd::order<C>; using H = sdd::homomorphism<C>;
  H operator()(const O& o, const sdd::SDD<C>& x) const { CALLS().tick(); return sdd::cons(o, x, sdd::inductive<C>(*this)); }
  H operator()(const O& o, const typename C::Values& v) const
  {
    if (o.identifier().user() == target) return sdd::cons(o, apply_spec<C>(s, v), sdd::id<C>());
    return sdd::cons(o, v, sdd::inductive<C>(*this));
  }
  sdd::SDD<C> operator()() const { CALLS().tick(); return sdd::one<C>(); }
  bool operator==(const IndWalk& o) const { return target == o.target and s == o.s; }
};
// Keeps assignments whose direct leaves sum to r modulo m.
template <typename C> struct IndMod
{
  unsigned m, r, acc;
  using O = sdd::order<C>; using H = sdd::homomorphism<C>;
  bool selector() const noexcept { return true; }
  H operator()(const O& o, const sdd::SDD<C>& x) const { CALLS().tick(); return sdd::cons(o, x, sdd::inductive<C>(*this)); }
  H operator()(const O& o, const typename C::Values& v) const
  {
    CALLS().tick();
    std::map<unsigned, std::vector<unsigned>> by;
    for (auto x : dec(v)) by[(acc + x) % m].push_back(x);
    std::vector<H> ops;
    for (auto& p : by) ops.push_back(sdd::cons(o, V<C>::make(p.second), sdd::inductive<C>(IndMod{m, r, p.first})));
    return sdd::sum(o, ops.begin(), ops.end());
  }
  sdd::SDD<C> operator()() const { CALLS().tick(); return acc % m == r ? sdd::one<C>() : sdd::zero<C>(); }
  bool operator==(const IndMod& o) const { return m == o.m and r == o.r and acc == o.acc; }
};
// Applies a function to every leaf, nested ones included.
template <typename C> struct IndDeep
{
  Spec s;
  using O = sdd::order<C>; using H = sdd::homomorphism<C>;
  H operator()(const O& o, const sdd::SDD<C>& x) const { CALLS().tick(); const H h = sdd::inductive<C>(*this); return sdd::cons(o, h(o.nested(), x), h); }
  H operator()(const O& o, const typename C::Values& v) const { return sdd::cons(o, apply_spec<C>(s, v), sdd::inductive<C>(*this)); }
  sdd::SDD<C> operator()() const { CALLS().tick(); return sdd::one<C>(); }
  bool operator==(const IndDeep& o) const { return s == o.s; }
};
// Two leaves of the scope, a above b: copies a into b (mode 0), or keeps assignments with a < b (mode 1), a == b (2).
template <typename C> struct IndPair
{
  typename C::Identifier a, b; unsigned mode;
  using O = sdd::order<C>; using H = sdd::homomorphism<C>;
  bool skip(const typename C::Identifier& i) const noexcept { return i != a; }
  bool selector() const noexcept { return mode != 0; }
  static Spec below(unsigned mode, unsigned v)
  {
    Spec s;
    if (mode == 0) { s.kind = F_SET; s.a = v; }
    else { s.kind = F_KEEP; s.keep = mode == 1 ? (v >= 63 ? 0 : ~0ull << (v + 1)) : 1ull << (v & 63); }
    return s;
  }
  H operator()(const O& o, const sdd::SDD<C>& x) const { CALLS().tick(); return sdd::cons(o, x, sdd::id<C>()); }
  H operator()(const O& o, const typename C::Values& v) const
  {
    CALLS().tick();
    std::vector<H> ops;
    for (auto x : dec(v)) ops.push_back(sdd::cons(o, V<C>::make({x}), sdd::inductive<C>(IndOne<C>{b, below(mode, x), mode != 0})));
    return sdd::sum(o, ops.begin(), ops.end());
  }
  sdd::SDD<C> operator()() const { CALLS().tick(); return sdd::one<C>(); }
  bool operator==(const IndPair& o) const { return a == o.a and b == o.b and mode == o.mode; }
};

} // namespace vf

namespace std {
template <typename C, int K> struct hash<vf::UserFun<C, K>> { size_t operator()(const vf::UserFun<C, K>& f) const noexcept { return f.s.hash() & vf::hash_mask(); } };
template <typename C> struct hash<vf::IndOne<C>> { size_t operator()(const vf::IndOne<C>& i) const noexcept { return vf::mix(std::hash<typename C::Identifier>()(i.target), i.s.hash() + i.sel) & vf::hash_mask(); } };
template <typename C> struct hash<vf::IndWalk<C>> { size_t operator()(const vf::IndWalk<C>& i) const noexcept { return vf::mix(std::hash<typename C::Identifier>()(i.target), i.s.hash()) & vf::hash_mask(); } };
template <typename C> struct hash<vf::IndMod<C>> { size_t operator()(const vf::IndMod<C>& i) const noexcept { return vf::mix(vf::mix(i.m, i.r), i.acc) & vf::hash_mask(); } };
template <typename C> struct hash<vf::IndDeep<C>> { size_t operator()(const vf::IndDeep<C>& i) const noexcept { return i.s.hash() & vf::hash_mask(); } };
template <typename C> struct hash<vf::IndPair<C>> { size_t operator()(const vf::IndPair<C>& i) const noexcept { return vf::mix(vf::mix(std::hash<typename C::Identifier>()(i.a), std::hash<typename C::Identifier>()(i.b)), i.mode) & vf::hash_mask(); } };
}

namespace vf {

// ------------------------------------------------------------------ scopes
// A sequence of items (the order, a tail of it, or a nested level), with an order object of its own.
template <typename C> struct Scope
{
  const Items* items; std::size_t from = 0;
  int lo, hi;
  sdd::order<C> ord;
  std::map<int, std::unique_ptr<Scope>> kids; // by index of item
  static Items tail(const Items& is, std::size_t f) { return Items(is.begin() + f, is.end()); }
  Scope(const Items& is, std::size_t f = 0)
    : items(&is), from(f), lo(f < is.size() ? is[f].lo : is.back().hi), hi(is.back().hi), ord(to_builder<C>(tail(is, f)))
  {
    for (std::size_t i = f; i < is.size(); ++i) if (not is[i].leaf()) kids[int(i)].reset(new Scope(is[i].nested));
  }
  std::vector<int> leaves() const { std::vector<int> r; for (std::size_t i = from; i < items->size(); ++i) if ((*items)[i].leaf()) r.push_back(int(i)); return r; }
  std::vector<int> hiers() const { std::vector<int> r; for (auto& k : kids) r.push_back(k.first); return r; }
};

// ------------------------------------------------------------------ terms
enum TermKind { T_ID, T_CONST, T_COMP, T_SUM, T_INTER, T_FIX, T_ITE, T_LOCAL, T_FUN, T_ONE, T_WALK, T_MOD, T_DEEP, T_PAIR };
struct Term;
using TermP = std::shared_ptr<const Term>;
struct Term
{
  TermKind k = T_ID;
  std::vector<TermP> sub;
  int at = -1, at2 = -1;  // item index (T_LOCAL, T_ONE, T_WALK, T_PAIR) or leaf number (T_FUN: leaf of the scope's range)
  int id = -1, id2 = -1;  // identifier numbers
  Spec s; int fk = 0;     // fk: user function type
  unsigned m = 2, r = 0, mode = 0;
  Set set;                // T_CONST
};
inline std::string show(const Term& t)
{
  auto list = [&](const char* n) { std::string r = std::string(n) + "("; for (auto& s : t.sub) { if (r.back() != '(') r += ","; r += show(*s); } return r + ")"; };
  switch (t.k)
  {
    case T_ID: return "id";
    case T_CONST: return "const" + show(t.set);
    case T_COMP: return list("comp");
    case T_SUM: return list("sum");
    case T_INTER: return list("inter");
    case T_FIX: return list("fix");
    case T_ITE: return list("ite");
    case T_LOCAL: return "@" + std::to_string(t.at) + list("local");
    case T_FUN: return "fun" + std::to_string(t.fk) + "[v" + std::to_string(t.id) + "," + t.s.show() + "]";
    case T_ONE: return "ind[v" + std::to_string(t.id) + "," + t.s.show() + "]";
    case T_WALK: return "walk[v" + std::to_string(t.id) + "," + t.s.show() + "]";
    case T_MOD: return "mod[" + std::to_string(t.m) + "," + std::to_string(t.r) + "]";
    case T_DEEP: return "deep[" + t.s.show() + "]";
    default: return "pair" + std::to_string(t.mode) + "[v" + std::to_string(t.id) + ",v" + std::to_string(t.id2) + "]";
  }
}
inline u64 hash_of(const Term& t) { u64 h = 3; for (unsigned char c : show(t)) h = mix(h, c); return h; }

inline Spec random_spec(Rng& g, unsigned dom, bool infix)
{
  Spec s; s.dom = dom;
  for (;;)
  {
    s.kind = g.below(10);
    if (infix and s.kind == F_SHIFT) continue;
    if (s.kind == F_NONE and g.chance(3, 4)) continue;
    break;
  }
  s.a = s.kind == F_SHIFT ? 1 + g.below(2) : s.kind == F_MOVE ? g.below(2) : g.below(dom);
  s.b = s.kind == F_MOVE ? g.below(2) : 0;
  if (s.kind == F_KEEP) s.keep = g.next() | (g.chance(1, 2) ? 1ull << g.below(dom) : 0);
  return s;
}
inline Spec keep_spec(Rng& g, unsigned dom) { Spec s; s.dom = dom; s.kind = F_KEEP; s.keep = g.chance(1, 3) ? ~0ull << g.below(dom) : (g.next() | g.next()); return s; }

inline TermP leafterm(TermKind k) { auto t = std::make_shared<Term>(); t->k = k; return t; }
inline TermP node(TermKind k, std::vector<TermP> sub) { auto t = std::make_shared<Term>(); t->k = k; t->sub = std::move(sub); return t; }

template <typename C> struct Gen
{
  Rng& g; unsigned dom;
  // the identifier of leaf `l` inside items (searching nested levels)
  static int leaf_id(const Items& is, int l) { for (auto& i : is) if (l >= i.lo and l < i.hi) return i.leaf() ? i.id : leaf_id(i.nested, l); return -1; }

  TermP fun(const Scope<C>& sc, Spec s)
  {
    auto t = std::make_shared<Term>();
    t->k = T_FUN; t->at = sc.lo + g.below(sc.hi - sc.lo) ; t->id = leaf_id(*sc.items, t->at); t->s = s;
    t->fk = 0;
    if (s.can_select() and g.chance(3, 4)) t->fk = 1;
    else if (s.can_shift() and g.chance(2, 3)) t->fk = 2;
    return t;
  }
  TermP ind_one(const Scope<C>& sc, Spec s, TermKind k)
  {
    const auto ls = sc.leaves();
    if (ls.empty()) return leafterm(T_ID);
    auto t = std::make_shared<Term>(); t->k = k; t->at = g.pick(ls); t->id = (*sc.items)[t->at].id; t->s = s; t->fk = s.can_select();
    return t;
  }
  TermP pair(const Scope<C>& sc, bool sel)
  {
    const auto ls = sc.leaves();
    if (ls.size() < 2) return leafterm(T_ID);
    const unsigned i = g.below(ls.size() - 1), j = i + 1 + g.below(ls.size() - i - 1);
    auto t = std::make_shared<Term>(); t->k = T_PAIR; t->at = ls[i]; t->at2 = ls[j];
    t->id = (*sc.items)[ls[i]].id; t->id2 = (*sc.items)[ls[j]].id; t->mode = sel ? 1 + g.below(2) : g.below(3);
    return t;
  }
  TermP mod() { auto t = std::make_shared<Term>(); t->k = T_MOD; t->m = 2 + g.below(2); t->r = g.below(t->m); return t; }
  TermP local(const Scope<C>& sc, const std::function<TermP(const Scope<C>&)>& inner)
  {
    const auto hs = sc.hiers();
    if (hs.empty()) return nullptr;
    const int i = g.pick(hs);
    auto t = std::make_shared<Term>(); t->k = T_LOCAL; t->at = i; t->id = (*sc.items)[i].id;
    t->sub.push_back(inner(*sc.kids.at(i)));
    return t;
  }
  // terms that only remove assignments
  TermP selector(const Scope<C>& sc, int d)
  {
    if (d <= 0) switch (g.below(5))
    {
      case 0: return leafterm(T_ID);
      case 1: { auto t = std::make_shared<Term>(*fun(sc, keep_spec(g, dom))); t->fk = 1; return t; }
      case 2: return ind_one(sc, keep_spec(g, dom), T_ONE);
      case 3: return mod();
      default: return pair(sc, true);
    }
    auto rec = [&](const Scope<C>& s) { return selector(s, d - 1 - g.below(2)); };
    switch (g.below(7))
    {
      case 0: return node(T_COMP, {rec(sc), rec(sc)});
      case 1: case 2: { std::vector<TermP> v; for (unsigned n = 2 + g.below(2); n--;) v.push_back(rec(sc)); return node(T_SUM, v); }
      case 3: { std::vector<TermP> v; for (unsigned n = 2 + g.below(2); n--;) v.push_back(rec(sc)); return node(T_INTER, v); }
      case 4: return node(T_FIX, {rec(sc)});
      case 5: return node(T_ITE, {rec(sc), rec(sc), rec(sc)});
      default: { auto t = local(sc, rec); return t ? t : rec(sc); }
    }
  }
  Set some_set(const Scope<C>& sc)
  {
    Set s;
    const int n = sc.hi - sc.lo;
    for (unsigned i = 1 + g.below(3); i--;) { Tuple t; for (int k = 0; k < n; ++k) t += char16_t(g.below(dom)); s.push_back(t); }
    if (g.chance(1, 8)) s.clear();
    norm(s); return s;
  }
  // any term; lin: distributes over union (required below local and fixpoint)
  TermP any(const Scope<C>& sc, int d, bool lin, bool infix)
  {
    if (d <= 0) switch (g.below(9))
    {
      case 0: return leafterm(T_ID);
      case 1: case 2: case 3: return fun(sc, random_spec(g, dom, infix));
      case 4: return ind_one(sc, random_spec(g, dom, infix), g.chance(1, 2) ? T_ONE : T_WALK);
      case 5: return g.chance(1, 2) ? mod() : pair(sc, false);
      case 6: { auto t = std::make_shared<Term>(); t->k = T_DEEP; t->s = random_spec(g, dom, infix); return t; }
      case 7: { if (infix and g.chance(1, 2)) return fun(sc, random_spec(g, dom, true)); auto t = std::make_shared<Term>(); t->k = T_CONST; t->set = some_set(sc); return t; }
      default: return selector(sc, g.below(2));
    }
    auto rec = [&](const Scope<C>& s) { return any(s, d - 1 - g.below(2), lin, infix); };
    auto reclin = [&](const Scope<C>& s) { return any(s, d - 1 - g.below(2), true, infix); };
    switch (g.below(11))
    {
      case 0: case 1: return node(T_COMP, {rec(sc), rec(sc)});
      case 2: case 3: { std::vector<TermP> v; for (unsigned n = 1 + g.below(4); n--;) v.push_back(rec(sc)); if (g.chance(1, 3)) v.push_back(leafterm(T_ID)); return node(T_SUM, v); }
      case 4: if (not lin) { std::vector<TermP> v; for (unsigned n = 1 + g.below(3); n--;) v.push_back(rec(sc)); return node(T_INTER, v); } // fallthrough
      case 5: return selector(sc, d);
      case 6: case 7: // fixpoint of a sum with identity
      {
        if (g.chance(1, 5)) return settle(sc, 1 + g.below(2), g.next());
        if (g.chance(1, 5)) return leaves(sc);
        std::vector<TermP> v; for (unsigned n = 1 + g.below(4); n--;) v.push_back(any(sc, d - 1 - g.below(2), true, true));
        v.insert(v.begin() + g.below(v.size() + 1), leafterm(T_ID));
        return node(T_FIX, {node(T_SUM, v)});
      }
      case 8: return node(T_ITE, {selector(sc, d - 1), rec(sc), rec(sc)});
      default: { auto t = local(sc, reclin); return t ? t : rec(sc); }
    }
  }
  // Without identity, and still convergent: each leaf has a direction (up, down, or towards one value), all changes
  // of the leaf follow it, so that the only cycles are assignments left as they are.
  TermP settle(const Scope<C>& sc, int d, u64 way, bool top = true)
  {
    auto toward = [&](int l)
    {
      Spec s; s.dom = dom; const unsigned w = unsigned(mix(way, u64(l)) % 5); s.a = unsigned(mix(way, u64(l) + 1000) % dom);
      if (w < 2) { s.kind = F_UP; s.a = g.chance(1, 4) ? g.below(dom) : dom - 1; }
      else if (w < 4) { s.kind = g.chance(1, 3) ? F_HALF : F_DOWN; s.a = g.chance(1, 4) ? g.below(dom) : 0; }
      else s.kind = F_SET;
      return s;
    };
    if (d <= 0 and not top) { const int l = some_leaf(sc); return g.chance(1, 5) ? at_leaf(sc, l, keep_spec(g, dom), true) : at_leaf(sc, l, toward(l)); }
    auto rec = [&] { return settle(sc, d - 1, way, false); };
    std::vector<TermP> v; for (unsigned n = 1 + g.below(3); n--;) v.push_back(rec());
    TermP t;
    switch (g.below(4))
    {
      case 0: case 1: t = chain(v); break;
      case 2: t = node(T_SUM, v); break;
      default: t = node(T_ITE, {at_leaf(sc, some_leaf(sc), keep_spec(g, dom), true), chain(v), rec()}); break;
    }
    return top ? node(T_FIX, {t}) : t;
  }
  // unions, intersections and fixpoints of operations on single leaves, at any level
  TermP leaves(const Scope<C>& sc)
  {
    std::vector<TermP> v;
    const bool inter = g.chance(1, 6), fix = not inter and g.chance(1, 3);
    const unsigned sel = g.below(4);
    for (unsigned n = 2 + g.below(5); n--;)
    {
      const int l = some_leaf(sc);
      const bool pick = inter or g.chance(sel, 3);
      TermP t = at_leaf(sc, l, pick ? keep_spec(g, dom) : random_spec(g, dom, true), pick);
      if (g.chance(1, 4)) { const int k = some_leaf(sc); t = node(T_COMP, {t, at_leaf(sc, k, inter or g.chance(1, 2) ? keep_spec(g, dom) : random_spec(g, dom, true), inter)}); }
      v.push_back(t);
    }
    if (fix or g.chance(1, 5)) v.insert(v.begin() + g.below(u32(v.size() + 1)), leafterm(T_ID));
    const TermP t = node(inter ? T_INTER : T_SUM, v);
    return fix ? node(T_FIX, {t}) : t;
  }
  // a term close to t: one detail changed somewhere
  TermP mutate(const TermP& t, const Scope<C>& sc)
  {
    auto n = std::make_shared<Term>(*t);
    if (t->k == T_FIX) // a changed fixpoint without identity may not converge
    {
      bool with_id = false;
      if (t->sub[0]->k == T_SUM) for (auto& s : t->sub[0]->sub) with_id = with_id or s->k == T_ID;
      if (not with_id) return n;
    }
    if (not t->sub.empty() and g.chance(2, 3))
    {
      const unsigned i = g.below(t->sub.size());
      n->sub[i] = mutate(t->sub[i], t->k == T_LOCAL ? *sc.kids.at(t->at) : sc);
      return n;
    }
    switch (t->k)
    {
      case T_CONST: n->set = some_set(sc); break;
      case T_COMP: std::swap(n->sub[0], n->sub[1]); break;
      case T_SUM: case T_INTER:
        if (n->sub.size() > 1) { const unsigned i = g.below(n->sub.size()); if (n->sub[i]->k != T_ID) n->sub.erase(n->sub.begin() + i); }
        break;
      case T_ITE: std::swap(n->sub[1], n->sub[2]); break;
      case T_LOCAL: return leafterm(T_ID);
      case T_FUN: if (t->s.kind == F_KEEP) n->s.keep ^= 1ull << g.below(dom); else if (g.chance(1, 2)) { n->at = sc.lo + g.below(sc.hi - sc.lo); n->id = leaf_id(*sc.items, n->at); } else if (t->s.kind == F_ADD or t->s.kind == F_SET or t->s.kind == F_GROW) n->s.a = g.below(dom); else if (t->s.kind == F_MOVE) n->s.b = g.below(2); break;
      case T_ONE: case T_WALK:
        if (t->s.kind == F_KEEP) n->s.keep ^= 1ull << g.below(dom);
        else if (g.chance(1, 2)) { n->at = g.pick(sc.leaves()); n->id = (*sc.items)[n->at].id; }
        break;
      case T_MOD: n->r = (n->r + 1) % n->m; break;
      case T_PAIR: if (n->mode) n->mode = 3 - n->mode; break;
      default: break;
    }
    return n;
  }
  // a bounded net: each transition consumes and produces on a few leaves
  TermP net(const Scope<C>& sc)
  {
    std::vector<TermP> ts;
    const int n = sc.hi - sc.lo;
    for (unsigned k = 2 + g.below(5); k--;)
    {
      TermP t;
      for (unsigned arcs = 2 + g.below(2); arcs--;)
      {
        Spec s; s.kind = F_MOVE; s.dom = dom; s.a = g.below(3); s.b = g.below(2);
        if (s.a > 1) { s.a = 0; s.b = 1; }
        auto f = std::make_shared<Term>(); f->k = T_FUN; f->at = sc.lo + g.below(n); f->id = leaf_id(*sc.items, f->at); f->s = s; f->fk = g.chance(1, 2) ? 2 : 0;
        t = t ? node(T_COMP, g.chance(1, 2) ? std::vector<TermP>{f, t} : std::vector<TermP>{t, f}) : TermP(f);
      }
      ts.push_back(t);
    }
    ts.insert(ts.begin() + g.below(ts.size() + 1), leafterm(T_ID));
    return node(T_FIX, {node(T_SUM, ts)});
  }

  // ---- terms of many operands over many leaves, whose results stay small
  TermP at_leaf(const Scope<C>& sc, int l, Spec s, bool sel = false)
  {
    auto t = std::make_shared<Term>(); t->k = T_FUN; t->at = l; t->id = leaf_id(*sc.items, l); t->s = s;
    t->fk = s.can_select() and (sel or g.chance(3, 4)) ? 1 : s.can_shift() and g.chance(2, 3) ? 2 : 0;
    return t;
  }
  int some_leaf(const Scope<C>& sc) { return sc.lo + int(g.below(sc.hi - sc.lo)); }
  TermP chain(std::vector<TermP> v) // composition, nested to the left, to the right or balanced
  {
    const unsigned how = g.below(3);
    while (v.size() > 1)
    {
      const std::size_t i = how == 0 ? 0 : how == 1 ? v.size() - 2 : g.below(u32(v.size() - 1));
      v[i] = node(T_COMP, {v[i], v[i+1]}); v.erase(v.begin() + i + 1);
    }
    return v[0];
  }
  Spec moves(unsigned a, unsigned b) { Spec s; s.kind = F_MOVE; s.dom = dom; s.a = a; s.b = b; return s; }
  Spec calm() { Spec s; switch (g.below(4)) { case 0: s = keep_spec(g, dom); s.keep |= g.next() | g.next(); return s; case 1: s.kind = F_SET; break; case 2: s.kind = F_HALF; break; default: s.kind = F_ADD; break; } s.dom = dom; s.a = g.below(dom); return s; }
  // tokens moving from leaf to leaf, some moves guarded by a third one
  TermP tokens(const Scope<C>& sc)
  {
    std::vector<TermP> ts{leafterm(T_ID)};
    const int n = sc.hi - sc.lo;
    const bool near = g.chance(1, 2);
    for (unsigned k = 3 + g.below(g.chance(1, 3) ? 60 : 12); k--;)
    {
      const int a = some_leaf(sc), b = near ? sc.lo + (a - sc.lo + 1 + int(g.below(2))) % n : some_leaf(sc);
      std::vector<TermP> v{at_leaf(sc, b, moves(0, 1)), at_leaf(sc, a, moves(1, 0))};
      if (g.chance(1, 4)) { const int c = some_leaf(sc), d = some_leaf(sc); v.insert(v.begin() + g.below(2), at_leaf(sc, d, moves(0, 1))); v.push_back(at_leaf(sc, c, moves(1, 0))); }
      if (g.chance(1, 4)) v.push_back(at_leaf(sc, some_leaf(sc), keep_spec(g, dom)));
      ts.insert(ts.begin() + g.below(u32(ts.size() + 1)), chain(v));
    }
    return node(T_FIX, {node(T_SUM, ts)});
  }
  // counts over some leaves, one state after the other: a fixpoint of hundreds of iterations
  TermP odometer(const Scope<C>& sc)
  {
    std::vector<int> ls; for (int l = sc.lo; l < sc.hi; ++l) ls.push_back(l);
    for (std::size_t i = ls.size(); i > 1; --i) std::swap(ls[i-1], ls[g.below(u32(i))]);
    std::size_t k = 0; for (unsigned n = 1; k < ls.size() and n * dom <= 600; n *= dom) ++k;
    std::vector<TermP> ts{leafterm(T_ID)};
    for (std::size_t i = 0; i < k; ++i)
    {
      std::vector<TermP> v; Spec z, last; z.kind = F_SET; z.dom = dom; last.kind = F_KEEP; last.dom = dom; last.keep = 1ull << (dom - 1);
      for (std::size_t j = 0; j < i; ++j) v.push_back(node(T_COMP, {at_leaf(sc, ls[j], z), at_leaf(sc, ls[j], last)}));
      v.push_back(at_leaf(sc, ls[i], moves(0, 1)));
      ts.insert(ts.begin() + g.below(u32(ts.size() + 1)), chain(v));
    }
    return node(T_FIX, {node(T_SUM, ts)});
  }
  TermP large(const Scope<C>& sc, int d)
  {
    if (g.chance(1, 12)) return odometer(sc);
    auto some = [&](unsigned lo, unsigned hi, bool sel) { std::vector<TermP> v; for (unsigned k = lo + g.below(g.chance(1, 3) ? hi : hi / 5 + 1); k--;) v.push_back(at_leaf(sc, some_leaf(sc), sel ? keep_spec(g, dom) : calm(), sel)); return v; };
    switch (g.below(10))
    {
      case 0: case 1: return tokens(sc);
      case 2: return node(T_SUM, some(4, 60, false));
      case 3: return chain(some(4, 60, false));
      case 4: { const auto p = g.chance(1, 2) ? node(T_SUM, some(1, 12, true)) : chain(some(1, 8, true)); return node(T_ITE, {p, chain(some(1, 20, false)), d > 0 ? large(sc, d - 1) : node(T_SUM, some(1, 20, false))}); }
      case 5: return node(T_INTER, some(3, 40, true));
      case 6: // closure under a few changes
      {
        std::vector<TermP> v{leafterm(T_ID)};
        for (unsigned k = 1 + g.below(5); k--;) v.insert(v.begin() + g.below(u32(v.size() + 1)), at_leaf(sc, some_leaf(sc), calm()));
        if (d > 0 and g.chance(1, 2)) { auto t = local(sc, [&](const Scope<C>& s) { return tokens(s); }); if (t) v.push_back(t); }
        return node(T_FIX, {node(T_SUM, v)});
      }
      case 7: return node(T_FIX, {chain(some(2, 30, true))});
      case 8: if (d > 0) return node(T_COMP, {large(sc, d - 1), large(sc, d - 1)}); // fallthrough
      default: { auto t = d > 0 ? local(sc, [&](const Scope<C>& s) { return large(s, d - 1); }) : nullptr; return t ? t : chain(some(2, 30, false)); }
    }
  }
};

// ------------------------------------------------------------------ reference interpreter
struct TooBig {};
inline std::size_t& ref_limit() { static std::size_t n = ~std::size_t(0); return n; }
template <typename C> struct Ref
{
  // Whether all of the evaluation stays within the limit.
  static bool small(const Term& t, const Scope<C>& sc, const Set& x, std::size_t limit)
  {
    ref_limit() = limit; bool ok = true;
    try { eval(t, sc, x); } catch (const TooBig&) { ok = false; }
    ref_limit() = ~std::size_t(0); return ok;
  }
  static void map_leaf(const Set& x, std::size_t i, const Spec& s, Set& r)
  {
    for (auto& t : x) for (auto w : s.apply(t[i])) { Tuple u = t; u[i] = char16_t(w); r.push_back(u); }
    norm(r);
  }
  static Set eval(const Term& t, const Scope<C>& sc, const Set& x)
  {
    if (x.empty()) return {};
    if (x.size() > ref_limit()) throw TooBig();
    switch (t.k)
    {
      case T_ID: return x;
      case T_CONST: return t.set;
      case T_COMP: { Set r = x; for (auto it = t.sub.rbegin(); it != t.sub.rend(); ++it) r = eval(**it, sc, r); return r; }
      case T_SUM: { Set r; for (auto& s : t.sub) r = s_union(r, eval(*s, sc, x)); return r; }
      case T_INTER: { Set r = eval(*t.sub[0], sc, x); for (std::size_t i = 1; i < t.sub.size(); ++i) r = s_inter(r, eval(*t.sub[i], sc, x)); return r; }
      case T_FIX:
      {
        const Term& h = *t.sub[0];
        bool with_id = false;
        if (h.k == T_SUM) for (auto& s : h.sub) with_id = with_id or s->k == T_ID;
        if (with_id)
        {
          Set r = x, fr = x;
          while (not fr.empty()) { const Set n = eval(h, sc, fr); fr = s_diff(n, r); r = s_union(r, fr); if (r.size() > ref_limit()) throw TooBig(); }
          return r;
        }
        Set r = x;
        for (;;) { Set n = eval(h, sc, r); if (n == r) return r; r.swap(n); }
      }
      case T_ITE: { const Set p = eval(*t.sub[0], sc, x); return s_union(eval(*t.sub[1], sc, p), eval(*t.sub[2], sc, s_diff(x, p))); }
      case T_LOCAL:
      {
        const auto& it = (*sc.items)[t.at]; const auto& in = *sc.kids.at(t.at);
        const int a = it.lo - sc.lo, n = it.hi - it.lo;
        std::map<Tuple, Set> memo; Set r;
        for (auto& u : x)
        {
          const Tuple v = u.substr(a, n);
          auto f = memo.find(v);
          if (f == memo.end()) f = memo.emplace(v, eval(*t.sub[0], in, {v})).first;
          for (auto& w : f->second) r.push_back(u.substr(0, a) + w + u.substr(a + n));
        }
        norm(r); return r;
      }
      case T_FUN: { Set r; map_leaf(x, t.at - sc.lo, t.s, r); return r; }
      case T_ONE: case T_WALK: { Set r; map_leaf(x, (*sc.items)[t.at].lo - sc.lo, t.s, r); return r; }
      case T_MOD:
      {
        Set r;
        for (auto& u : x) { unsigned s = 0; for (auto i : sc.leaves()) s += u[(*sc.items)[i].lo - sc.lo]; if (s % t.m == t.r) r.push_back(u); }
        return r;
      }
      case T_DEEP: { Set r = x; for (int i = 0; i < sc.hi - sc.lo; ++i) { Set n; map_leaf(r, i, t.s, n); r.swap(n); } return r; }
      case T_PAIR:
      {
        const int a = (*sc.items)[t.at].lo - sc.lo, b = (*sc.items)[t.at2].lo - sc.lo;
        Set r;
        for (auto u : x)
        {
          if (t.mode == 0) { u[b] = u[a]; r.push_back(u); }
          else if (t.mode == 1 ? u[a] < u[b] : u[a] == u[b]) r.push_back(u);
        }
        norm(r); return r;
      }
      default: fail("reference: unknown term");
    }
  }
};

// Diagram of a set over a scope.
template <typename C> sdd::SDD<C> mk_over(const Scope<C>& sc, const Set& s)
{
  std::vector<sdd::SDD<C>> v;
  for (auto& t : s)
  {
    Box b(sc.lo); for (auto c : t) b.push_back({unsigned(c)});
    v.push_back(mk_box<C>(*sc.items, b, sc.from));
  }
  return sdd::sum<C>(v.begin(), v.end());
}

// ------------------------------------------------------------------ construction with the library
// shuffle: operands of unions and intersections in random order, some twice; neutral compositions with identity.
template <typename C> sdd::homomorphism<C> make(const Term& t, const Scope<C>& sc, Rng* shuffle = nullptr)
{
  using H = sdd::homomorphism<C>;
  auto ops = [&]()
  {
    std::vector<H> v;
    for (auto& s : t.sub) v.push_back(make<C>(*s, sc, shuffle));
    if (shuffle and (t.k == T_SUM or t.k == T_INTER))
    {
      for (unsigned n = shuffle->below(3); n--;) v.push_back(v[shuffle->below(v.size())]);
      for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[shuffle->below(i)]);
    }
    return v;
  };
  switch (t.k)
  {
    case T_ID: return sdd::id<C>();
    case T_CONST: return sdd::constant(mk_over<C>(sc, t.set));
    case T_COMP:
    {
      auto v = ops();
      if (shuffle and shuffle->chance(1, 2)) v[0] = shuffle->chance(1, 2) ? sdd::composition(sdd::id<C>(), v[0]) : sdd::composition(v[0], sdd::id<C>());
      return sdd::composition(v[0], v[1]);
    }
    case T_SUM: { auto v = ops(); if (v.size() == 2 and not shuffle) return sdd::sum<C>(sc.ord, {v[0], v[1]}); return sdd::sum(sc.ord, v.begin(), v.end()); }
    case T_INTER: { auto v = ops(); if (v.size() == 2 and not shuffle) return sdd::intersection<C>(sc.ord, {v[0], v[1]}); return sdd::intersection(sc.ord, v.begin(), v.end()); }
    case T_FIX: return sdd::fixpoint(make<C>(*t.sub[0], sc, shuffle));
    case T_ITE: { auto v = ops(); return sdd::if_then_else(v[0], v[1], v[2]); }
    case T_LOCAL:
    {
      const auto h = make<C>(*t.sub[0], *sc.kids.at(t.at), shuffle);
      if (shuffle and shuffle->chance(1, 2)) return sdd::carrier(sc.ord, ident<C>(shuffle->pick((*sc.items)[t.at].nested).id), h);
      return sdd::local(ident<C>(t.id), sc.ord, h);
    }
    case T_FUN:
      switch (t.fk)
      {
        case 0: return sdd::function(sc.ord, ident<C>(t.id), UserFun<C, 0>{t.s});
        case 1: return sdd::function(sc.ord, ident<C>(t.id), UserFun<C, 1>{t.s});
        default: return sdd::function(sc.ord, ident<C>(t.id), UserFun<C, 2>{t.s});
      }
    case T_ONE: return sdd::inductive<C>(IndOne<C>{ident<C>(t.id), t.s, bool(t.fk)});
    case T_WALK: return sdd::inductive<C>(IndWalk<C>{ident<C>(t.id), t.s});
    case T_MOD: return sdd::inductive<C>(IndMod<C>{t.m, t.r, 0});
    case T_DEEP: return sdd::inductive<C>(IndDeep<C>{t.s});
    case T_PAIR: return sdd::inductive<C>(IndPair<C>{ident<C>(t.id), ident<C>(t.id2), t.mode});
    default: fail("construction: unknown term");
  }
}

} // namespace vf
