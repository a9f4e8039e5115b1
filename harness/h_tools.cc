// C15: inspection tools and exports, against an independent traversal of the diagram.
#include "terms.hh"
#include "sdd/tools/dot/homomorphism.hh"
#include "sdd/tools/arcs.hh"
#include "sdd/tools/dot/force_hypergraph.hh"
#include "sdd/tools/dot/sdd.hh"
#include "sdd/tools/nodes.hh"
#include "sdd/tools/sdd_statistics.hh"
#include "sdd/tools/size.hh"
#include "sdd/tools/manager_statistics.hh"
#if __has_include(<cereal/types/map.hpp>)
#include "sdd/tools/serialization.hh"
#define VF_CEREAL 1
#endif

using namespace vf;
using S = sdd::SDD<C>;

// ------------------------------------------------------------------ independent traversal
struct Arc { std::vector<u64> values; S nested; S succ; };
struct Info { bool flat = true; int terminal = -1; std::size_t variable = 0; std::vector<Arc> arcs; std::set<int> ids; };
using Graph = std::unordered_map<S, Info>;

struct Walk
{
  Graph& g; std::set<std::tuple<const void*, std::size_t, u64>> seen;
  struct Look
  {
    Info operator()(const sdd::zero_terminal<C>&) const { Info i; i.terminal = 0; return i; }
    Info operator()(const sdd::one_terminal<C>&) const { Info i; i.terminal = 1; return i; }
    Info operator()(const sdd::flat_node<C>& n) const
    {
      Info i; i.variable = n.variable();
      for (const auto& a : n) i.arcs.push_back({V<C>::raw(a.valuation()), sdd::zero<C>(), a.successor()});
      return i;
    }
    Info operator()(const sdd::hierarchical_node<C>& n) const
    {
      Info i; i.flat = false; i.variable = n.variable();
      for (const auto& a : n) i.arcs.push_back({{}, a.valuation(), a.successor()});
      return i;
    }
  };
  std::map<std::pair<const void*, std::size_t>, std::unordered_set<S>> done;
  void go(const S& x, const Items& is, std::size_t i)
  {
    if (not g.count(x)) g.emplace(x, visit(Look{}, x));
    const Info info = g.at(x);
    if (info.terminal >= 0) return;
    if (not done[{&is, i}].insert(x).second) return;
    g.at(x).ids.insert(is[i].id);
    for (auto& a : info.arcs)
    {
      if (not info.flat) go(a.nested, is[i].nested, 0);
      go(a.succ, is, i + 1);
    }
  }
};

// ------------------------------------------------------------------ parsing what is printed
static std::vector<u64> parse_values(const std::string& s)
{
  VF_CHECK(s.size() >= 2 and s[0] == '{' and s.back() == '}', "output: not a set of values: " << s);
  std::vector<u64> r;
  std::size_t p = 1;
  auto number = [&]() -> u64 { VF_CHECK(p < s.size() and isdigit(s[p]), "output: not a set of values: " << s); u64 v = 0; while (isdigit(s[p])) v = v * 10 + u64(s[p++] - '0'); return v; };
  while (p < s.size() - 1)
  {
    const u64 a = number(); u64 b = a;
    if (s.compare(p, 2, "..") == 0) { p += 2; b = number(); VF_CHECK(a < b and b - a < 100000, "output: range " << s); }
    for (u64 v = a; v <= b; ++v) r.push_back(v);
    if (p < s.size() - 1) { VF_CHECK(s[p] == ',', "output: not a set of values: " << s); ++p; VF_CHECK(p < s.size() - 1, "output: not a set of values: " << s); }
  }
  return r;
}

struct Text // 1[{0} --> 0[...] || {1} --> ...], checked against the node while it is read
{
  const std::string& s; std::size_t p; const Graph& g;
  bool eat(const char* t) { const std::size_t n = std::strlen(t); if (s.compare(p, n, t) != 0) return false; p += n; return true; }
  void node(const S& x, unsigned depth)
  {
    const Info& i = g.at(x);
    if (i.terminal >= 0) { VF_CHECK(eat(i.terminal ? "|1|" : "|0|"), "text: terminal expected at '" << s.substr(p, 20) << "'"); return; }
    const std::string v = std::to_string(i.variable) + "[";
    VF_CHECK(eat(v.c_str()), "text: '" << v << "' expected at '" << s.substr(p, 20) << "'");
    std::vector<bool> used(i.arcs.size());
    for (std::size_t k = 0; k < i.arcs.size(); ++k)
    {
      if (k) VF_CHECK(eat(" || "), "text: arc " << k << " of " << i.arcs.size() << " missing at '" << s.substr(p, 20) << "'");
      std::size_t which = i.arcs.size();
      if (i.flat)
      {
        const std::size_t e = s.find('}', p);
        VF_CHECK(e != std::string::npos, "text: set of values expected");
        const auto vs = parse_values(s.substr(p, e + 1 - p)); p = e + 1;
        for (std::size_t j = 0; j < i.arcs.size(); ++j) if (not used[j] and i.arcs[j].values == vs) which = j;
        VF_CHECK(which < i.arcs.size(), "text: arc with values the node has not");
      }
      else
      {
        // Arcs are printed in the order the node holds them.
        which = k;
        node(i.arcs[k].nested, depth + 1);
      }
      used[which] = true;
      VF_CHECK(eat(" --> "), "text: successor expected at '" << s.substr(p, 20) << "'");
      node(i.arcs[which].succ, depth);
    }
    VF_CHECK(eat("]"), "text: more arcs than the node has at '" << s.substr(p, 20) << "'");
  }
};

struct Edge { std::string to, label; bool dotted = false; };
struct Dot { std::map<std::string, std::string> label; std::map<std::string, std::vector<Edge>> out; std::set<std::string> points, squares; std::map<std::string, int> in; };

static std::string attr(const std::string& a, const std::string& k)
{
  const auto p = a.find(k + "=");
  if (p == std::string::npos) return "";
  std::size_t b = p + k.size() + 1;
  if (b < a.size() and a[b] == '"') { const auto e = a.find('"', b + 1); return a.substr(b + 1, e - b - 1); }
  std::size_t e = b; while (e < a.size() and a[e] != ',' and a[e] != ']') ++e;
  return a.substr(b, e - b);
}
static Dot parse_dot(const std::string& s, const std::string& header = "digraph s")
{
  Dot d;
  std::istringstream is(s); std::string line;
  VF_CHECK(std::getline(is, line) and line.compare(0, header.size(), header) == 0, "dot: no header");
  bool closed = false;
  while (std::getline(is, line))
  {
    if (line == "}") { closed = true; continue; }
    VF_CHECK(not closed, "dot: text after the end");
    if (line.empty()) continue;
    const auto br = line.find('[');
    const std::string attrs = br == std::string::npos ? "" : line.substr(br);
    std::string head = br == std::string::npos ? line : line.substr(0, br);
    while (not head.empty() and (head.back() == ' ' or head.back() == ';')) head.pop_back();
    const auto ar = head.find(" -> ");
    if (ar == std::string::npos)
    {
      VF_CHECK(d.label.emplace(head, attr(attrs, "label")).second, "dot: node declared twice: " << line);
      if (attr(attrs, "shape") == "point") d.points.insert(head);
      if (attr(attrs, "shape") == "square") d.squares.insert(head);
    }
    else
    {
      Edge e; e.to = head.substr(ar + 4); e.label = attr(attrs, "label"); e.dotted = attr(attrs, "style") == "dotted";
      ++d.in[e.to];
      d.out[head.substr(0, ar)].push_back(e);
    }
  }
  VF_CHECK(closed, "dot: not closed");
  return d;
}

static void check_dot(const std::string& text, const S& root, const Graph& g)
{
  const Dot d = parse_dot(text);
  std::string top;
  for (auto& n : d.label) if (not d.in.count(n.first)) { VF_CHECK(top.empty(), "dot: several nodes without predecessor"); top = n.first; }
  VF_CHECK(not top.empty(), "dot: no root");
  std::map<std::string, S> map; std::unordered_map<S, std::string> back;
  std::vector<std::pair<std::string, S>> todo{{top, root}};
  std::size_t edges = 0, points = 0;
  while (not todo.empty())
  {
    const auto cur = todo.back(); todo.pop_back();
    const auto& name = cur.first;
    const auto known = map.find(name);
    if (known != map.end()) { VF_CHECK(known->second == cur.second, "dot: one name for two nodes"); continue; }
    VF_CHECK(back.emplace(cur.second, name).second, "dot: two names for one node");
    map.emplace(name, cur.second);
    VF_CHECK(d.label.count(name), "dot: node without declaration");
    const Info& i = g.at(cur.second);
    const auto out = d.out.find(name);
    if (i.terminal >= 0)
    {
      VF_CHECK(d.squares.count(name) and d.label.at(name) == (i.terminal ? "1" : "0") and out == d.out.end(), "dot: terminal drawn as " << d.label.at(name));
      continue;
    }
    bool named = false;
    for (int id : i.ids) { std::ostringstream o; o << ident<C>(id); if (o.str() == d.label.at(name)) named = true; }
    VF_CHECK(named, "dot: node labelled " << d.label.at(name));
    VF_CHECK(out != d.out.end() and out->second.size() == i.arcs.size(), "dot: " << (out == d.out.end() ? 0 : out->second.size()) << " arcs drawn for " << i.arcs.size());
    edges += i.arcs.size();
    if (i.flat)
    {
      std::set<std::vector<u64>> seen;
      for (auto& e : out->second)
      {
        const auto vs = parse_values(e.label);
        VF_CHECK(seen.insert(vs).second, "dot: arc drawn twice");
        const auto a = std::find_if(i.arcs.begin(), i.arcs.end(), [&](const Arc& x) { return x.values == vs; });
        VF_CHECK(a != i.arcs.end(), "dot: arc with values the node has not: " << e.label);
        todo.emplace_back(e.to, a->succ);
      }
    }
    else
    {
      // Which drawn arc is which: try them all, by comparing names already known, else by size.
      std::vector<std::pair<std::string, std::string>> drawn;
      for (auto& e : out->second)
      {
        ++points;
        VF_CHECK(d.points.count(e.to), "dot: hierarchical arc without its junction");
        const auto& o2 = d.out.at(e.to);
        VF_CHECK(o2.size() == 2 and o2[0].dotted != o2[1].dotted, "dot: junction of " << o2.size() << " lines");
        edges += 2;
        drawn.emplace_back(o2[0].dotted ? o2[0].to : o2[1].to, o2[0].dotted ? o2[1].to : o2[0].to);
      }
      for (std::size_t k = 0; k < drawn.size(); ++k) { todo.emplace_back(drawn[k].first, i.arcs[k].nested); todo.emplace_back(drawn[k].second, i.arcs[k].succ); }
    }
  }
  std::size_t all = 0; for (auto& o : d.out) all += o.second.size();
  VF_CHECK(map.size() == g.size(), "dot: " << map.size() << " nodes drawn of " << g.size());
  VF_CHECK(d.label.size() == map.size() + points and d.points.size() == points, "dot: " << d.label.size() << " declarations for " << map.size() << " nodes and " << points << " junctions");
  VF_CHECK(all == edges, "dot: " << all << " lines drawn, " << edges << " expected");
  ev("dots"); ev("dot_nodes", map.size());
}

// ------------------------------------------------------------------ statistics through an archive
#ifdef VF_CEREAL
struct Recorder
{
  std::map<std::string, double> got; std::string prefix; std::size_t freq = 0;
  template <typename... Ts> void operator()(Ts&&... xs) { int _[] = {0, (one(xs), 0)...}; (void)_; }
  template <typename T> void one(const cereal::NameValuePair<T>& p) { const auto old = prefix; prefix += std::string(p.name) + "/"; put(p.value); prefix = old; }
  template <typename T> std::enable_if_t<std::is_arithmetic<T>::value> put(const T& x) { VF_CHECK(got.emplace(prefix, double(x)).second, "serialization: '" << prefix << "' twice"); }
  void put(const sdd::tools::arcs_frequency_type& f) { for (auto& kv : f) { got["freq " + std::to_string(kv.first) + "f"] = kv.second.first; got["freq " + std::to_string(kv.first) + "h"] = kv.second.second; } ++freq; }
  void put(const sdd::mem::unique_table_statistics& s) { sdd::mem::save(*this, s); }
  void put(const sdd::mem::cache_statistics& s) { sdd::mem::save(*this, s); }
};
#endif

template <typename T> static bool same_table(const T& a, const T& b) { return a.size == b.size and a.peak == b.peak and a.load_factor == b.load_factor and a.access == b.access and a.hits == b.hits and a.misses == b.misses and a.rehash == b.rehash and a.collisions == b.collisions and a.alone == b.alone and a.empty == b.empty and a.buckets == b.buckets; }
template <typename T> static bool same_cache(const T& a, const T& b) { return a.size == b.size and a.hits == b.hits and a.misses == b.misses and a.filtered == b.filtered and a.discarded == b.discarded and a.collisions == b.collisions and a.alone == b.alone and a.empty == b.empty and a.buckets == b.buckets and a.load_factor == b.load_factor; }

template <typename M> static auto manager_tool(const M& m, int) -> std::enable_if_t<std::is_convertible<decltype(m.values_stats()), sdd::mem::unique_table_statistics>::value>
{
  const auto t = sdd::tools::statistics(m);
  VF_CHECK(same_table(t.sdd_ut(), m.sdd_stats()) and same_table(t.hom_ut(), m.hom_stats()) and same_table(t.values_ut(), m.values_stats()), "manager statistics: unique tables differ from the manager's");
  VF_CHECK(same_cache(t.diff_cache(), m.sdd_difference_cache_stats()) and same_cache(t.inter_cache(), m.sdd_intersection_cache_stats()) and same_cache(t.sum_cache(), m.sdd_sum_cache_stats()) and same_cache(t.hom_cache(), m.hom_cache_stats()), "manager statistics: caches differ from the manager's");
#ifdef VF_CEREAL
  Recorder r; sdd::tools::save(r, t);
  const double want[] = {double(t.sdd_ut().size), double(t.hom_ut().peak), double(t.sum_cache().hits), double(t.diff_cache().misses), double(t.inter_cache().discarded), double(t.hom_cache().filtered), double(t.values_ut().access), t.sum_cache().load_factor};
  const char* key[] = {"SDD unique table/#/", "hom unique table/# peak/", "SDD sums cache/# hits/", "SDD differences cache/# misses/", "SDD intersections cache/# discarded/", "hom cache/# filtered/", "values/# accesses/", "SDD sums cache/load factor/"};
  for (int i = 0; i < 8; ++i) VF_CHECK(r.got.count(key[i]) and r.got[key[i]] == want[i], "serialization: " << key[i] << " is not what the manager reports");
  VF_CHECK(r.got.size() == 3 * 11 + 4 * 10, "serialization: " << r.got.size() << " numbers");
#endif
  ev("manager_statistics");
}
template <typename M> static void manager_tool(const M&, long) { ev("manager_statistics"); } // no state of values in this configuration

// ------------------------------------------------------------------ orders as text
static void order_lines(const Items& is, unsigned indent, std::vector<std::string>& out)
{
  for (std::size_t i = 0; i < is.size(); ++i)
  {
    std::ostringstream o; o << std::string(indent, ' ') << ident<C>(is[i].id) << " (" << is.size() - 1 - i << ")";
    out.push_back(o.str());
    if (not is[i].leaf()) order_lines(is[i].nested, indent + 2, out);
  }
}
static void check_order(const sdd::order<C>& o, const Shape& sh)
{
  std::vector<std::string> want, got;
  order_lines(sh.items, 0, want);
  std::ostringstream os; os << o; std::istringstream is(os.str()); std::string l;
  while (std::getline(is, l)) got.push_back(l);
  VF_CHECK(got == want, "order printed as\n" << os.str());
  ev("orders_printed");
}

static void check_hypergraph(Rng& g)
{
  std::vector<typename C::Identifier> ids; const int n = 1 + g.below(10);
  for (int i = 0; i < n; ++i) ids.push_back(ident<C>(i));
  sdd::force::hypergraph<C> hg(ids.begin(), ids.end());
  std::multiset<std::multiset<std::string>> want;
  auto str = [](const typename C::Identifier& i) { std::ostringstream o; o << i; return o.str(); };
  for (unsigned k = g.below(8); k; --k)
  {
    std::vector<typename C::Identifier> e; std::multiset<std::string> w;
    for (unsigned j = 1 + g.below(4); j; --j) { const auto x = ids[g.below(n)]; if (w.insert("v" + str(x)), w.count("v" + str(x)) > 1) { w.erase(w.find("v" + str(x))); continue; } e.push_back(x); }
    hg.add_hyperedge(e.begin(), e.end(), 1 + g.below(3)); want.insert(w);
  }
  std::ostringstream os; os << sdd::tools::dot(hg);
  std::istringstream is(os.str()); std::string l; std::set<std::string> vs, hs; std::map<std::string, std::multiset<std::string>> es; bool end = false;
  std::getline(is, l); VF_CHECK(l.compare(0, 7, "graph h") == 0, "hypergraph: header " << l);
  while (std::getline(is, l))
  {
    if (l == "}") { end = true; continue; }
    const auto a = l.find(" -- ");
    if (a != std::string::npos) { auto to = l.substr(a + 4); while (not to.empty() and (to.back() == ';' or to.back() == ' ')) to.pop_back(); es[l.substr(0, a)].insert(to); }
    else { auto h = l.substr(0, l.find('[')); while (h.back() == ' ') h.pop_back(); VF_CHECK((h[0] == 'v' ? vs : hs).insert(h).second, "hypergraph: declared twice: " << l); if (h[0] == 'v') VF_CHECK("v" + attr(l, "label") == h, "hypergraph: label " << l); }
  }
  std::multiset<std::multiset<std::string>> got; for (auto& e : es) { VF_CHECK(hs.count(e.first), "hypergraph: edge not declared"); got.insert(e.second); }
  VF_CHECK(end and vs.size() == ids.size() and hs.size() == want.size() and got == want, "hypergraph: exported as\n" << os.str());
  for (auto& i : ids) VF_CHECK(vs.count("v" + str(i)), "hypergraph: vertex missing");
  ev("hypergraphs");
}

// ------------------------------------------------------------------
static void one_diagram(const S& x, const Shape& sh, const sdd::order<C>& o, sdd::manager<C>& m)
{
  Graph g; { Walk w{g, {}, {}}; w.go(x, sh.items, 0); }
  unsigned flat = 0, hier = 0, farcs = 0, harcs = 0, terminals = 0; std::size_t bytes = 0;
  std::map<unsigned, std::pair<unsigned, unsigned>> freq;
  for (auto& n : g)
  {
    const auto& i = n.second;
    if (i.terminal >= 0) { ++terminals; bytes += i.terminal ? sizeof(sdd::one_terminal<C>) : sizeof(sdd::zero_terminal<C>); continue; }
    (i.flat ? flat : hier) += 1; (i.flat ? farcs : harcs) += i.arcs.size();
    auto& f = freq[i.arcs.size()]; (i.flat ? f.first : f.second) += 1;
    bytes += sizeof(typename S::unique_type) + i.arcs.size() * (i.flat ? sizeof(typename sdd::flat_node<C>::arc_type) : sizeof(typename sdd::hierarchical_node<C>::arc_type));
  }
  const auto before = m.sdd_stats();
  const std::size_t h = std::hash<S>()(x);
  const auto nodes = sdd::tools::nodes(x);
  VF_CHECK(nodes.first == flat and nodes.second == hier, "nodes: " << nodes.first << " flat and " << nodes.second << " hierarchical, instead of " << flat << " and " << hier);
  const auto arcs = sdd::tools::arcs(x);
  VF_CHECK(arcs == freq, "arcs: frequencies differ");
  const auto total = sdd::tools::number_of_arcs(arcs);
  VF_CHECK(total.first == farcs and total.second == harcs, "arcs: " << total.first << " and " << total.second << " instead of " << farcs << " and " << harcs);
  VF_CHECK(sdd::tools::size(x) == bytes, "size: " << sdd::tools::size(x) << " bytes instead of " << bytes);
  const auto st = sdd::tools::statistics(x);
  VF_CHECK(st.bytes() == bytes and st.arcs_frequency() == freq and st.all_nodes() == nodes and st.all_arcs() == total, "statistics of a diagram differ from its parts");
  ev("counted"); if (hier) ev("hierarchical"); mx("max_nodes", flat + hier);
#ifdef VF_CEREAL
  {
    Recorder r; sdd::tools::save(r, st);
    VF_CHECK(r.got["bytes/"] == bytes and r.got["flat nodes/"] == flat and r.got["hierarchical nodes/"] == hier and r.got["flat arcs/"] == farcs and r.got["hierarchical arcs/"] == harcs, "serialization of a diagram's statistics");
    for (auto& f : freq) VF_CHECK(r.got["freq " + std::to_string(f.first) + "f"] == f.second.first and r.got["freq " + std::to_string(f.first) + "h"] == f.second.second, "serialization of the frequencies");
    VF_CHECK(r.got.size() == 5 + 2 * freq.size(), "serialization of a diagram's statistics: " << r.got.size() << " numbers");
  }
#endif
  if (not x.empty() and x != sdd::one<C>())
  {
    std::ostringstream os; os << sdd::tools::dot(x, o);
    check_dot(os.str(), x, g);
  }
  else
  {
    std::ostringstream os; os << sdd::tools::dot(x, o);
    const Dot d = parse_dot(os.str());
    VF_CHECK(d.label.size() == 1 and d.out.empty() and d.label.begin()->second == (x.empty() ? "0" : "1"), "dot: a terminal is exported as " << os.str());
    ev("terminals");
  }
  if (x.size() < 3000)
  {
    std::ostringstream os; os << x;
    const std::string s = os.str(); Text t{s, 0, g}; t.node(x, 0);
    VF_CHECK(t.p == s.size(), "text: something follows the diagram");
    ev("printed");
  }
  const auto after = m.sdd_stats();
  VF_CHECK(after.size == before.size and after.misses == before.misses, "inspecting a diagram creates or removes nodes");
  VF_CHECK(std::hash<S>()(x) == h, "inspecting a diagram changes it");
  dig(flat); dig(hier); dig(farcs); dig(bytes);
  if (farcs + harcs > 1) nontrivial();
}

// ------------------------------------------------------------------ exported terms
#ifndef VF_REDUCED // the inside of terms is not an interface: without it when it has changed
using H = sdd::homomorphism<C>;
struct Part { std::string label; H h; };
// How a term is made: its label and, in the order they are drawn, its operands.
struct Anatomy { bool drawn = true, identity = false; std::string label; std::vector<Part> parts; };
struct Dissect
{
  using A = Anatomy;
  A operator()(const sdd::hom::_identity<C>&) const { A a; a.identity = true; a.label = "id"; return a; }
  A operator()(const sdd::hom::_composition<C>& h) const { A a; a.label = "o"; a.parts = {{"l", h.left}, {"r", h.right}}; return a; }
  A operator()(const sdd::hom::_fixpoint<C>& h) const { A a; a.label = "*"; a.parts = {{"", h.h}}; return a; }
  A operator()(const sdd::hom::_local<C>& h) const { A a; a.label = "@"; a.parts = {{std::to_string(+h.target), h.h}}; return a; }
  A operator()(const sdd::hom::_if_then_else<C>& h) const { A a; a.label = "ITE"; a.parts = {{"if", h.h_if}, {"then", h.h_then}, {"else", h.h_else}}; return a; }
  A operator()(const sdd::hom::_sum<C>& h) const { A a; a.label = "+"; for (const auto& x : h) a.parts.push_back({"", x}); return a; }
  A operator()(const sdd::hom::_function<C>& h) const { A a; a.label = "fun(" + std::to_string(+h.target) + ", "; return a; }
  A operator()(const sdd::hom::_saturation_fixpoint<C>& h) const
  {
    A a; a.label = "$*"; unsigned i = 0;
    if (h.F != sdd::id<C>()) a.parts.push_back({"F", h.F});
    for (const auto& x : h) a.parts.push_back({"g" + std::to_string(i++), x});
    if (h.L != sdd::id<C>()) a.parts.push_back({"L", h.L});
    return a;
  }
  template <typename T> A operator()(const T&) const { A a; a.drawn = false; return a; } // named only
};

static void check_term(const H& root, sdd::manager<C>& m)
{
  const auto before = m.hom_stats();
  std::ostringstream os; os << sdd::tools::dot(root);
  { std::ostringstream t; t << root; VF_CHECK(not t.str().empty(), "text: nothing is printed for a term"); std::ostringstream u; u << root; VF_CHECK(t.str() == u.str(), "text: a term is printed in two ways"); }
  const auto after = m.hom_stats();
  VF_CHECK(before.size == after.size and before.misses == after.misses, "inspecting a term creates or removes terms");
  const Dot d = parse_dot(os.str(), "digraph homomorphism");
  if (not visit(Dissect{}, root).drawn) { VF_CHECK(d.label.empty() and d.out.empty(), "term: something is drawn beside the term"); ev("terms_named"); return; }
  std::string top;
  for (auto& n : d.label) if (not d.in.count(n.first)) { VF_CHECK(top.empty(), "term: several nodes without predecessor"); top = n.first; }
  VF_CHECK(not top.empty(), "term: no root");
  std::map<std::string, H> map; std::unordered_map<H, std::string> back;
  std::vector<std::pair<std::string, H>> todo{{top, root}};
  std::size_t edges = 0, declared = 0, all = 0;
  while (not todo.empty())
  {
    const auto cur = todo.back(); todo.pop_back();
    const auto& name = cur.first;
    const auto known = map.find(name);
    if (known != map.end()) { VF_CHECK(known->second == cur.second, "term: one name for two terms"); continue; }
    map.emplace(name, cur.second);
    const Anatomy a = visit(Dissect{}, cur.second);
    if (not a.identity) VF_CHECK(back.emplace(cur.second, name).second, "term: two names for one term");
    const auto out = d.out.find(name);
    const std::size_t n = out == d.out.end() ? 0 : out->second.size();
    VF_CHECK(d.label.count(name) == a.drawn, "term: " << name << (a.drawn ? " is not declared" : " is declared"));
    VF_CHECK(n == a.parts.size(), "term: " << n << " operands drawn for " << a.parts.size() << " of '" << a.label << "'");
    if (not a.drawn) { ev("terms_named"); continue; }
    ++declared; edges += n;
    const auto& label = d.label.at(name);
    if (a.parts.empty() and not a.identity) VF_CHECK(label.compare(0, a.label.size(), a.label) == 0 and label.back() == ')', "term: a function is labelled " << label);
    else VF_CHECK(label == a.label, "term: labelled '" << label << "' instead of '" << a.label << "'");
    std::vector<bool> used(n);
    for (std::size_t k = 0; k < n; ++k)
    {
      // labelled operands are told apart by their label, the others by the order they are held in
      std::size_t j = k;
      if (not a.parts[k].label.empty()) for (j = 0; j < n and (used[j] or out->second[j].label != a.parts[k].label); ++j) {}
      VF_CHECK(j < n and out->second[j].label == a.parts[k].label, "term: no operand '" << a.parts[k].label << "' drawn for '" << a.label << "'");
      used[j] = true;
      todo.emplace_back(out->second[j].to, a.parts[k].h);
    }
  }
  for (auto& o : d.out) all += o.second.size();
  VF_CHECK(d.label.size() == declared and all == edges, "term: " << d.label.size() << " nodes and " << all << " lines drawn, " << declared << " and " << edges << " expected");
  ev("terms_drawn"); ev("term_nodes", declared); if (declared > 3) ev("terms_shared_checked");
}
#endif

// Nodes with hundreds of arcs, flat and hierarchical.
static void wide_nodes(Rng& g)
{
  palette().clear();
  const bool nest = V<C>::max_domain < 200 or g.chance(1, 3);
  const unsigned side = 13 + g.below(6), n = nest ? side * side : std::min<unsigned>(V<C>::max_domain, 140 + g.below(300)), low = 9;
  identity_map(std::max(n, 64u));
  Items is(2); if (nest) is[0].nested = Items(2);
  const Shape sh = finish(is);
  auto m = sdd::init<C>(config<C>(roomy()));
  const sdd::order<C> o(to_builder<C>(sh.items));
  lg("wide nodes over " + show(sh.items));
  for (int rep = 0; rep < 2; ++rep)
  {
    std::vector<S> parts;
    for (unsigned h = 0; h < n; ++h)
    {
      if (rep and g.chance(1, 6)) continue;
      Box b; if (nest) { b.push_back({h / side}); b.push_back({h % side}); } else b.push_back({h});
      std::vector<unsigned> v; const unsigned bits = rep ? g.below((1u << low) - 1) + 1 : h + 1;
      for (unsigned k = 0; k < low; ++k) if (bits >> k & 1) v.push_back(k);
      b.push_back(v); parts.push_back(mk_box<C>(sh.items, b));
    }
    one_diagram(sdd::sum<C>(parts.begin(), parts.end()), sh, o, m);
    ev("wide_nodes");
  }
}

int main(int argc, char** argv)
{
  return run_cases(parse(argc, argv), [](Rng& g, u64)
  {
    if (g.chance(1, 150)) return wide_nodes(g);
    const Shape sh = random_shape(g, 1 + g.below(g.chance(1, 4) ? 12 : 6), g.below(4));
    const unsigned dom = 2 + g.below(g.chance(1, 4) ? 20 : 5);
    V<C>::choose(g, std::min<unsigned>(dom, V<C>::max_domain));
    make_palette(g, sh.leaves, dom);
    auto m = sdd::init<C>(config<C>(g.chance(1, 2) ? roomy() : random_sizes(g)));
    const sdd::order<C> o(to_builder<C>(sh.items));
    lg("order " + show(sh.items));
    check_order(o, sh);
    if (g.chance(1, 4)) check_hypergraph(g);
    std::vector<S> pool{sdd::zero<C>()};
    for (unsigned n = 3 + g.below(8); n; --n)
    {
      S x = pool[g.below(pool.size())];
      const unsigned k = 1 + g.below(6);
      for (unsigned j = 0; j < k; ++j) x = x + mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 200));
      if (g.chance(1, 4)) x = x - mk_box<C>(sh.items, random_box(g, sh.leaves, dom, 200));
      pool.push_back(x);
    }
    pool.push_back(sdd::one<C>());
    for (auto& x : pool) one_diagram(x, sh, o, m);
#ifndef VF_REDUCED
    const Scope<C> sc(sh.items);
    Gen<C> gen{g, std::min<unsigned>(dom, V<C>::max_domain)};
    for (unsigned n = 1 + g.below(4); n--;)
    {
      const auto t = g.chance(1, 3) ? gen.net(sc) : gen.any(sc, 1 + g.below(5), false, false);
      lg("term " + show(*t));
      const H h = make<C>(*t, sc, g.chance(1, 3) ? &g : nullptr);
      check_term(h, m);
      const H r = sdd::rewrite(o, h);
      check_term(r, m);
      if (visit(Dissect{}, r).label == "$*") ev("saturations_drawn");
    }
#endif
    manager_tool(m, 0);
  });
}
