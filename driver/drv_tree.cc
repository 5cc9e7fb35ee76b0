// Replays histories of Tree operations.
#include "harness.hh"
#include "leak.hh"
#include "flpr/Tree.hh"
using T = FLPR::Tree<int>;
using It = T::iterator;
static It walk(T &t, JV const &p) {
  It it = t.root();
  for (auto const &k : p.a) { auto b = it->branches().begin(); std::advance(b, k.i - 1); it = b; }
  return it;
}
static bool find(It it, It want, JV &path) {
  if (it == want) return true;
  if (it->is_leaf()) return false;
  long k = 0;
  for (It b = it->branches().begin(); b != it->branches().end(); ++b) {
    path.a.push_back(JV(++k));
    if (find(b, want, path)) return true;
    path.a.pop_back();
  }
  return false;
}
static JV show(It it, It parent, bool root, It sib_prev, bool hp, It sib_next, bool hn, int depth) {
  JV o = JV::obj(), f = JV::obj(), c = JV::arr();
  if (depth > 20) return o;
  T::cursor_t cur(it); T::const_cursor_t cc(cur);
  f.set("root", cur.is_root()); f.set("up", cur.has_up()); f.set("prev", cur.has_prev()); f.set("next", cur.has_next());
  f.set("down", cur.has_down()); f.set("leaf", cur.is_leaf()); f.set("fork", cur.is_fork());
  bool l = it->self() == it && it->trunk() == parent && it->is_root() == root && cur.self() == it && *cur == **it && *cc == **it;
  l = l && cc.is_root() == cur.is_root() && cc.has_up() == cur.has_up() && cc.has_prev() == cur.has_prev() && cc.has_next() == cur.has_next()
        && cc.has_down() == cur.has_down() && cc.is_leaf() == cur.is_leaf() && cc.is_fork() == cur.is_fork() && cc.num_branches() == cur.num_branches();
  if (cur.has_up()) { T::cursor_t x(it); T::const_cursor_t y(x); l = l && x.up().self() == parent && y.up().self() == T::const_iterator(parent); }
  if (cur.has_prev()) { T::cursor_t x(it); T::const_cursor_t y(x); l = l && hp && x.prev().self() == sib_prev && y.prev().self() == T::const_iterator(sib_prev); }
  if (cur.has_next()) { T::cursor_t x(it); T::const_cursor_t y(x); l = l && hn && x.next().self() == sib_next && y.next().self() == T::const_iterator(sib_next); }
  if (cur.has_down()) { T::cursor_t x(it); T::const_cursor_t y(x); l = l && x.down().self() == it->branches().begin() && y.down().self() == T::const_iterator(it->branches().begin()); }
  { T::cursor_t x(it); T::const_cursor_t y(x); l = l && x.try_next() == hn && x.self() == (hn ? sib_next : it) && y.try_next() == hn; }
  { T::cursor_t x(it); T::const_cursor_t y(x); bool d = it->is_fork(); l = l && x.try_down() == d && x.self() == (d ? it->branches().begin() : it) && y.try_down() == d; }
  // one step further than there is: stops at the last, says no
  { T::cursor_t x(it); T::const_cursor_t y(x); l = l && !x.try_next(50) && !x.has_next() && !y.try_next(50) && !y.has_next() && !x.try_down(50) && x.is_leaf() && !y.try_down(50) && y.is_leaf(); }
  o.set("v", **it); o.set("z", it->size()); o.set("b", it->num_branches()); o.set("l", l); o.set("f", f);
  if (it->is_fork())
    for (It b = it->branches().begin(); b != it->branches().end(); ++b) {
      bool p = b != it->branches().begin(), n = std::next(b) != it->branches().end();
      c.push(show(b, it, false, p ? std::prev(b) : b, p, n ? std::next(b) : b, n, depth + 1));
    }
  o.set("c", c);
  return o;
}
static JV run(JV const &c) {
  constexpr int NT = 2, NK = 2;
  std::vector<T> t(NT);
  std::vector<bool> gone(NT, false);
  T none(7);
  std::vector<T::cursor_t> slot(NK, none.cursor());
  JV views = JV::arr();
  for (auto const &op : c["ops"].a) {
    std::string const o = op["o"].s;
    size_t i = op["t"].i - 1, j = op["u"].i - 1; long k = op["i"].i; int v = (int)op["v"].i;
    T &x = t.at(i);
    JV ret = JV::arr();
    auto tell = [&](It it) { JV p = JV::arr(); if (find(x.root(), it, p)) ret = p; else ret.push(-1); };
    auto br = [&](It n) { auto b = n->branches().begin(); std::advance(b, k); return b; };
    if (o == "new") { x = v == 0 ? T(true) : T(int(v)); gone[i] = false; }
    else if (o == "clear") { x.clear(); gone[i] = false; }
    else if (o == "ef") tell(walk(x, op["p"])->emplace_front(T::node(v)));
    else if (o == "eb") tell(walk(x, op["p"])->emplace_back(T::node(v)));
    else if (o == "em") { It n = walk(x, op["p"]); tell(n->emplace(br(n), T::node(v))); }
    else if (o == "graft") { It p = br(x.root()); It r = k == 0 ? x.graft_front(t.at(j)) : k == (long)x->num_branches() ? x.graft_back(t.at(j)) : x.graft(p, t.at(j)); tell(r); }
    else if (o == "graftm") { It p = br(x.root()); It r = k == 0 ? x.graft_front(std::move(t.at(j))) : k == (long)x->num_branches() ? x.graft_back(std::move(t.at(j))) : x.graft(p, std::move(t.at(j))); gone[j] = true; tell(r); }
    else if (o == "erase") { It n = walk(x, op["p"]); n->trunk()->branches().erase(n->self()); }
    else if (o == "prune") walk(x, op["p"])->branches().clear();
    else if (o == "swapn") walk(x, op["p"])->swap(*walk(t.at(j), op["q"]));
    else if (o == "swapt") { x.swap(t.at(j)); bool g = gone[i]; gone[i] = gone[j]; gone[j] = g; }
    else if (o == "move") { x = std::move(t.at(j)); gone[i] = gone[j]; }
    else if (o == "mctor") { T y(std::move(t.at(j))); x = std::move(y); gone[i] = gone[j]; }
    else if (o == "xfer") { It src = walk(t.at(j), op["q"]); It dst = walk(x, op["p"]); It n = dst->emplace_back(std::move(*src)); src->trunk()->branches().erase(src); tell(n); }
    else if (o == "save") slot.at(v - 1) = T::cursor_t(walk(x, op["p"]));
    JV w = JV::obj(), ts = JV::arr(), ks = JV::arr();
    for (int a = 0; a < NT; ++a) {
      JV d = JV::obj();
      if (!gone[a]) {
        T &y = t[a]; T const &cy = y;
        d.set("init", (bool)cy); d.set("empty", cy.empty()); d.set("size", cy.size());
        if (cy) { cy.check(); d.set("root", show(y.root(), y.root(), true, y.root(), false, y.root(), false, 0)); }
      }
      ts.push(d);
    }
    for (int a = 0; a < NK; ++a) {
      JV p = JV::arr(); p.push(-1);
      for (int b = 0; b < NT; ++b) if (!gone[b] && t[b]) { JV z = JV::arr(); z.push(b + 1); if (find(t[b].root(), slot[a].self(), z)) p = z; }
      ks.push(p);
    }
    w.set("t", ts); w.set("k", ks); w.set("r", ret);
    views.push(w);
  }
  JV r = JV::obj(); r.set("v", views);
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, run); }
