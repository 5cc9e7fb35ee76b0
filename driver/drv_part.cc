// Replays histories of Range_Partition operations.
#include "harness.hh"
#include "leak.hh"
#include <cassert>
#include "flpr/Safe_List.hh"
#include "flpr/Parsed_File.hh"
#include "flpr/Procedure.hh"
using L = FLPR::Safe_List<int>;
using R = FLPR::SL_Range<int>;
struct Trk {
  void update_begin(L::iterator, L::iterator, L::iterator::difference_type) {}
  void update_end(L::iterator, L::iterator) {}
  void update_size(L::iterator::difference_type) {}
};
static JV run(JV const &c) {
  size_t n = c["nreg"].i;
  L l;
  l.push_back(-1); // statements before and after those of interest
  l.push_back(-2);
  L::iterator tail = std::prev(l.end()), pool = tail;
  FLPR::Range_Partition<R, Trk> p(n);
  int next = 1; bool used = false;
  JV views = JV::arr();
  // the statements a partition is filled with are there beforehand
  auto prepare = [&](size_t from) {
    pool = tail;
    int v = next; bool first = true;
    for (size_t z = from; z < c["ops"].a.size() && c["ops"].a[z]["o"].s != "reset"; ++z)
      if (c["ops"].a[z]["o"].s == "append")
        for (long y = 0; y < c["ops"].a[z]["n"].i; ++y) { auto it = l.insert(tail, v++); if (first) { pool = it; first = false; } }
  };
  prepare(0);
  for (size_t opi = 0; opi < c["ops"].a.size(); ++opi) {
    JV const &op = c["ops"].a[opi];
    std::string const o = op["o"].s;
    size_t i = op["i"].i - 1; long k = op["k"].i, m = op["n"].i;
    JV ret = JV::arr();
    if (o == "append") {
      L::iterator b = pool;
      std::advance(pool, m); next += m;
      if (i % 2) p.set_tracker(i, Trk());
      if (m % 2) p.append(i, R(b, pool)); else p.append(i, b, pool);
      if (m) used = true;
    } else if (o == "range") {
      int z = 0;
      for (L::iterator it = p.begin(i); it != p.end(i); ++it) { ret.push(*it); if (++z > 60) break; }
    } else if (o == "insert") {
      L::iterator pos = p.begin(i), first = pos;
      std::advance(pos, k);
      for (long z = 0; z < m; ++z) { auto it = l.insert(pos, next++); if (z == 0) first = it; }
      p.insert(i, first, pos);
    } else if (o == "reset") {
      p.clear_partitions();
      l.clear(); l.push_back(-1); l.push_back(-2); tail = std::prev(l.end()); used = false; prepare(opi + 1);
    }
    p.validate();
    auto const &cp = p;
    JV w = JV::obj(), ps = JV::arr(), all = JV::arr();
    for (size_t q = 0; q < n; ++q) {
      JV d = JV::obj(), e = JV::arr();
      d.set("e", cp.empty(q));
      if (!cp.empty(q)) { int z = 0; for (auto it = cp.begin(q); it != cp.end(q); ++it) { e.push(*it); if (++z > 60) break; } }
      d.set("c", e); ps.push(d);
    }
    if (used) { int z = 0; for (auto it = cp.begin(); it != cp.end(); ++it) { all.push(*it); if (++z > 90) break; } }
    w.set("p", ps); w.set("all", all); w.set("r", ret);
    views.push(w);
  }
  JV r = JV::obj(); r.set("v", views);
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, run); }
