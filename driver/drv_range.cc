// Replays histories of SL_Range operations over a list of N elements.
#include "harness.hh"
#include "leak.hh"
#include "flpr/Safe_List.hh"
using L = FLPR::Safe_List<int>;
using R = FLPR::SL_Range<int>;
static JV run(JV const &c) {
  long N = c["n"].i;
  L a;
  for (int i = 0; i < N; ++i) a.push_back(i);
  L b(a);
  std::vector<R> x(c["nr"].i);
  std::vector<bool> bad(x.size(), true);
  auto at = [&](long k) { auto i = a.begin(); std::advance(i, k); return i; };
  auto pos = [&](L &l, L::const_iterator it) { long p = 0; for (L::const_iterator i = l.begin();; ++i, ++p) { if (i == it) return p; if (i == l.cend()) return -7L; } };
  JV views = JV::arr();
  for (auto const &op : c["ops"].a) {
    std::string const o = op["o"].s;
    size_t i = op["l"].i - 1, j = op["m"].i - 1; long p = op["p"].i, q = op["q"].i;
    R &r = x.at(i);
    if (o == "make") { r = R(at(p), at(q)); bad[i] = false; }
    else if (o == "only") { r = R(at(p)); bad[i] = false; }
    else if (o == "all") { r = R(a); bad[i] = false; }
    else if (o == "bad") { r = R(); bad[i] = true; }
    else if (o == "clear") { r.clear(); bad[i] = true; }
    else if (o == "clrat") { r.clear(at(p)); bad[i] = false; }
    else if (o == "asgn") { R const &s = x.at(j); if (p % 2) r = s; else r.assign_range(s); bad[i] = bad[j]; }
    else if (o == "pushf") { if (!x.at(j).empty()) { if (r.empty()) bad[i] = false; } r.push_front(x.at(j)); }
    else if (o == "pushb") { if (!x.at(j).empty()) { if (r.empty()) bad[i] = false; } r.push_back(x.at(j)); }
    JV w = JV::obj(), xs = JV::arr(), cs = JV::arr(), qs = JV::arr();
    for (size_t k = 0; k < x.size(); ++k) {
      R &y = x[k]; R const &cy = y;
      JV d = JV::obj(), it = JV::arr();
      d.set("e", y.empty()); d.set("n", y.size());
      if (!bad[k]) { int n = 0; for (int v : y) { it.push(v); if (++n > 40) break; } }
      d.set("i", it);
      d.set("b", bad[k] ? -1L : pos(a, cy.begin())); d.set("d", bad[k] ? -1L : pos(a, cy.end()));
      d.set("f", y.empty() ? -1 : y.front()); d.set("t", y.empty() ? -1 : cy.back());
      xs.push(d);
      JV e = JV::obj();
      if (!bad[k]) {
        R z = FLPR::rebase<int>(a.cbegin(), y, b.begin());
        FLPR::SL_Const_Range<int> cr(z.cbegin(), z.cend());
        FLPR::SL_Range_Iterator<int> ri(z);
        JV it2 = JV::arr();
        int n = 0;
        while (ri) { it2.push(*ri); ri.advance(); if (++n > 40) break; }
        e.set("e", cr.empty()); e.set("n", cr.size()); e.set("i", it2);
        e.set("b", pos(b, cr.begin())); e.set("d", pos(b, cr.end()));
        e.set("f", cr.empty() ? -1 : cr.front()); e.set("t", cr.empty() ? -1 : cr.back());
      }
      cs.push(e);
      JV row = JV::arr();
      for (auto &z : x) row.push(cy.equal(z));
      qs.push(row);
    }
    w.set("x", xs); w.set("c", cs); w.set("q", qs);
    views.push(w);
  }
  JV r = JV::obj(); r.set("v", views);
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, run); }
