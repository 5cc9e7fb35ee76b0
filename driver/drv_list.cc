// Replays histories of Safe_List operations.
#include "harness.hh"
#include "leak.hh"
#include "flpr/Safe_List.hh"
#include <memory>
using L = FLPR::Safe_List<int>;
static JV run(JV const &c) {
  constexpr int NL = 2, NK = 3;
  std::vector<std::unique_ptr<L>> l;
  std::vector<bool> ok(NL, true);
  for (int i = 0; i < NL; ++i) l.push_back(std::make_unique<L>());
  L none;
  std::vector<L::iterator> slot(NK, none.begin());
  JV views = JV::arr();
  auto pos = [&](L &x, L::iterator it) { // position, or -1
    long p = 0;
    for (L::iterator i = x.begin();; ++i, ++p) { if (i == it) return p; if (i == x.end() || p > 50) return -1L; }
  };
  for (auto const &op : c["ops"].a) {
    std::string const o = op["o"].s;
    size_t li = op["l"].i - 1, mi = op["m"].i - 1;
    long p = op["p"].i, q = op["q"].i; int v = (int)op["v"].i;
    L &x = *l.at(li);
    long ret = 0;
    auto at = [&](long k) { auto i = x.begin(); std::advance(i, k); return i; };
    if (o == "push") { if (v % 2) x.push_back(v); else { int const w = v; x.push_back(w); } }
    else if (o == "eback") { if (x.emplace_back(v) != v) ret = -9; }
    else if (o == "front") { if (x.emplace_front(v) != v) ret = -9; }
    else if (o == "pop") x.pop_back();
    else if (o == "ins") { int const w = v; ret = pos(x, v % 2 ? x.insert(at(p), w) : x.insert(at(p), int(v))); }
    else if (o == "empl") ret = pos(x, x.emplace(at(p), v));
    else if (o == "insr") { L &y = *l.at(mi); ret = pos(x, x.insert(at(p), y.begin(), y.end())); }
    else if (o == "era") ret = pos(x, x.erase(at(p)));
    else if (o == "erar") ret = pos(x, x.erase(at(p), at(q)));
    else if (o == "clear") { x.clear(); ok[li] = true; }
    else if (o == "remif") x.remove_if([v](int e) { return e == v; });
    else if (o == "ctor") { l[li] = p == 2 && v == 1 ? std::make_unique<L>(std::initializer_list<int>{1, 1}) : v == 0 ? std::make_unique<L>((size_t)p) : std::make_unique<L>((size_t)p, v); ok[li] = true; }
    else if (o == "copy") { L const &y = *l.at(mi); x = y; ok[li] = true; }
    else if (o == "cctor") { L const &y = *l.at(mi); l[li] = std::make_unique<L>(y); ok[li] = true; }
    else if (o == "move") { L &y = *l.at(mi); x = std::move(y); if (li != mi) ok[mi] = false; ok[li] = true; }
    else if (o == "mctor") { auto n = std::make_unique<L>(std::move(*l.at(mi))); l[li].swap(n); n.release(); ok[mi] = false; ok[li] = true; }
    else if (o == "save") slot.at(v - 1) = p == (long)x.size() ? x.end() : at(p);
    else if (o == "insat" || o == "eraat") {
      // in whichever list the saved iterator is
      size_t w = 0;
      for (size_t i = 0; i < l.size(); ++i) if (ok[i] && pos(*l[i], slot.at(p - 1)) >= 0) w = i;
      L &y = *l[w];
      auto r = o == "insat" ? y.insert(slot.at(p - 1), v) : y.erase(slot.at(p - 1));
      ret = pos(y, r);
    }
    JV w = JV::obj(), lists = JV::arr(), ks = JV::arr(), qs = JV::arr();
    for (int i = 0; i < NL; ++i) {
      JV d = JV::obj();
      if (ok[i]) {
        L &y = *l[i]; L const &cy = y;
        JV f = JV::arr(), b = JV::arr();
        int n = 0;
        for (int e : cy) { f.push(e); if (++n > 40) break; }
        n = 0;
        for (auto it = y.end(); it != y.begin();) { --it; b.push(*it); if (++n > 40) break; }
        d.set("f", f); d.set("b", b); d.set("s", y.size()); d.set("e", y.empty());
        d.set("h", y.empty() ? -1 : cy.front()); d.set("t", y.empty() ? -1 : y.back());
      }
      lists.push(d);
    }
    for (int k = 0; k < NK; ++k) {
      JV d = JV::arr(); long wl = -1, wp = -1;
      for (int i = 0; i < NL; ++i) if (ok[i]) { long z = pos(*l[i], slot[k]); if (z >= 0) { wl = i + 1; wp = z; } }
      d.push(wl); d.push(wp); ks.push(d);
    }
    for (int i = 0; i < NL; ++i) { JV row = JV::arr(); for (int j = 0; j < NL; ++j) row.push(ok[i] && ok[j] && *l[i] == *l[j]); qs.push(row); }
    w.set("l", lists); w.set("k", ks); w.set("q", qs); w.set("r", ret);
    views.push(w);
  }
  JV r = JV::obj(); r.set("v", views);
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, run); }
