// Replays histories of Label_Stack operations.
#include "harness.hh"
#include "flpr/Label_Stack.hh"
static JV run(JV const &c) {
  FLPR::Label_Stack s;
  JV views = JV::arr();
  for (auto const &op : c["ops"].a) {
    std::string const o = op["o"].s; int v = (int)op["v"].i; long ret = 0;
    if (o == "push") s.push(v); else if (o == "pop") s.pop(); else ret = s.level(v);
    JV w = JV::obj(), t = JV::arr();
    for (int l = 1; l <= 4; ++l) t.push(s.is_top(l));
    w.set("n", s.size()); w.set("e", s.empty()); w.set("r", ret); w.set("t", t);
    views.push(w);
  }
  JV r = JV::obj(); r.set("v", views);
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, run); }
