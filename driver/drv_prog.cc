// Parses the statements of a file into its program tree and reports the tree and what is derived from it.
#include "edit.hh"
#include "harness.hh"
#include "flpr/Parsed_File.hh"
#include "flpr/Procedure.hh"
#include "flpr/Procedure_Visitor.hh"
using namespace FLPR;
using PF = Parsed_File<>;
static std::map<LL_Stmt const *, int> numbers(PF &f) {
  std::map<LL_Stmt const *, int> m;
  int n = 0;
  for (auto &s : f.statements()) m[&s] = ++n;
  return m;
}
static JV node(PF::Parse_Tree::node &n, std::map<LL_Stmt const *, int> &num) {
  JV r = JV::obj(), k = JV::arr();
  r.set("t", Syntax_Tags::label(n->syntag()));
  int s = 0;
  if (n->is_stmt()) { auto f = num.find(&n->ll_stmt()); s = f == num.end() ? -1 : f->second; }
  r.set("s", s);
  int b = 0, e = 0, c = 0;
  for (auto &st : n->stmt_range()) { auto f = num.find(&st); e = f == num.end() ? -1 : f->second; if (!b) b = e; if (++c > 100000) break; }
  r.set("b", b); r.set("e", e); r.set("n", c);
  if (!n.is_leaf()) for (auto &b2 : n.branches()) k.push(node(b2, num));
  r.set("k", k);
  return r;
}
static JV run(JV const &c) {
  JV r = JV::obj();
  bool fixed = c["form"].s == "fixed";
  std::istringstream is(text_of(c));
  PF f(is, fixed ? "case.f" : "case.f90", c.has("lc") ? (int)c["lc"].i : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  r.set("read", (bool)f);
  if (!f) return r;
  auto num = numbers(f);
  r.set("n", (long)num.size());
  f.prefetch_parse_tree();
  r.set("ok", (bool)f);
  if (!f) { r.set("tree0", f.parse_tree().empty()); return r; }
  // every statement leads to its node
  bool hooks = true, trees = true;
  for (auto it = f.statements().begin(); it != f.statements().end(); ++it) {
    auto cur = f.stmt_to_node_cursor(it);
    if (!cur || !cur->is_stmt() || &cur->ll_stmt() != &*it) hooks = false;
    // and has a statement tree of the kind its node gives
    else if (!it->stmt_tree() || (*it->stmt_tree())->syntag != cur->syntag()) trees = false;
  }
  r.set("hooks", hooks); r.set("trees", trees);
  r.set("tree", f.parse_tree() ? node(*f.parse_tree(), num) : JV::obj());
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, run); }
