// Visits the procedures of a file, reports what each one looks like, edits one of them, and reads the result again.
#include "edit.hh"
#include "harness.hh"
#include "flpr/Parsed_File.hh"
#include "flpr/Procedure.hh"
#include "flpr/Procedure_Visitor.hh"
#include <vector>
using namespace FLPR;
using PF = Parsed_File<>;
using Proc = Procedure<PF>;
static std::map<LL_Stmt const *, int> numbers(PF &f) {
  std::map<LL_Stmt const *, int> m;
  int n = 0;
  for (auto &s : f.logical_file().ll_stmts) m[&s] = ++n;
  return m;
}
static JV regions(Proc &p, std::map<LL_Stmt const *, int> &num) {
  JV r = JV::arr();
  for (int i = 0; i < Proc::NUM_REGION_TAG; ++i) {
    JV q = JV::arr();
    auto tag = static_cast<Proc::Region_Tag>(i);
    int guard = 0;
    for (auto &s : p.range(tag)) { auto f = num.find(&s); q.push(f == num.end() ? -1 : f->second); if (++guard > 10000) break; }
    if (p.has_region(tag) != (guard > 0)) q.push(-2);
    // the same statements through the other ways of asking
    int n2 = 0; bool same = true;
    for (auto it = p.begin(tag); it != p.end(tag) && n2 < 10000; ++it, ++n2) {
      auto f = num.find(&*it);
      if (n2 >= (int)q.a.size() || f == num.end() || q.a[n2].i != f->second) same = false;
    }
    if (n2 != guard || !same) q.push(-3);
    if (guard && &*p.last(tag) != &*std::prev(p.range(tag).end())) q.push(-4);
    r.push(q);
  }
  return r;
}
static JV describe(Proc &p, std::map<LL_Stmt const *, int> &num) {
  JV r = JV::obj();
  r.set("init", p.procedure_initialized());
  r.set("main", p.is_main_program());
  r.set("headless", p.headless_main_program());
  r.set("name", p.name());
  JV l = JV::arr();
  std::vector<int> labels;
  p.scan_out_labels(std::back_inserter(labels));
  for (int x : labels) l.push(x);
  r.set("labels", l);
  r.set("regs", regions(p, num));
  return r;
}
// every procedure, in the order of the visits; the action on visit number `yes` answers true
static JV visit(PF &f, long yes) {
  JV r = JV::obj(), ps = JV::arr();
  auto num = numbers(f);
  long n = 0;
  Proc q(f);
  auto act = [&](PF &, PF::Parse_Tree::cursor_t c, bool internal, bool module) -> bool {
    JV d;
    Proc p(f);
    bool ok = p.ingest(c);
    if (ok) d = describe(p, num); else d = JV::obj();
    // one that has been used before and cleared tells the same
    q.clear();
    bool blank = !q.procedure_initialized();
    bool ok2 = q.ingest(c);
    bool same = ok2 == ok && (!ok || describe(q, num).str() == describe(p, num).str());
    d.set("ok", ok && same && blank);
    d.set("tag", Syntax_Tags::label(c->syntag()));
    d.set("internal", internal); d.set("module", module);
    ps.push(d);
    return ++n == yes;
  };
  Procedure_Visitor<PF, decltype(act)> v(f, act);
  r.set("ret", v.visit());
  r.set("procs", ps);
  return r;
}
static JV texts(PF &f) {
  JV r = JV::arr();
  for (auto &s : f.logical_file().ll_stmts) {
    JV o = JV::obj();
    std::string t;
    for (auto &k : s) t += k.text();
    o.set("q", t); o.set("l", s.label());
    r.push(o);
  }
  return r;
}
static long notes(std::string const &text) {
  long n = 0;
  for (char c : text) n += c == '!';
  return n;
}
static int tag_for(int region) {
  switch (region) {
  case Proc::USES: return Syntax_Tags::SG_USE_STMT;
  case Proc::IMPORTS: return Syntax_Tags::SG_IMPORT_STMT;
  case Proc::IMPLICITS: return Syntax_Tags::SG_IMPLICIT_STMT;
  case Proc::CONTAINED: return Syntax_Tags::SG_CONTAINS_STMT;
  case Proc::DECLS: return Syntax_Tags::SG_TYPE_DECLARATION_STMT;
  }
  return Syntax_Tags::SG_CALL_STMT;
}
static JV run(JV const &c) {
  JV r = JV::obj();
  bool fixed = c["form"].s == "fixed";
  std::istringstream is(text_of(c));
  PF f(is, fixed ? "case.f" : "case.f90", 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  r.set("read", (bool)f);
  if (!f) return r;
  f.prefetch_parse_tree();
  r.set("ok", (bool)f);
  if (!f) return r;
  r.set("v0", visit(f, c["yes"].i));
  if (!c.has("edits")) return r;
  long nb = notes(written(f.logical_file()));
  // the procedure to edit
  std::vector<PF::Parse_Tree::cursor_t> cs;
  auto act = [&](PF &, PF::Parse_Tree::cursor_t k, bool, bool) { cs.push_back(k); return false; };
  Procedure_Visitor<PF, decltype(act)>(f, act).visit();
  Proc p(f);
  if (cs.empty()) return r;
  if (!p.ingest(cs.at(c["proc"].i % cs.size()))) { r.set("ingest", false); return r; }
  JV es = JV::arr();
  for (auto const &e : c["edits"].a) {
    JV v = JV::obj();
    std::string const &o = e["o"].s;
    std::string res;
    if (o == "ins") {
      auto tag = static_cast<Proc::Region_Tag>(e["r"].i);
      auto pos = p.begin(tag);
      for (long i = 0; i < e["i"].i && pos != p.end(tag); ++i) pos = Proc::Region_Iterator(tag, std::next(pos));
      auto it = p.emplace_stmt(pos, Logical_Line((fixed ? std::string("      ") : std::string()) + e["t"].s), tag_for(tag), e["bp"].i != 0);
      auto num = numbers(f);
      res = std::to_string(num[&*it]) + (it.get_region() == tag ? "" : " other region");
    } else if (o == "rename") res = p.rename(e["t"].s) ? "T" : "F";
    else if (o == "endstmt") res = p.complete_end_stmt() ? "T" : "F";
    else if (o == "rep") {
      auto tag = static_cast<Proc::Region_Tag>(e["r"].i);
      if (p.has_region(tag)) {
      auto pos = p.begin(tag);
      for (long i = e["i"].i % p.range(tag).size(); i > 0; --i) pos = Proc::Region_Iterator(tag, std::next(pos));
      auto it = p.replace_stmt(pos, e["t"].s, tag_for(tag));
      auto num = numbers(f);
      res = std::to_string(num[&*it]);
      }
    }
    v.set("res", res);
    v.set("texts", texts(f));
    auto num = numbers(f);
    v.set("p", describe(p, num));
    es.push(v);
  }
  r.set("es", es);
  // what a tool would write, read again
  std::string out = written(f.logical_file());
  r.set("notes", notes(out) - nb);
  std::istringstream is2(out);
  PF g(is2, fixed ? "case.f" : "case.f90", 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  bool ok = (bool)g;
  r.set("reread", ok);
  r.set("out", out);
  if (ok) {
    g.prefetch_statements();
    r.set("texts", texts(g));
    g.prefetch_parse_tree();
    r.set("ok1", (bool)g);
    if (g) r.set("v1", visit(g, 0));
  }
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, run); }
