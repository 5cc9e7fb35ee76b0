// Reads a source text and reports everything observable about it.
#include "dump.hh"
#include "harness.hh"
using namespace FLPR;
static bool read(Logical_File &lf, JV const &c) {
  std::string text;
  for (auto const &l : c["lines"].a) { text += l.s; text += '\n'; }
  std::istringstream is(text);
  bool fixed = c["form"].s == "fixed";
  return lf.read_and_scan(is, fixed ? "case.f" : "case.f90", (int)c["lc"].i,
                          fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
}
static JV do_file(JV const &c) {
  JV r = JV::obj();
  // what the process read before must not matter
  if (c.has("before"))
    for (auto const &b : c["before"].a) {
      Logical_File other;
      try { if (read(other, b)) other.make_stmts(); } catch (std::exception &) {}
    }
  Logical_File lf;
  bool ok = read(lf, c);
  r.set("ok", ok);
  if (!ok) return r;
  lf.make_stmts();
  JV d = dump_file(lf);
  for (auto &p : d.o) r.set(p.first, p.second);
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, do_file); }
