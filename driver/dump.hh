// Abstraction function: the observable state of a Logical_File / Logical_Line
// through the public API, as JSON.
#ifndef VERIF_DUMP_HH
#define VERIF_DUMP_HH
#include "json.hh"
#include "flpr/flpr.hh"
#include "flpr/Logical_File.hh"
#include <map>
#include <sstream>
inline std::string flags_of(FLPR::File_Line const &f) {
  std::string r;
  if (f.is_blank()) r += 'b';
  if (f.is_comment()) r += 'c';
  if (f.is_continued()) r += 'T';
  if (f.is_continuation()) r += 'L';
  if (f.has_label()) r += 'l';
  if (f.is_preprocessor()) r += 'p';
  if (f.is_include()) r += 'i';
  if (f.is_flpr_pp()) r += 'f';
  if (f.is_flpr_lit()) r += 'x';
  if (f.is_fixed_format()) r += 'F';
  return r;
}
inline JV dump_fl(FLPR::File_Line const &f) {
  JV j = JV::obj();
  j.set("n", f.linenum);
  j.set("lt", f.left_txt); j.set("ls", f.left_space); j.set("mt", f.main_txt);
  j.set("rs", f.right_space); j.set("rt", f.right_txt);
  j.set("od", f.open_delim ? std::string(1, f.open_delim) : std::string());
  j.set("fl", flags_of(f));
  std::ostringstream os; os << f;
  j.set("out", os.str());
  return j;
}
inline JV dump_tok(FLPR::Token_Text const &t) {
  JV j = JV::obj();
  j.set("t", t.text()); j.set("lo", t.lower()); j.set("k", FLPR::Syntax_Tags::label(t.token));
  j.set("l", t.start_line); j.set("c", t.start_pos);
  j.set("ml", t.main_txt_line()); j.set("mc", t.main_txt_col());
  j.set("el", t.main_txt_eline()); j.set("ec", t.main_txt_ecol());
  j.set("pre", t.pre_spaces()); j.set("post", t.post_spaces());
  return j;
}
inline JV dump_ll(FLPR::Logical_Line const &ll) {
  JV j = JV::obj();
  JV lay = JV::arr();
  for (auto const &f : ll.layout()) lay.push(dump_fl(f));
  j.set("layout", lay);
  j.set("label", ll.label);
  { std::ostringstream os; os << ll.cat; j.set("cat", os.str()); }
  j.set("sup", ll.suppress);
  JV fr = JV::arr();
  std::map<FLPR::Token_Text const *, long> idx;
  long n = 0;
  for (auto it = ll.cfragments().begin(); it != ll.cfragments().end(); ++it) { idx[&*it] = n++; fr.push(dump_tok(*it)); }
  idx[&*ll.cfragments().end()] = n;
  j.set("frag", fr);
  j.set("has", ll.has_stmts());
  JV st = JV::arr();
  for (auto const &r : ll.stmts()) {
    JV p = JV::arr();
    auto b = idx.find(&*r.begin()), e = idx.find(&*r.end());
    p.push(b == idx.end() ? -1 : b->second); p.push(e == idx.end() ? -1 : e->second);
    st.push(p);
  }
  j.set("st", st);
  j.set("fort", ll.has_fortran());
  j.set("nsemi", ll.has_stmts() ? ll.num_semicolons() : -1);
  j.set("emp", ll.has_stmts() ? ll.has_empty_statements() : false);
  std::ostringstream os; ll.print(os);
  JV ol = JV::arr();
  { std::istringstream is(os.str()); for (std::string l; std::getline(is, l);) ol.push(l); }
  j.set("out", ol);
  return j;
}
inline JV dump_stmts(FLPR::Logical_File &lf) {
  std::map<FLPR::Logical_Line const *, long> li;
  std::map<FLPR::Token_Text const *, long> ti;
  long n = 0;
  for (auto it = lf.lines.begin(); it != lf.lines.end(); ++it) {
    li[&*it] = n++;
    long m = 0;
    for (auto t = it->cfragments().begin(); t != it->cfragments().end(); ++t) ti[&*t] = m++;
    ti[&*it->cfragments().end()] = m;
  }
  JV a = JV::arr();
  for (auto &s : lf.ll_stmts) {
    JV j = JV::obj();
    auto f = li.find(&s.ll());
    j.set("ll", f == li.end() ? -1 : f->second);
    auto b = ti.find(&*s.begin()), e = ti.find(&*s.end());
    j.set("b", b == ti.end() ? -1 : b->second);
    j.set("e", e == ti.end() ? -1 : e->second);
    j.set("label", s.label());
    j.set("comp", s.is_compound());
    JV p = JV::arr();
    for (auto &x : s.prefix_lines) { auto g = li.find(&*x); p.push(g == li.end() ? -1 : g->second); }
    j.set("prefix", p);
    j.set("line", s.linenum()); j.set("col", s.colnum());
    a.push(j);
  }
  return a;
}
inline JV dump_file(FLPR::Logical_File &lf, bool stmts = true) {
  JV j = JV::obj();
  JV a = JV::arr();
  JV out = JV::arr();
  for (auto const &ll : lf.lines) {
    JV d = dump_ll(ll);
    for (auto const &o : d["out"].a) out.push(o);
    a.push(d);
  }
  j.set("lines", a);
  j.set("out", out);
  j.set("nin", lf.num_input_lines);
  if (stmts) j.set("stmts", dump_stmts(lf));
  return j;
}
#endif
