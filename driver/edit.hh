// The view of a file that an editing tool relies on.
#ifndef VERIF_EDIT_HH
#define VERIF_EDIT_HH
#include "dump.hh"
inline std::string trim(std::string const &s) {
  auto b = s.find_first_not_of(" \t\r"), e = s.find_last_not_of(" \t\r");
  return b == std::string::npos ? std::string() : s.substr(b, e - b + 1);
}
// the blanks after the mark of a comment do not matter
inline std::string norm(std::string const &t) {
  if (t.size() < 2 || t[0] != '!' || !isspace((unsigned char)t[1])) return t;
  return "! " + trim(t.substr(1));
}
// the text on a physical line that is not part of a statement
inline bool row_item(FLPR::File_Line const &f, std::string &out) {
  if (f.is_blank()) return false;
  if (f.is_fortran()) {
    auto p = f.right_txt.find('!');
    if (p == std::string::npos) return false;
    out = norm(trim(f.right_txt.substr(p)));
    return true;
  }
  out = norm(trim(f.left_txt + f.left_space + f.main_txt + f.right_space + f.right_txt));
  return true;
}
inline std::string written(FLPR::Logical_File const &lf) {
  std::ostringstream os;
  for (auto const &l : lf.lines) os << l;
  return os.str();
}
inline bool read_text(FLPR::Logical_File &lf, std::string const &text, bool fixed, int lc) {
  std::istringstream is(text);
  return lf.read_and_scan(is, fixed ? "case.f" : "case.f90", lc,
                          fixed ? FLPR::File_Type::FIXEDFMT : FLPR::File_Type::FREEFMT);
}
inline std::string text_of(JV const &c) {
  std::string text;
  for (auto const &l : c["lines"].a) { text += l.s; text += '\n'; }
  return text;
}
inline JV edit_view(FLPR::Logical_File &lf) {
  JV v = JV::obj(), com = JV::arr(), gs = JV::arr();
  std::map<FLPR::Logical_Line const *, std::vector<long>> before; // per line: items before row r
  long n = 0;
  std::string t;
  for (auto const &ll : lf.lines) {
    auto &rows = before[&ll];
    for (auto const &f : ll.layout()) {
      rows.push_back(n);
      if (!ll.suppress && row_item(f, t)) { com.push(t); ++n; }
    }
  }
  v.set("com", com);
  auto it = lf.ll_stmts.begin();
  while (it != lf.ll_stmts.end()) {
    FLPR::Logical_Line const *ll = &it->ll();
    JV g = JV::obj(), st = JV::arr(), comp = JV::arr();
    g.set("label", it->label());
    int row = it->begin()->main_txt_line();
    auto b = before.find(ll);
    g.set("cb", b == before.end() || row < 0 || row >= (int)b->second.size() ? -2 : b->second[row]);
    if (ll->label != it->label()) g.set("label", -1);
    while (it != lf.ll_stmts.end() && &it->ll() == ll) {
      JV toks = JV::arr();
      for (auto tt = it->begin(); tt != it->end(); ++tt) toks.push(tt->text());
      st.push(toks);
      comp.push(it->is_compound());
      ++it;
      // a new group starts where the numbering starts again
      if (it != lf.ll_stmts.end() && &it->ll() == ll && it->label() != 0) { g.set("label", -1); }
    }
    g.set("st", st); g.set("comp", comp);
    gs.push(g);
  }
  v.set("g", gs);
  return v;
}
// every token's text is at its recorded place in the layout
inline bool positions_ok(FLPR::Logical_File const &lf) {
  for (auto const &ll : lf.lines) {
    if (ll.suppress) continue;
    auto const &lay = ll.layout();
    for (auto const &t : ll.cfragments()) {
      int bl = t.main_txt_line(), el = t.main_txt_eline(), bc = t.main_txt_col(), ec = t.main_txt_ecol();
      if (bl < 0 || el < bl || el >= (int)lay.size()) return false;
      if (bl == el) {
        if (bc < 0 || ec < bc || ec > (int)lay[bl].main_txt.size() || lay[bl].main_txt.substr(bc, ec - bc) != t.text()) return false;
      } else {
        std::string all;
        if (bc < 0 || bc > (int)lay[bl].main_txt.size() || ec > (int)lay[el].main_txt.size()) return false;
        all = lay[bl].main_txt.substr(bc);
        for (int i = bl + 1; i < el; ++i) if (!lay[i].is_trivial()) all += lay[i].main_txt;
        all += lay[el].main_txt.substr(0, ec);
        // blanks between lines may belong to the token (a character constant) and are not in the main text
        std::string a, b;
        for (char ch : all) if (ch != ' ') a += ch;
        for (char ch : t.text()) if (ch != ' ') b += ch;
        if (a != b) return false;
      }
    }
  }
  return true;
}
inline JV lines_of(std::string const &text) {
  JV a = JV::arr();
  std::istringstream is(text);
  for (std::string l; std::getline(is, l);) a.push(l);
  return a;
}
inline std::vector<int> kinds_of(FLPR::Logical_File &lf) {
  std::vector<int> r;
  for (auto &s : lf.ll_stmts) for (auto const &t : s) r.push_back(t.token);
  return r;
}
#endif
