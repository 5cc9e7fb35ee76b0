// Applies a sequence of editing operations to a file read from text.
#include "edit.hh"
#include "harness.hh"
using namespace FLPR;
static JV run(JV const &c) {
  JV r = JV::obj();
  bool fixed = c["form"].s == "fixed";
  int lc = (int)c["lc"].i;
  Logical_File lf;
  bool ok = read_text(lf, text_of(c), fixed, lc);
  r.set("ok", ok);
  if (!ok) return r;
  lf.make_stmts();
  r.set("v0", edit_view(lf));
  JV vs = JV::arr();
  for (auto const &op : c["ops"].a) {
    JV v = JV::obj();
    std::string const &o = op["o"].s, &text = op["t"].s;
    std::string res;
    bool done = true, lead = true;
    if (lf.ll_stmts.empty()) break;
    long n = lf.ll_stmts.size();
    auto st = std::next(lf.ll_stmts.begin(), op["a"].i % n);
    long nt = st->size();
    long b = op["b"].i % nt, e = b + op["c"].i % (nt - b);
    auto tb = std::next(st->begin(), b);
    Logical_Line &ll = st->ll();
    auto newll = [&] { return fixed ? Logical_Line(std::string("      zz = 9"), lc) : Logical_Line(std::string("zz = 9")); };
    // word-like tokens that touch cannot be separated or taken apart without becoming something else
    auto word = [](Token_Text const &t) { char ch = t.text().front(), d = t.text().back(); return isalnum(ch) || ch == '_' || ch == '.' || ch == '\'' || ch == '"' || isalnum(d) || d == '_' || d == '.' || d == '\'' || d == '"'; };
    bool touches = (tb != st->begin() && word(*std::prev(tb)) && !tb->pre_spaces()) ||
                   (std::next(tb) != st->end() && word(*std::next(tb)) && !tb->post_spaces());
    if (o == "split") res = lf.split_compound_before(st) ? "T" : "F";
    else if (o == "iso") res = lf.isolate_stmt(st) ? "T" : "F";
    else if (o == "text") lf.replace_stmt_text(st, {text}, Syntax_Tags::SG_ASSIGNMENT_STMT);
    else if (o == "rows") lf.replace_stmt_text(st, op["n"].i == 2 ? std::vector<std::string>{"zz = q", "+ 1.0"} : std::vector<std::string>{"zz = q", "+ 1.0", "- p(3)"}, Syntax_Tags::SG_ASSIGNMENT_STMT);
    else if (o == "sub") {
      LL_TT_Range rg(st->it(), TT_Range(tb, std::next(st->begin(), e + 1)));
      lf.replace_stmt_substr(st, rg, text);
    } else if (o == "after") lf.insert_text_after(st, tb, text);
    else if (o == "app") lf.append_stmt_text(st, text);
    else if (o == "repf") {
      // only names between blanks or punctuation can be replaced by names without running into their neighbours
      done = tb->token == Syntax_Tags::TK_NAME && tb->main_txt_line() == tb->main_txt_eline() && lf.ll_stmts.size();
      if (touches) done = false;
      if (done) { ll.replace_fragment(tb, Syntax_Tags::TK_NAME, text); }
    } else if (o == "remf") {
      int same_row = 0;
      for (auto const &t : *st) same_row += t.main_txt_line() == tb->main_txt_line() || t.main_txt_eline() == tb->main_txt_line();
      done = !(touches && word(*tb)) && nt > 1 && same_row > 1 && tb->main_txt_line() == tb->main_txt_eline() &&
             (tb == st->begin() || std::next(tb) == st->end() || tb->pre_spaces() > 0 || tb->post_spaces() > 0);
      if (done) { ll.remove_fragment(tb); lf.make_stmts(); }
    } else if (o == "label") res = lf.set_stmt_label(st, (int)op["n"].i) ? "T" : "F";
    else if (o == "ins") lf.emplace_ll_stmt(st, newll(), Syntax_Tags::SG_ASSIGNMENT_STMT);
    else if (o == "insp") lf.emplace_ll_stmt_after_prefix(st, newll(), Syntax_Tags::SG_ASSIGNMENT_STMT);
    else if (o == "rmemp") {
      // fixed-format lines are only rewritten one at a time; other lines may be broken anew
      done = !fixed || (ll.layout().size() == 1 && ll.layout()[0].size() < 60);
      if (done) ll.remove_empty_statements(); res = ll.has_empty_statements() ? "E" : "N";
      if (done) lf.make_stmts();
    }
    else if (o == "ind") {
      int want = (int)op["n"].i;
      st->set_leading_spaces(want, 2);
      if (!fixed && st->is_compound() < 2 && !st->has_label() && ll.layout()[0].is_fortran() && !ll.layout()[0].is_continuation() &&
          !ll.layout()[0].main_txt.empty())
        lead = ll.layout()[0].get_leading_spaces() == want && st->get_leading_spaces() == want;
    } else if (o == "com") {
      // only on lines that have not been changed, and not inside a character constant
      done = ll.layout()[0].is_fortran() && ll.layout()[0].open_delim == '\0';
      if (fixed && ll.layout().size() > 1) done = false;
      auto const &rt = ll.layout()[0].right_txt;
      if (!rt.empty() && isspace((unsigned char)rt.back())) done = false;
      if (done) ll.append_comment(text);
    } else done = false;
    v.set("done", done);
    v.set("r", res);
    v.set("lead", lead);
    v.set("mem", edit_view(lf));
    std::string out = written(lf);
    v.set("out", lines_of(out));
    v.set("pos", positions_ok(lf));
    Logical_File again;
    if (read_text(again, out, fixed, lc)) {
      again.make_stmts();
      v.set("re", edit_view(again));
      v.set("kinds", kinds_of(lf) == kinds_of(again));
    } else {
      JV x = JV::obj(); x.set("com", JV::arr()); x.set("g", JV::arr()); x.set("refused", true);
      v.set("re", x); v.set("kinds", false);
    }
    vs.push(v);
  }
  r.set("v", vs);
  return r;
}
int main(int argc, char **argv) { return run_cases(argc, argv, run); }
