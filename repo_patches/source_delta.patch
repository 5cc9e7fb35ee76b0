From 1140322af89b53977f87df4ece17c970b1a21b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 01/31] fix: leave real-literal lexer state at the end of each
 scan

---
 src/flpr/scan_fort.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index a274ae2..fe2386d 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -260,6 +260,8 @@ write { return Syntax_Tags::KW_WRITE; }
                    yyless(0); yy_push_state(kind_parse); }
   .|\n           { curr_line_pos -= yyleng;
                    yyless(0);  BEGIN(INITIAL); }
+  /* a literal at the end of the text must not affect the next scan */
+  <<EOF>>        { BEGIN(INITIAL); yyterminate(); }
 }
 
   /* R714: real-literal-constant (7.4.3.2) */
-- 
2.43.0


From a1165f7d802df1ae118694cf436c6fe12286fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 02/31] fix: lex an integer followed by a dotted operator as an
 integer

---
 src/flpr/scan_fort.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index fe2386d..ed590ff 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -274,6 +274,14 @@ write { return Syntax_Tags::KW_WRITE; }
   				  
   /* R708: int-literal-constant (7.4.3.1) */
 {DIGIT}+(_{KIND})?   { return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
+  /* an integer directly followed by a dotted operator (e.g. 1.and.b) is not
+     the start of a real-literal-constant */
+{DIGIT}+(_{KIND})?\.[a-z]+\. {
+   int const len = static_cast<int>(strchr(yytext, '.') - yytext);
+   curr_line_pos -= yyleng - len;
+   yyless(len);
+   return Syntax_Tags::SG_INT_LITERAL_CONSTANT;
+}
 
   /* These must be last to allow keyword and operator completion */
 
-- 
2.43.0


From eef3bee92beaf96292f6c8df6e1320d276e6346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 03/31] fix: give both halves of a fused keyword their own text
 positions

---
 src/flpr/Logical_Line.cc | 21 +++++++++++++++------
 src/flpr/Logical_Line.hh |  2 +-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6e4b5df..a9e1e32 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -766,11 +766,9 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     /* tok_start is an index into la.accum().  Convert this into a file line and
      column number */
     int li, ci, tli, tci;
-    la.linecolno(tok_start_col, li, ci, tli, tci);
+    int const tok_begin = tok_start_col;
+    la.linecolno(tok_begin, li, ci, tli, tci);
     fragments_.emplace_back(std::string(yytext, yyleng), result_tok, li, ci);
-    /* Break up keywords with no space. */
-    if (result_tok == Syntax_Tags::TK_NAME)
-      unsmash();
 
     /* calculate the "end" address (one character beyond the last character of
        the token */
@@ -800,6 +798,10 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     tt.post_spaces_ = space_between;
 
     next_pre_sp = space_between;
+
+    /* Break up keywords with no space. */
+    if (result_tok == Syntax_Tags::TK_NAME)
+      unsmash(la, tok_begin);
   }
   yy_delete_buffer(bs);
   init_stmts();
@@ -828,7 +830,7 @@ void Logical_Line::append_comment(std::string const &comment_text) {
 }
 
 /* ------------------------------------------------------------------------ */
-void Logical_Line::unsmash() {
+void Logical_Line::unsmash(Line_Accum const &la, int const tok_begin) {
   using details_::Smash_Hash;
   using details_::Smashed;
   if (fragments_.empty())
@@ -848,10 +850,17 @@ void Logical_Line::unsmash() {
   new1.mod_text().erase(ptr->splitpos);
   new1.post_spaces_ = 0;
 
+  // The first token ends where the last of its own characters is
+  int li, ci;
+  la.linecolno(tok_begin + ptr->splitpos - 1, li, ci, new1.mt_end_line_,
+               new1.mt_end_col_);
+  new1.mt_end_col_ += 1;
+
   // Add a new second token
   new2.token = ptr->tok2;
   new2.mod_text().erase(0, ptr->splitpos);
-  new2.start_pos += ptr->splitpos;
+  la.linecolno(tok_begin + ptr->splitpos, new2.start_line, new2.start_pos,
+               new2.mt_begin_line_, new2.mt_begin_col_);
   new2.pre_spaces_ = 0;
   fragments_.emplace_back(std::move(new2));
 }
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 6748d73..73f34f0 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -227,7 +227,7 @@ private:
   //! If the last token in fragments is actually two (no space), split it
   /*! This handles the exception to the free-format spacing rules found
     in section 6.3.2.2 of the standard */
-  void unsmash();
+  void unsmash(Line_Accum const &la, int const tok_begin);
 
   //! Append a token to main_txt if it fits within max_len characters
   bool append_tt_if_(std::string &main_txt, size_t max_len,
-- 
2.43.0


From 5bb3bac52176d215a3f9a0113448bcdec24be120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 04/31] fix: count embedded comment and blank lines in token
 layout indices

---
 src/flpr/Logical_Line.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a9e1e32..0dc5ddf 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -131,6 +131,10 @@ void Logical_Line::init_from_layout() noexcept {
          have the correct breaks between lexemes. */
       la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
                   fl.right_space.size());
+    } else {
+      /* Embedded comments and blanks contribute no text, but need to be counted
+         so that Line_Accum line indices are layout_ indices */
+      la.add_line(fl.linenum, 0, 1, std::string(), 0);
     }
   }
 
@@ -758,6 +762,8 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
   const int N = la.accum().size();
   int tok_start_col = curr_line_pos;
+  while (tok_start_col < N && std::isspace(la.accum()[tok_start_col]))
+    tok_start_col += 1;
   int next_pre_sp = 0;
   int space_between;
 
-- 
2.43.0


From f6b743856ee8dfea624e0cd051a42bb49060536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 05/31] fix: carry continuation and character context across
 comment and blank lines

---
 src/flpr/Logical_File.cc | 11 ++++++++---
 src/flpr/Logical_Line.cc |  9 ++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 4b6b535..738f40a 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -100,7 +100,9 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
                 << "scan_fixed error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
+    /* comment and blank lines don't interrupt a continued character context */
+    if (!fl[i].is_trivial())
+      prev_open_delim = fl[i].open_delim;
   }
 
   /* Identify "logical lines": blocks of lines that represent a
@@ -196,8 +198,11 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
                 << "scan_free error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
-    prev_line_cont = fl[i].is_continued();
+    /* comment and blank lines don't interrupt a continuation */
+    if (!fl[i].is_trivial()) {
+      prev_open_delim = fl[i].open_delim;
+      prev_line_cont = fl[i].is_continued();
+    }
   }
 
   // Identify "logical lines": blocks of lines that represent a
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 0dc5ddf..eac4d05 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -81,8 +81,10 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text) {
   for (auto const &l : raw_text) {
     layout_.emplace_back(File_Line::analyze_free(
         line_no++, l, prev_open_delim, prev_line_cont, in_literal_block));
-    prev_open_delim = layout_.back().open_delim;
-    prev_line_cont = layout_.back().is_continued();
+    if (!layout_.back().is_trivial()) {
+      prev_open_delim = layout_.back().open_delim;
+      prev_line_cont = layout_.back().is_continued();
+    }
   }
   init_from_layout();
 }
@@ -103,7 +105,8 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text,
   for (auto const &l : raw_text) {
     layout_.emplace_back(
         File_Line::analyze_fixed(line_no++, l, prev_open_delim, last_col));
-    prev_open_delim = layout_.back().open_delim;
+    if (!layout_.back().is_trivial())
+      prev_open_delim = layout_.back().open_delim;
   }
   init_from_layout();
 }
-- 
2.43.0


From edac1b4c44fe31ace2429fb6686f39ee852931d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 06/31] fix: don't join tokens across an unindented free-format
 line break

---
 src/flpr/Logical_Line.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index eac4d05..a57d785 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -125,6 +125,7 @@ void Logical_Line::clear() noexcept {
 /* ------------------------------------------------------------------------ */
 void Logical_Line::init_from_layout() noexcept {
   Line_Accum la;
+  File_Line const *prev{nullptr};
 
   for (auto &fl : layout_) {
     if (!fl.is_trivial()) {
@@ -132,8 +133,15 @@ void Logical_Line::init_from_layout() noexcept {
 
       /* need to add the left and right space sizes here so that continued lines
          have the correct breaks between lexemes. */
-      la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
+      int left_spaces = fl.left_space.size();
+      /* without a leading ampersand, a free-format token can't extend across
+         the line break, even if this line starts in the first column */
+      if (prev && !prev->open_delim && !fl.is_fixed_format() &&
+          !fl.is_continuation())
+        left_spaces = std::max(left_spaces, 1);
+      la.add_line(fl.linenum, left_spaces, first_col, fl.main_txt,
                   fl.right_space.size());
+      prev = &fl;
     } else {
       /* Embedded comments and blanks contribute no text, but need to be counted
          so that Line_Accum line indices are layout_ indices */
-- 
2.43.0


From 4cb55e3b3261030111f5628e9567635c0a13dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 07/31] fix: treat a fixed-format line that is empty up to the
 last column as a comment

---
 src/flpr/File_Line.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 1d6250f..5166f9d 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -99,6 +99,14 @@ File_Line File_Line::analyze_fixed(int const linenum,
     return File_Line(linenum, bits, raw_txt);
   }
 
+  // A line with nothing up to last_column is only an implicit comment
+  if (last_column > 0 && ri >= static_cast<ST>(last_column) &&
+      raw_txt[ri] != '!') {
+    raw_txt.insert(last_column, "! ");
+    SET_CLASS(comment);
+    return File_Line(linenum, bits, raw_txt);
+  }
+
   const char c = std::toupper(raw_txt[ri]);
 
   if (ri != 5) // continuation trumps everything
-- 
2.43.0


From 364070e21f1eb048afeee1096f61582964011dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 08/31] fix: don't analyze continued macro lines as Fortran
 text

---
 src/flpr/Logical_File.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 738f40a..f7fef91 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -26,6 +26,14 @@
 #include <set>
 
 namespace FLPR {
+
+namespace {
+//! True if line i extends a backslash-continued preprocessor line
+bool is_continued_macro(std::vector<File_Line> const &fl, size_t const i) {
+  return i > 0 && fl[i - 1].is_preprocessor() &&
+         last_non_blank_char(fl[i - 1].left_txt) == '\\';
+}
+} // namespace
 void Logical_File::clear() {
   file_info.reset();
   lines.clear();
@@ -90,6 +98,14 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
   std::vector<File_Line> fl(N);
   char prev_open_delim = '\0';
   for (size_t i = 0; i < N; ++i) {
+    if (is_continued_macro(fl, i)) {
+      /* the body of a macro isn't Fortran text */
+      fl[i].linenum = (int)i + 1;
+      fl[i].left_txt = raw_lines[i];
+      fl[i].set_classification(File_Line::class_flags::preprocessor);
+      fl[i].set_classification(File_Line::class_flags::fixed_format);
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_fixed((int)i + 1, raw_lines[i],
                                        prev_open_delim, last_col);
@@ -188,6 +204,13 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
   char prev_open_delim = '\0';
   bool prev_line_cont = false;
   for (size_t i = 0; i < N; ++i) {
+    if (is_continued_macro(fl, i)) {
+      /* the body of a macro isn't Fortran text */
+      fl[i].linenum = (int)i + 1;
+      fl[i].left_txt = raw_lines[i];
+      fl[i].set_classification(File_Line::class_flags::preprocessor);
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_free((int)i + 1, raw_lines[i], prev_open_delim,
                                       prev_line_cont, in_literal_block);
-- 
2.43.0


From eb0d701c2f4e74fc2b09440685597af09f660836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 09/31] fix: recognize FLPR literal directives and don't read
 past the end of the line

---
 src/flpr/File_Line.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 5166f9d..ec7e364 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -714,11 +714,7 @@ bool is_flpr_directive(std::string const &txt,
 bool is_flpr_literal(std::string const &txt,
                      std::string::size_type comment_pos) {
   return (is_flpr_directive(txt, comment_pos) &&
-          txt.size() > comment_pos + 5 + 8 && txt[comment_pos + 9] == ' ' &&
-          txt[comment_pos + 10] == 'l' && txt[comment_pos + 11] == 'i' &&
-          txt[comment_pos + 12] == 't' && txt[comment_pos + 13] == 'e' &&
-          txt[comment_pos + 14] == 'r' && txt[comment_pos + 15] == 'a' &&
-          txt[comment_pos + 16] == 'l');
+          txt.compare(comment_pos + 6, 8, " literal") == 0);
 }
 
 /* Find trailing comments in fixed format.  Note that start_idx needs to be past
-- 
2.43.0


From e27810fda02e26ea5afd13b5314c6f211d6b6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:50 +0000
Subject: [PATCH 10/31] fix: don't let Safe_List::remove_if see or remove the
 hidden end element

---
 src/flpr/Safe_List.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index a4f2578..ca24794 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -108,10 +108,13 @@ public:
   constexpr void push_back(T &&value) { list_.insert(my_end_, value); }
   constexpr void pop_back() { list_.erase(std::prev(my_end_)); }
   template <class UnaryPredicate> constexpr void remove_if(UnaryPredicate p) {
-    list_.remove_if(p);
-    // If the predicate removed our sentry, replace it
-    if (list_.empty() && std::prev(list_.end()) != my_end_)
-      append_sentry_();
+    // The hidden element is not part of the client sequence
+    for (iterator it = list_.begin(); it != my_end_;) {
+      if (p(*it))
+        it = list_.erase(it);
+      else
+        ++it;
+    }
   }
 
   /*********************** Pass-thru functions ***********************/
-- 
2.43.0


From 56fc7083c5fdd3a033117a4c6d518cc1f91ba883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:50 +0000
Subject: [PATCH 11/31] fix: keep a stored Safe_List end() valid across clear()

---
 src/flpr/Safe_List.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index ca24794..13b084c 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -95,8 +95,13 @@ public:
   constexpr const_iterator end() const noexcept { return my_end_; }
   constexpr const_iterator cend() const noexcept { return my_end_; }
   constexpr void clear() {
-    list_.clear();
-    append_sentry_();
+    if (list_.empty()) {
+      // this was moved-from
+      append_sentry_();
+    } else {
+      // keep the hidden element, as end() may have been stored somewhere
+      list_.erase(list_.begin(), my_end_);
+    }
   }
   constexpr size_type size() const noexcept { return list_.size() - 1; };
   constexpr bool empty() const noexcept { return list_.size() < 2; };
-- 
2.43.0


From 59ff849577525c3da6f72848b5f863e13e6d8ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:32 +0000
Subject: [PATCH 12/31] fix: recognize the only active region of a
 Range_Partition as active

---
 src/flpr/Range_Partition.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index be97d04..82334a5 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -167,7 +167,10 @@ private:
     std::optional<Chg_Trkr> chg_trkr;
 
   public:
-    constexpr bool active() const noexcept { return pred != succ; }
+    /* Note that pred == succ for the only active partition */
+    constexpr bool active(const_index my_idx) const noexcept {
+      return pred != my_idx;
+    }
     constexpr void deactivate(const_index my_idx) noexcept {
       pred = my_idx;
       succ = my_idx;
@@ -185,7 +188,7 @@ private:
     return /* idx >= 0 && */ idx < end_idx_ && parts_[idx].okay();
   }
   constexpr bool active_idx_(const_index idx) const noexcept {
-    return valid_idx_(idx) && parts_[idx].active();
+    return valid_idx_(idx) && parts_[idx].active(idx);
   }
   constexpr index_type first_active_idx_() const noexcept {
     return parts_.back().succ;
@@ -197,11 +200,11 @@ private:
     return parts_.back().pred == end_idx_;
   }
   constexpr index_type next_active_idx_(index_type idx) const noexcept {
-    if (parts_[idx].active())
+    if (parts_[idx].active(idx))
       return parts_[idx].succ;
     do {
       idx += 1;
-    } while (valid_idx_(idx) && !parts_[idx].active());
+    } while (valid_idx_(idx) && !parts_[idx].active(idx));
     /* note that this could be end_idx_ */
     return idx;
   }
@@ -221,7 +224,7 @@ private:
   }
 
   constexpr void activate_(const_index idx) noexcept {
-    if (!parts_[idx].active()) {
+    if (!parts_[idx].active(idx)) {
       const_index succ = next_active_idx_(idx);
       const_index pred = parts_[succ].pred;
       parts_[pred].succ = idx;
@@ -232,7 +235,7 @@ private:
     }
   }
   constexpr void deactivate_(const_index idx) noexcept {
-    if (parts_[idx].active()) {
+    if (parts_[idx].active(idx)) {
       const_index succ = parts_[idx].succ;
       const_index pred = parts_[idx].pred;
       parts_[pred].succ = succ;
@@ -255,7 +258,7 @@ bool Range_Partition<Range, Chg_Trkr>::validate() const {
   for (index_type i = 0; i < end_idx_; ++i) {
     assert(valid_idx_(i));
     if ((parts_[i].succ == i) && (parts_[i].pred == i)) {
-      assert(!parts_[i].active());
+      assert(!parts_[i].active(i));
     } else {
       assert(active_idx_(i));
       if (first_idx == my_bad) {
-- 
2.43.0


From 951f17b4bb9f6eee7fe48143697a181e2ef0028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:32 +0000
Subject: [PATCH 13/31] fix: extend the region a statement is inserted at the
 beginning of

---
 src/flpr/Procedure.hh       | 2 +-
 src/flpr/Range_Partition.hh | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index e532ca8..3e3c0a6 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -179,7 +179,7 @@ public:
     else
       iter = file_.logical_file().emplace_ll_stmt_after_prefix(
           pos, std::move(ll), new_syntag);
-    ranges_.insert(pos.get_region(), pos, iter);
+    ranges_.insert(pos.get_region(), iter, pos);
     return Region_Iterator(pos.get_region(), iter);
   }
 
diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index 82334a5..76cb0a0 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -138,11 +138,16 @@ public:
   void insert(const_index idx, iterator new_begin, iterator insert_pos) {
     assert(active_idx_(idx));
     difference_type const size_change = std::distance(new_begin, insert_pos);
-    iterator old_begin = begin();
+    iterator old_begin = begin(idx);
     if (insert_pos == old_begin) {
       /* inserting before the body changes our begin, and we tell the tracker
          for the previous partition that their end has changed. */
       parts_[idx].begin = new_begin;
+      /* empty partitions directly before this one begin where it does */
+      for (index_type i = parts_[idx].pred;
+           i != end_idx_ && parts_[i].begin == old_begin; i = parts_[i].pred) {
+        parts_[i].begin = new_begin;
+      }
       if (has_tracker(idx))
         parts_[idx].chg_trkr->update_begin(old_begin, new_begin, size_change);
       if (valid_idx_(idx - 1) && has_tracker(idx - 1)) {
-- 
2.43.0


From e0b349f7a15f0459a3d819082596014bdd4f4954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:10 +0000
Subject: [PATCH 14/31] fix: update the statements that stay on a line that is
 split

---
 src/flpr/Logical_File.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index f7fef91..acd6003 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -345,6 +345,17 @@ bool Logical_File::split_compound_before(LL_STMT_SEQ::iterator pos) {
   assert(!ll_seq_new->stmts().empty());
   assert(ll_seq_orig->stmts().size() + ll_seq_new->stmts().size() == num_stmts);
 
+  /* update statements inplace that stay on the original Logical_Line: the
+     tokens that ended them may be gone, and they may not be compound anymore */
+  LL_Stmt_Src ss_orig{ll_seq_orig, false};
+  LL_STMT_SEQ::iterator keep_stmt =
+      std::prev(pos, ll_seq_orig->stmts().size());
+  while (ss_orig.advance()) {
+    keep_stmt->update_range(ss_orig.move());
+    std::advance(keep_stmt, 1);
+  }
+  assert(keep_stmt == pos);
+
   /* update statements inplace for the new Logical_Line */
   LL_Stmt_Src ss{ll_seq_new, false};
   size_t num_changed{0};
-- 
2.43.0


From 8f0a82b45fecaab93b2099ca8d5c708d57b36812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 15/31] fix: give the second half of a split line consistent
 positions and flags

---
 src/flpr/Logical_Line.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a57d785..415c305 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -12,6 +12,7 @@
   \file Logical_Line.cc
 */
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <stdexcept>
@@ -516,9 +517,10 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   if (frag == fragments_.end())
     return false;
   int const split_line = frag->mt_end_line_;
-  assert(split_line < static_cast<int>(fragments_.size()));
+  assert(split_line < static_cast<int>(layout_.size()));
 
-  auto const num_left_sp = layout_[0].main_first_col() - 1;
+  /* there may be no text on the first line */
+  auto const num_left_sp = std::max(layout_[0].main_first_col() - 1, 0);
 
   /* collect the range of tokens that follow frag on the same layout_ line */
   auto lr_beg = std::next(frag);
@@ -532,6 +534,10 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     lr_beg = std::next(lr_beg);
   }
 
+  /* there has to be something to put on the new line */
+  if (lr_beg == fragments_.end())
+    return false;
+
   FL_VEC::iterator export_beg;
 
   /* if the range isn't empty, insert a new layout_ line, move the remainder
@@ -566,16 +572,24 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       export_beg->right_txt = '&';
       size_t const new_rs =
           export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
-      if (export_beg->right_space.size() != new_rs) {
+      /* no space before the ampersand can mean that a token is continued */
+      if (!export_beg->right_space.empty() &&
+          export_beg->right_space.size() != new_rs) {
         export_beg->right_space.assign(new_rs, ' ');
       }
     } else {
-      export_beg->right_space.clear();
+      /* trailing spaces separate tokens if a fixed-format line is continued */
+      export_beg->right_space.resize(
+          (export_beg->is_fixed_format() && !export_beg->right_space.empty())
+              ? 1
+              : 0);
       export_beg->right_txt.clear();
     }
 
     /* clean new: remove left_txt */
     export_beg->left_txt.clear();
+    export_beg->unset_classification(File_Line::class_flags::label);
+    export_beg->unset_classification(File_Line::class_flags::continuation);
     /* clean new: indent column */
     export_beg->set_leading_spaces(num_left_sp);
 
@@ -611,6 +625,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     }
     if (non_trivial != layout_.end()) {
       non_trivial->left_txt.clear();
+      non_trivial->unset_classification(File_Line::class_flags::continuation);
       non_trivial->set_leading_spaces(num_left_sp);
     }
   }
@@ -619,6 +634,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     return false;
 
   new_ll.clear();
+  new_ll.file_info = file_info;
 
   /* Export all of the remainder lines out to new_ll */
   new_ll.layout_.insert(new_ll.layout_.end(),
@@ -632,7 +648,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
                            std::make_move_iterator(fragments_.end()));
 
   /* update the main_txt line numbers for the new fragments  */
-  int const move_up = new_ll.fragments_.front().mt_begin_line_;
+  int const move_up = split_line + 1;
   for (auto &tt : new_ll.fragments_) {
     tt.mt_begin_line_ -= move_up;
     tt.mt_end_line_ -= move_up;
-- 
2.43.0


From 13fef863d5769f0716f49c28c8b8d2a979ffe2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 16/31] fix: keep the comment of a line that loses its text

---
 src/flpr/File_Line.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index ec7e364..ff65409 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -444,13 +444,13 @@ void File_Line::make_comment_or_blank() {
     right_txt[0] = ' ';
   }
   auto comment_start = right_txt.find('!');
-  if (comment_start != std::string::npos && comment_start > 0) {
+  if (comment_start != std::string::npos) {
     /* transfer any leading blanks from right_txt to right_space */
     right_space.append(comment_start, ' ');
     right_txt.erase(0, comment_start);
     /* set each of the earlier text fields to be blank of the same length */
     left_txt.assign(left_txt.size(), ' ');
-    right_txt.assign(right_txt.size(), ' ');
+    main_txt.assign(main_txt.size(), ' ');
     bool const is_fixed_format = classification_[ff];
     classification_.reset();
     classification_[ff] = is_fixed_format;
-- 
2.43.0


From 87b5f48d7e338907839f3150245ebd6e8f6a067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 17/31] fix: replace the text of a continued statement by fewer
 lines

---
 src/flpr/Logical_Line.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 415c305..6c771fb 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -401,11 +401,13 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   assert(num_orig_fortran_lines == layout_.size());
 
   if (layout_.size() < new_text.size()) {
-    int const indent = layout_[ref_line].main_first_col() - 1;
+    int const indent = std::max(layout_[ref_line].main_first_col() - 1, 0);
     File_Line ref_fl = layout_[ref_line];
-    ref_fl.make_continued();
     ref_fl.left_txt.clear();
     ref_fl.right_txt.clear();
+    ref_fl.unset_classification(File_Line::class_flags::label);
+    ref_fl.unset_classification(File_Line::class_flags::continuation);
+    ref_fl.make_continued();
     ref_fl.set_leading_spaces(indent);
     layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
   }
@@ -413,9 +415,9 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   /* copy the new text into place */
   size_t fl_idx{0};
   for (std::string const &s : new_text) {
-    layout_[fl_idx++].main_txt = s;
+    layout_[fl_idx].main_txt = s;
+    layout_[fl_idx++].open_delim = '\0';
   }
-  assert(ref_line < fl_idx);
 
   /* fix continuations */
   if (ref_line < fl_idx - 1) {
-- 
2.43.0


From 256346dd250197f2b8cf98355bc682b8abe72acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 18/31] fix: replace text of a statement that spans lines

---
 src/flpr/Logical_Line.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6c771fb..ca89019 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -460,8 +460,12 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
       layout_[stln].make_comment_or_blank();
   }
 
+  if (multiline)
+    layout_[hold_stln].open_delim = '\0';
+
   int count_fortran{0};
-  for (int i = hold_stln; i <= eln; ++i)
+  int const num_lines{static_cast<int>(layout_.size())};
+  for (int i = hold_stln; i < num_lines; ++i)
     if (layout_[i].is_fortran())
       count_fortran += 1;
   if (count_fortran == 1)
@@ -477,7 +481,9 @@ void Logical_Line::replace_stmt_substr(TT_Range const &orig,
   int const el = orig.back().mt_end_line_;
   int const ec = orig.back().mt_end_col_;
   erase_stmt_text_(sl, sc, el, ec);
-  layout_[sl].main_txt.insert(sc, new_text);
+  std::string &main_txt = layout_[sl].main_txt;
+  /* trailing blanks may be gone */
+  main_txt.insert(std::min<size_t>(sc, main_txt.size()), new_text);
   init_from_layout();
 }
 
-- 
2.43.0


From 7a872a3aeae42e64ad4314b7b18c8e3e1b95b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 19/31] fix: find the statement text to edit behind empty
 statements

---
 src/flpr/Logical_File.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index acd6003..9455570 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -463,8 +463,8 @@ void Logical_File::replace_stmt_substr(LL_STMT_SEQ::iterator stmt,
   isolate_stmt(stmt);
 
   /* find the updated TT_Range using the offsets */
-  auto new_beg_it = std::next(stmt->ll().fragments().begin(), beg_off);
-  auto new_end_it = std::next(stmt->ll().fragments().begin(), end_off);
+  auto new_beg_it = std::next(stmt->begin(), beg_off);
+  auto new_end_it = std::next(stmt->begin(), end_off);
 
   stmt->ll().replace_stmt_substr(TT_Range{new_beg_it, new_end_it}, new_text);
   assert(stmt->ll().has_stmts());
@@ -479,7 +479,7 @@ void Logical_File::insert_text_after(LL_STMT_SEQ::iterator stmt,
                                      std::string const &new_text) {
   auto const frag_off = std::distance(stmt->begin(), frag);
   isolate_stmt(stmt);
-  auto new_frag_it = std::next(stmt->ll().fragments().begin(), frag_off);
+  auto new_frag_it = std::next(stmt->begin(), frag_off);
   stmt->ll().insert_text_after(new_frag_it, new_text);
   stmt->assign_range(stmt->ll().stmts()[0]);
   stmt->drop_stmt_tree();
-- 
2.43.0


From be7dcca8a56f4ed6f449203546157175281c7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 20/31] fix: label the first line with text, and clear a label

---
 src/flpr/File_Line.cc    | 12 ++++++++++--
 src/flpr/Logical_Line.cc | 20 ++++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index ff65409..ee9cef2 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -618,8 +618,16 @@ bool File_Line::set_label(int new_label) {
 
   auto &bits = classification_;
 
-  if (new_label == 0 && !has_label())
-    return false;
+  if (new_label == 0) {
+    if (!has_label())
+      return false;
+    /* blank out the old one (fixed-format supplies the control columns) */
+    if (!is_fixed_format())
+      left_space.append(left_txt.size(), ' ');
+    left_txt.clear();
+    UNSET_CLASS(label);
+    return true;
+  }
   if (is_fixed_format()) {
     if (left_txt.empty()) {
       left_txt = std::to_string(new_label);
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index ca89019..0ecd5bd 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -150,12 +150,15 @@ void Logical_Line::init_from_layout() noexcept {
     }
   }
 
-  if (layout_.front().has_label()) {
-    assert(!layout_.front().left_txt.empty());
+  auto const first = std::find_if(
+      layout_.begin(), layout_.end(),
+      [](File_Line const &fl) { return !fl.is_trivial(); });
+  if (first != layout_.end() && first->has_label()) {
+    assert(!first->left_txt.empty());
     std::size_t pos;
-    label = std::stoi(layout_.front().left_txt, &pos);
-    if (pos < layout_.front().left_txt.size()) {
-      std::cerr << "Label \"" << layout_.front().left_txt
+    label = std::stoi(first->left_txt, &pos);
+    if (pos < first->left_txt.size()) {
+      std::cerr << "Label \"" << first->left_txt
                 << "\" not fully converted to integer" << std::endl;
     }
   } else
@@ -779,7 +782,12 @@ bool Logical_Line::set_leading_spaces(int const spaces, int continued_offset) {
 bool Logical_Line::set_label(int new_label) {
   if (new_label == label)
     return false;
-  layout_[0].set_label(new_label);
+  /* the label goes on the first line with Fortran text */
+  auto fl = layout_.begin();
+  while (fl != layout_.end() && fl->is_trivial())
+    ++fl;
+  assert(fl != layout_.end());
+  fl->set_label(new_label);
   label = new_label;
   return true;
 }
-- 
2.43.0


From b190937fbd8fb9a9ec9cb17a984a935897c2ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 21/31] fix: keep token positions and spacing when replacing
 and removing fragments

---
 src/flpr/Logical_Line.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 0ecd5bd..8a30137 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -339,6 +339,7 @@ void Logical_Line::replace_fragment(typename TT_SEQ::iterator frag,
   int const layout_line = frag->mt_begin_line_;
   std::string &main_txt = layout_[layout_line].main_txt;
   main_txt.replace(frag->mt_begin_col_, old_text_len, new_text);
+  frag->mt_end_col_ += len_change;
 
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = std::next(frag);
@@ -363,6 +364,13 @@ void Logical_Line::remove_fragment(typename TT_SEQ::iterator frag) {
 
   int const len_change = -(int)(old_text_len);
 
+  // The spaces on both sides now separate the neighbors
+  int const spaces = frag->pre_spaces_ + frag->post_spaces_;
+  if (frag != fragments_.begin())
+    std::prev(frag)->post_spaces_ = spaces;
+  if (std::next(frag) != fragments_.end())
+    std::next(frag)->pre_spaces_ = spaces;
+
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = fragments_.erase(frag);
        frag != fragments_.end() && frag->mt_begin_line_ == layout_line;
-- 
2.43.0


From 6fdc6a0100fdb65151e2288f3722c02814382d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 22/31] fix: reindent without moving or corrupting what follows
 the text

---
 src/flpr/File_Line.cc | 14 ++++++++++----
 src/flpr/File_Line.hh |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index ee9cef2..bcdf138 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -465,8 +465,11 @@ size_t File_Line::size() const noexcept {
          right_space.size() + right_txt.size();
 }
 
-bool File_Line::set_leading_spaces(int const spaces) {
+bool File_Line::set_leading_spaces(int spaces) {
   if (is_comment()) {
+    /* An exclamation mark in column 6 of a fixed-format line isn't a comment */
+    if (is_fixed_format() && spaces == 5)
+      spaces = 6;
     std::string::size_type pos = left_txt.find('!');
     if (pos != std::string::npos) {
       left_space.clear();
@@ -517,7 +520,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
 
   } else if (is_fortran()) {
     int orig_spaces{-1};
-    int offset;
+    int offset{0};
     if (left_txt.empty()) {
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
@@ -570,7 +573,10 @@ bool File_Line::set_leading_spaces(int const spaces) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
-          right_space.insert(pos, -offset, ' ');
+          if (pos == 0)
+            right_space.append(-offset, ' ');
+          else /* keep a continuation where it is */
+            right_txt.insert(pos, -offset, ' ');
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
@@ -601,7 +607,7 @@ int File_Line::get_leading_spaces() const noexcept {
         pos = right_txt.find('!');
         if (pos != std::string::npos) {
           retval = left_txt.size() + left_space.size() + main_txt.size() +
-                   right_txt.size() + pos;
+                   right_space.size() + pos;
         }
       }
     }
diff --git a/src/flpr/File_Line.hh b/src/flpr/File_Line.hh
index 7e3021a..3490191 100644
--- a/src/flpr/File_Line.hh
+++ b/src/flpr/File_Line.hh
@@ -185,7 +185,7 @@ public:
   //! Set the number of spaces aligning the main_txt or comment
   /*! Note that this will make no changes if not is_fortran() or is_comment().
       This function returns true if the spacing was altered, false otherwise. */
-  bool set_leading_spaces(int const spaces);
+  bool set_leading_spaces(int spaces);
   int get_leading_spaces() const noexcept;
 
   //! Set a new label (new_label == 0 clears it)
-- 
2.43.0


From 48dfd8e2af2fcf5710f787f31081f8079390c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 23/31] fix: don't lose text, comments or token positions in
 text_from_frags

---
 src/flpr/Logical_Line.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 8a30137..d3b9bba 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -197,12 +197,14 @@ continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
   // Add (or move to) the next line in text
   do
     std::advance(curr, 1);
-  while (curr != text.end() && curr->is_comment());
+  while (curr != text.end() && curr->is_trivial());
 
   if (curr == text.end())
     curr = text.insert(text.end(), File_Line());
   else {
     curr->left_txt.clear();
+    curr->unset_classification(File_Line::class_flags::continuation);
+    curr->open_delim = '\0';
     curr->make_uncontinued();
     curr->main_txt.clear();
   }
@@ -233,11 +235,14 @@ bool Logical_Line::append_tt_if_(std::string &main_txt, size_t max_len,
 void Logical_Line::text_from_frags() noexcept {
   if (layout_.empty())
     return;
-  auto fline_it = layout_.begin();
-  if (!fline_it->is_fortran())
+  auto fline_it =
+      std::find_if(layout_.begin(), layout_.end(),
+                   [](File_Line const &fl) { return !fl.is_trivial(); });
+  if (fline_it == layout_.end() || !fline_it->is_fortran())
     return;
   fline_it->main_txt.clear();
   fline_it->make_uncontinued();
+  fline_it->open_delim = '\0';
 
   bool line_start{true};
   size_t max_llen = max_main_txt_len(*fline_it);
@@ -302,14 +307,8 @@ void Logical_Line::text_from_frags() noexcept {
   bool blanked{false};
   while (fline_it != layout_.end()) {
     if (!fline_it->is_comment()) {
-      fline_it->make_uncontinued();
-      if (fline_it->right_txt.empty()) {
-        fline_it->set_classification(File_Line::class_flags::blank);
-        blanked = true;
-      } else {
-        fline_it->main_txt.clear();
-        fline_it->set_classification(File_Line::class_flags::comment);
-      }
+      fline_it->make_comment_or_blank();
+      blanked |= fline_it->is_blank();
     }
     std::advance(fline_it, 1);
   }
@@ -318,10 +317,14 @@ void Logical_Line::text_from_frags() noexcept {
         std::remove_if(layout_.begin(), layout_.end(),
                        [](File_Line const &fl) { return fl.is_blank(); });
     layout_.erase(newend, layout_.end());
-    if (layout_.empty())
-      suppress = true;
   }
-  init_stmts();
+  if (layout_.empty()) {
+    suppress = true;
+    init_stmts();
+  } else {
+    /* the tokens have new positions */
+    init_from_layout();
+  }
 }
 
 /* ------------------------------------------------------------------------ */
-- 
2.43.0


From 43f2057b230f61496ce6e114977f6fe4718cc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:36 +0000
Subject: [PATCH 24/31] fix: read the label of a line with nothing but a label

---
 src/flpr/Logical_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index d3b9bba..9fe96bf 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -152,7 +152,7 @@ void Logical_Line::init_from_layout() noexcept {
 
   auto const first = std::find_if(
       layout_.begin(), layout_.end(),
-      [](File_Line const &fl) { return !fl.is_trivial(); });
+      [](File_Line const &fl) { return fl.has_label() || !fl.is_trivial(); });
   if (first != layout_.end() && first->has_label()) {
     assert(!first->left_txt.empty());
     std::size_t pos;
-- 
2.43.0


From 0dadef4dcad5e6e6983494aeb51fd82e488324db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:54 +0000
Subject: [PATCH 25/31] fix: read a label from the first line of a layout as
 before

---
 src/flpr/Logical_Line.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 9fe96bf..65351d2 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -150,9 +150,11 @@ void Logical_Line::init_from_layout() noexcept {
     }
   }
 
-  auto const first = std::find_if(
-      layout_.begin(), layout_.end(),
-      [](File_Line const &fl) { return fl.has_label() || !fl.is_trivial(); });
+  auto first = layout_.begin();
+  if (!first->has_label())
+    first = std::find_if(
+        layout_.begin(), layout_.end(),
+        [](File_Line const &fl) { return !fl.is_trivial(); });
   if (first != layout_.end() && first->has_label()) {
     assert(!first->left_txt.empty());
     std::size_t pos;
-- 
2.43.0


From 0d77cc6a85ac59ddb96eb6afc75ff775a331a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 26/31] fix: report a failed parse instead of using the missing
 tree, and return success from read_file

---
 src/flpr/Parsed_File.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 960a0ba..6d1509d 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -165,7 +165,7 @@ bool Parsed_File<PG_NODE_DATA>::read_file(std::string const &filename,
   if (logical_file_.read_and_scan(filename, last_fixed_col, file_type)) {
     bad_state_ = false;
   }
-  return bad_state_;
+  return !bad_state_;
 }
 
 template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
@@ -181,6 +181,8 @@ template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
     if (!result.match) {
       std::cerr << "\tparsing FAILED" << std::endl;
       bad_state_ = true;
+      parse_tree_ = Parse_Tree{};
+      return;
     }
     parse_tree_.swap(result.parse_tree);
     link_stmts_recurse_(*parse_tree_);
-- 
2.43.0


From 9107ab57686a39981b415b0d7cda019260c5cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 27/31] fix: don't drop statements when a construct can't be
 completed or the file ends early

---
 src/flpr/Prgm_Parsers_impl.hh  |  1 +
 src/flpr/Prgm_Parsers_utils.hh | 44 +++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index cedfa32..87ff29a 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -162,6 +162,7 @@ PPARSER(executable_construct) {
          where_construct,
          forall_construct
          );
+  if(!state.ss) return PP_Result{};
   /* If the current statement has a label that matches a label-do-stmt label
      that we are looking for, we force a non-match so that the end-do-stmt rule
      can look at it */
diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 01c48a2..b3abb64 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -67,6 +67,17 @@ static void hoist_back(Prgm_Tree &t, Prgm_Tree &&donor) {
   }
 }
 
+//! Report the statement that a construct can't be continued with
+static void report_unrecognized(State const &state, int const syntag) {
+  std::cerr << "Unrecognized statement\n";
+  if (state.ss)
+    state.ss->print_me(std::cerr, false);
+  else
+    std::cerr << "<end of file>";
+  std::cerr << "\nwhile parsing ";
+  FLPR::Syntax_Tags::print(std::cerr, syntag) << std::endl;
+}
+
 //! Update a node's stmt_range to cover its branches. Non-recursive.
 static void cover_branches(typename Prgm_Tree::reference node) {
   node->stmt_range().clear();
@@ -254,6 +265,7 @@ public:
   constexpr explicit Sequence_Parser(int const syntag, Ps &&... ps) noexcept
       : syntag_{syntag}, parsers_{std::forward<Ps>(ps)...} {}
   PP_Result operator()(State &state) const noexcept {
+    State const start{state};
     Prgm_Tree root(syntag_);
     auto attach_if = [&state, &root ](auto const &p) constexpr {
       auto [pt, match] = p(state);
@@ -267,9 +279,8 @@ public:
     };
     bool const match = std::apply(fold, parsers_);
     if (!match) {
-      std::cerr << "Unrecognized statement\n";
-      state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-      FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+      report_unrecognized(state, syntag_);
+      state = start; // give back what has been consumed
       return PP_Result{};
     }
     if (root)
@@ -304,6 +315,7 @@ public:
       : syntag_{syntag}, parser0_{p0}, rest_{std::forward<Ps>(ps)...} {}
 
   PP_Result operator()(State &state) const noexcept {
+    State const start{state};
     Prgm_Tree root(syntag_);
 
     /* define a functor to attach the parse tree if a parser matches */
@@ -323,9 +335,8 @@ public:
     if (attach_if(parser0_)) {
       bool const match = std::apply(fold, rest_);
       if (!match) {
-        std::cerr << "Unrecognized statement\n";
-        state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-        FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+        report_unrecognized(state, syntag_);
+        state = start; // give back what has been consumed
         return PP_Result{};
       }
       if (root)
@@ -393,6 +404,8 @@ public:
   Statement_Parser(Statement_Parser const &) = default;
   constexpr explicit Statement_Parser(parser_function f) noexcept : f_{f} {}
   PP_Result operator()(State &state) const noexcept {
+    if (!state.ss)
+      return PP_Result{}; // no more statements
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::Stmt::Stmt_Tree st = f_(tts);
     if (!st)
@@ -496,6 +509,10 @@ public:
   constexpr Legacy_Do_Construct_Parser() = default;
   PP_Result operator()(State &state) const noexcept {
 
+    if (!state.ss)
+      return PP_Result{};
+    State const start{state};
+
     /****************************** DO-STMT ***********************************/
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
@@ -543,6 +560,15 @@ public:
 
     /*********************** TERMINATING STATEMENT ****************************/
 
+    /* if the construct isn't complete, give back what has been consumed */
+    auto const no_match = [&state, &start]() {
+      state = start;
+      return PP_Result{};
+    };
+
+    if (!state.ss)
+      return no_match();
+
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
@@ -552,7 +578,7 @@ public:
     if (!state.ss->has_label()) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
-        return PP_Result{}; // wasn't end-do-stmt, so match fails
+        return no_match(); // wasn't end-do-stmt, so match fails
       end_stmt_sg_tag = (*end_stmt_tree)->syntag;
       end_stmt_pg_tag = TAG(HOIST);
       do_construct_tag = TAG(PG_DO_CONSTRUCT);
@@ -583,7 +609,7 @@ public:
            an outer-shared-do-construct form of a nonblock-do-construct. */
         FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::action_stmt(tts)};
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
 
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_pg_tag = TAG(PG_DO_TERM_SHARED_STMT);
@@ -616,7 +642,7 @@ public:
           end_stmt_pg_tag = TAG(HOIST);
         }
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
         state.ss.advance();
-- 
2.43.0


From 10d4b2e3aad5b16ee8b1b82bd67bebc1ad83ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 28/31] fix: end an unlabelled do on end do even if that has a
 label

---
 src/flpr/Prgm_Parsers_utils.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index b3abb64..7f3bb1d 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -566,7 +566,8 @@ public:
       return PP_Result{};
     };
 
-    if (!state.ss)
+    /* a label-do-stmt has to end on a statement with its label */
+    if (!state.ss || (label > 0 && state.ss->label() != label))
       return no_match();
 
     FLPR::TT_Stream tts(*(state.ss));
@@ -574,8 +575,9 @@ public:
     int end_stmt_pg_tag{TAG(UNKNOWN)};
     int end_stmt_sg_tag{TAG(UNKNOWN)};
 
-    /* Without a label, the only end-do this can be is a end-do-statment */
-    if (!state.ss->has_label()) {
+    /* Without a label, the only end-do this can be is a end-do-statment (which
+       can have a label of its own) */
+    if (!(label > 0)) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
         return no_match(); // wasn't end-do-stmt, so match fails
@@ -598,7 +600,6 @@ public:
          label the layers of label-do-stmts, which is provided by Label_Stack
       */
 
-      int const label{state.ss->label()};
       int const level{state.do_label_stack.level(label)};
 
       assert(level > -1);
-- 
2.43.0


From 6543b985f87b002c87d90d672a110a29f85df4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:58 +0000
Subject: [PATCH 29/31] fix: don't take format and rank statements for
 unexpanded macros

In an execution part, 'format (...)' became an action-stmt, and every
rank (...) but the first of a select rank construct was swallowed by the
block before it.
---
 src/flpr/parse_stmt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 7fe6153..ee93ebc 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2449,6 +2449,8 @@ Stmt_Tree macro_stmt(TT_Stream &ts) {
         neg(peek(TAG(KW_WHERE))),
         neg(peek(TAG(KW_FORALL))),
         neg(peek(TAG(KW_CASE))),
+        neg(peek(TAG(KW_FORMAT))),
+        neg(peek(TAG(KW_RANK))),
         name(),
         rule(consume_parens),
         eol());
-- 
2.43.0


From 98fe0f8a9173f93489acdc0cb4a875be6ea6df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 30/31] fix: find a renamed main program's name in the added
 statement

---
 src/flpr/Procedure.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 3e3c0a6..92fda92 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -342,7 +342,8 @@ template <typename PFile_T> std::string Procedure<PFile_T>::name() const {
   if (headless_main_program())
     return std::string();
 
-  Stmt_Const_Cursor s = range_cursor(PROC_BEGIN)->stmt_tree().ccursor();
+  /* ask the statement itself: one that rename() added is not in the Prgm_Tree */
+  Stmt_Const_Cursor s = cbegin(PROC_BEGIN)->stmt_tree().ccursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
@@ -368,7 +369,7 @@ bool Procedure<PFile_T>::rename(std::string const &new_name) {
   }
 
   /* fix the subprogram statement */
-  Stmt_Cursor s = range_cursor_(PROC_BEGIN)->stmt_tree().cursor();
+  Stmt_Cursor s = begin(PROC_BEGIN)->stmt_tree().cursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
-- 
2.43.0


From 68aed255cdd27d34ded139e61489a614b7ba0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 31/31] fix: replace text given in rows around embedded
 comments and in fixed form

---
 src/flpr/Logical_Line.cc | 48 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 65351d2..f23a272 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -406,44 +406,50 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   assert(layout_[ref_line].is_fortran());
   assert(!layout_[ref_line].is_continued());
 
-  size_t num_orig_fortran_lines{0};
-  for (auto const &fl : layout_) {
-    if (fl.is_fortran())
-      num_orig_fortran_lines += 1;
+  /* the text goes on the Fortran lines, leaving embedded comments alone */
+  std::vector<size_t> rows;
+  for (size_t i = 0; i < old_size; ++i) {
+    if (layout_[i].is_fortran())
+      rows.push_back(i);
   }
 
-  /* Currently, this routine will destroy embedded comment lines.  Prevent this
-     from happening until it is fixed. */
-  assert(num_orig_fortran_lines == layout_.size());
-
-  if (layout_.size() < new_text.size()) {
+  if (rows.size() < new_text.size()) {
     int const indent = std::max(layout_[ref_line].main_first_col() - 1, 0);
     File_Line ref_fl = layout_[ref_line];
     ref_fl.left_txt.clear();
     ref_fl.right_txt.clear();
     ref_fl.unset_classification(File_Line::class_flags::label);
-    ref_fl.unset_classification(File_Line::class_flags::continuation);
-    ref_fl.make_continued();
-    ref_fl.set_leading_spaces(indent);
-    layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
+    if (ref_fl.is_fixed_format()) {
+      /* what continues a line is the mark on the next one */
+      ref_fl.left_txt = "     &";
+      ref_fl.right_space.clear();
+      ref_fl.set_classification(File_Line::class_flags::continuation);
+    } else {
+      ref_fl.unset_classification(File_Line::class_flags::continuation);
+      ref_fl.make_continued();
+      ref_fl.set_leading_spaces(indent);
+    }
+    size_t const num_new = new_text.size() - rows.size();
+    layout_.insert(std::next(layout_.begin(), ref_line + 1), num_new, ref_fl);
+    for (size_t i = 1; i <= num_new; ++i)
+      rows.push_back(ref_line + i);
+    if (!ref_fl.is_fixed_format())
+      layout_[ref_line].make_continued();
   }
 
   /* copy the new text into place */
   size_t fl_idx{0};
   for (std::string const &s : new_text) {
-    layout_[fl_idx].main_txt = s;
-    layout_[fl_idx++].open_delim = '\0';
+    layout_[rows[fl_idx]].main_txt = s;
+    layout_[rows[fl_idx++]].open_delim = '\0';
   }
 
   /* fix continuations */
-  if (ref_line < fl_idx - 1) {
-    layout_[ref_line].make_continued();
-  }
-  layout_[fl_idx - 1].make_uncontinued();
+  layout_[rows[fl_idx - 1]].make_uncontinued();
 
   /* clear any excess original lines, preserving comments */
-  for (size_t i = fl_idx; i < layout_.size(); ++i) {
-    layout_[i].make_comment_or_blank();
+  for (size_t i = fl_idx; i < rows.size(); ++i) {
+    layout_[rows[i]].make_comment_or_blank();
   }
   init_from_layout();
 }
-- 
2.43.0

