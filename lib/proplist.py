"""The properties: text for properties.jsonl and MANIFEST.json."""
NOT_APPLICABLE = []
S = "src/flpr/"
MBT = "TLA+ model checked with TLC; TLC-enumerated behaviours replayed into the code and recorded runs trace-validated"
NOTE = ("Exhaustive for the model within the constants listed in the evidence file; the code is compared with the model on every "
        "enumerated behaviour (or a seeded sample of them, where capped) and on random recorded runs. ")
PROPS = [
dict(id="C01", title="Free-form source is read and written back unchanged",
  statement="Reading any acceptable free-form source text and writing it back yields exactly the original lines, in order, with none lost, repeated or altered. Each line is split into label/continuation text, leading blanks, statement text, trailing blanks and trailing comment/continuation text whose concatenation is the line, and is classified correctly (blank, comment, preprocessor, include, FLPR directive, FLPR literal, label, continuation, continued). Text in which a character constant is left open at the end of a line without a continuation is refused.",
  over=["inputs"], qtext="every sequence of text lines read as free-form source",
  why="The tests classify a few dozen hand-written single lines; the guarantee is about every line in every reader state (open character context, continued statement, literal block, continued macro).",
  files=[S+"File_Line.cc", S+"File_Line.hh", S+"Logical_File.cc", S+"Logical_Line.cc"],
  mech=[("line splitting", "File_Line::analyze_free"), ("reader state across lines", "Logical_File::scan_free"), ("writing", "operator<<(ostream, File_Line), Logical_Line::print")],
  observe=["Logical_File::read_and_scan", "Logical_File::lines", "Logical_Line::print"], technique=MBT, note=NOTE),
dict(id="C02", title="Fixed-form source is read and written back unchanged",
  statement="Reading a fixed-form source text and writing it back yields the original lines, in order, except that tabs in the control columns become blanks, statement text that intrudes on columns 1-6 moves to column 7, and text past the given last column is kept but marked as a comment. Columns 1-5 are the label, column 6 the continuation mark (blank or 0 meaning none), the statement lies between column 7 and the last column, and comment, blank, preprocessor and include lines are recognised as such.",
  over=["inputs", "configurations"], qtext="every sequence of text lines read as fixed-form source, for every last column",
  why="The tests contain a handful of fixed-form lines and one last-column value; column arithmetic, tabs and sequence-number fields interact in ways only exhaustive small texts reach.",
  files=[S+"File_Line.cc", S+"Logical_File.cc"],
  mech=[("line splitting", "File_Line::analyze_fixed"), ("last column", "find_trailing_fixed"), ("reader state across lines", "Logical_File::scan_fixed")],
  observe=["Logical_File::read_and_scan", "Logical_File::lines"], technique=MBT, note=NOTE),
dict(id="C03", title="Quotes decide what is text and what is comment, also across lines",
  statement="A '!', '&' or ';' inside a character constant is never taken for a comment, continuation or separator, and one outside never for text, however the constant is broken over continuation lines and whatever comment or blank lines (which may contain quotes) are interspersed. After every line the reader knows exactly which quote, if any, is still open.",
  over=["inputs"], qtext="every sequence of text lines in either source form",
  why="Tests check one or two continued strings; the context is carried through arbitrary interleavings of continuation, comment, blank and preprocessor lines.",
  files=[S+"File_Line.cc", S+"Logical_File.cc", S+"Logical_Line.cc"],
  mech=[("context scan", "find_trailing_free / find_trailing_fixed"), ("carried context", "Logical_File::scan_free, scan_fixed; Logical_Line constructors")],
  observe=["File_Line::open_delim", "File_Line::main_txt"], technique=MBT, note=NOTE),
dict(id="C04", title="Physical lines are grouped into logical lines without loss",
  statement="The logical lines of a file tile its physical lines in order: a statement with all of its continuation lines and the comments and blank lines between them is one logical line; consecutive comment/blank lines form one; a continued macro forms one; a literal block forms one; every other line is alone. Each logical line carries the category of its lines.",
  over=["inputs"], qtext="every well-formed sequence of text lines in either source form",
  why="Grouping depends on lookahead over arbitrary runs of comment, blank and continuation lines; tests use a few fixed files.",
  files=[S+"Logical_File.cc", S+"Logical_Line.cc"],
  mech=[("grouping", "Logical_File::scan_free, Logical_File::scan_fixed"), ("category", "Logical_Line::cat")],
  observe=["Logical_File::lines", "Logical_Line::layout"], technique=MBT, note=NOTE),
dict(id="C05", title="Every token knows exactly where its text is in the source",
  statement="For every token of a logical line the reported line and column, and the begin and end positions in the line layout, are those of the token's text in the source, also for tokens that cross a continuation, follow embedded comments or come from fused keywords. The recorded spaces before and after a token equal the blanks in the source between it and its neighbours on the same line.",
  over=["inputs"], qtext="every token of every well-formed source text in either form",
  why="Tests check positions for a few tokens of single-line statements.",
  files=[S+"Logical_Line.cc", S+"Line_Accum.cc", S+"Token_Text.hh", S+"scan_fort.l"],
  mech=[("text accumulation", "Line_Accum"), ("tokenizing", "Logical_Line::tokenize / init_from_layout")],
  observe=["Token_Text::start_line, start_pos, mt_*, pre_spaces, post_spaces"], technique=MBT, note=NOTE),
dict(id="C06", title="Tokens depend only on the statement text, by longest match",
  statement="The tokens of a statement are those of Fortran's lexical rules by longest match: every nonblank character of the text belongs to exactly one token, keywords are recognised regardless of case and only as whole words, fused keywords (ENDIF, GOTO, ...) become two tokens, and numeric, logical and character constants and operators are delimited correctly. They do not depend on where the statement is broken into lines, on interspersed comments, on neighbouring lines, or on anything read earlier.",
  over=["inputs", "histories"], qtext="every statement text, every layout of it, and every sequence of texts read before",
  why="The lexer has modal state and hundreds of interacting rules; tests scan isolated statements in fresh order.",
  files=[S+"scan_fort.l", S+"Smash_Hash.hh", S+"Logical_Line.cc", S+"Syntax_Tags.cc"],
  mech=[("scanner", "scan_fort.l"), ("fused keywords", "Logical_Line::unsmash")],
  observe=["Logical_Line::fragments"], technique=MBT, note=NOTE),
dict(id="C07", title="Statements partition the tokens at semicolons and keep their labels",
  statement="The statements of a file are, in source order, the nonempty token runs between semicolons that are outside character constants; together with the semicolons they cover all tokens. The label belongs to the first statement of its line only, compound statements are numbered by position, and the statement-free lines (comments, directives) before a statement are attached to it as its prefix, each exactly once.",
  over=["inputs"], qtext="every well-formed source text in either form",
  why="Empty statements, labels, continuation and directives combine freely; tests have a few compound lines.",
  files=[S+"Logical_Line.cc", S+"Logical_File.cc", S+"LL_Stmt.cc", S+"LL_Stmt.hh"],
  mech=[("splitting", "Logical_Line::init_stmts_"), ("statement list", "Logical_File::make_stmts")],
  observe=["Logical_Line::stmts", "Logical_File::ll_stmts"], technique=MBT, note=NOTE),
dict(id="C08", title="An edit changes what it names and nothing else",
  statement="After any sequence of edits through the library - splitting or isolating compound statements, inserting a statement before another, replacing a statement's text or some of its tokens, inserting or appending text, setting or clearing a label, reindenting, appending a comment, removing empty statements - the file holds exactly the statements, labels, comments and directives it held before, in order, changed only where the edits say. The statements, tokens and token positions in memory are those one gets by writing the file out and reading it again.",
  over=["inputs", "histories"], qtext="every well-formed source text in either form and every sequence of edits of its statements (in fixed form, with texts that fit the line)",
  why="Tests make one edit of one line; edits interact through shared lines, continuation marks, embedded comments and token positions left behind by earlier edits.",
  files=[S+"Logical_File.cc", S+"Logical_Line.cc", S+"File_Line.cc", S+"LL_Stmt.cc"],
  mech=[("splitting", "Logical_File::split_compound_before, Logical_Line::split_after"), ("text edits", "Logical_Line::replace_main_text, replace_stmt_substr, erase_stmt_text_, text_from_frags"), ("layout", "File_Line::set_label, set_leading_spaces, make_uncontinued, make_comment_or_blank")],
  observe=["Logical_File::ll_stmts", "Logical_File::lines", "Token_Text::mt_*"], technique=MBT, note=NOTE),
dict(id="C09", title="Stored list positions, end() included, survive edits of the list",
  statement="A Safe_List behaves as an ordinary sequence under construction, copying, moving, insertion, removal and conditional removal. An iterator stored elsewhere, end() included, keeps referring to its element (or the end of its list) through every operation that does not remove that element, including clear() for end(), and follows the elements when the list is moved. Ranges over a list hold exactly the elements between their ends, are extended by adjacent ranges without loss or repetition, compare equal exactly when they cover the same elements, and denote the same positions after being rebased onto a copy.",
  over=["histories"], qtext="every sequence of list and range operations, with iterators stored at any point",
  why="Tests call each operation once on a fresh list; iterator validity is a property of operation sequences.",
  files=[S+"Safe_List.hh"],
  mech=[("hidden end element", "Safe_List::my_end_, append_sentry_"), ("ranges", "SL_Range::push_front/push_back/equal, rebase, SL_Const_Range, SL_Range_Iterator")],
  observe=["Safe_List::begin/end/size/front/back", "SL_Range::begin/end/size"], technique=MBT, note=NOTE),
dict(id="C10", title="Trees stay consistent through any sequence of grafts, swaps and moves",
  statement="A Tree holds exactly the nodes put into it, in order: adding, grafting, moving, swapping, erasing and pruning change only the part they name and neither lose nor duplicate nodes or values. After every operation each node's links up, down and sideways agree with the structure, size and branch counts are right, and a saved cursor stays on its node for as long as that node exists.",
  over=["histories"], qtext="every sequence of tree operations on several trees, with cursors saved at any point",
  why="Tests build a few fixed trees; stale up-links only show after particular combinations of swap, graft and traversal.",
  files=[S+"Tree.hh"],
  mech=[("links", "Tree_Node::link, fix_branches, swap"), ("grafting", "Tree::graft"), ("navigation", "TN_Cursor, TN_Const_Cursor")],
  observe=["TN_Cursor", "Tree_Node::branches, trunk, size"], technique=MBT, note=NOTE),
dict(id="C11", title="The stack of DO labels tells which shared-label construct ends",
  statement="The label stack reports whether a label is that of the innermost open labelled DO, and its level: 0 when a single open construct ends on the label, otherwise the position of the innermost construct within the run of constructs sharing the label, counted from the outermost. The numbering of a run does not change while its constructs are closed one by one. Asking for a label that is not innermost changes nothing.",
  over=["histories"], qtext="every sequence of pushes, pops and level queries",
  why="Tests run one nest; levels are decided lazily and so depend on the order of queries and pushes.",
  files=[S+"Label_Stack.hh"],
  mech=[("levels", "Label_Stack::level"), ("use", "Prgm_Parsers_utils.hh, Prgm_Parsers_impl.hh (labelled DO)")],
  observe=["Label_Stack::is_top, level, size, empty"], technique=MBT, note=NOTE),
dict(id="C12", title="The program tree is the structure the statements stand for",
  statement="Parsing a file's statements succeeds exactly if they form a sequence of program units in the grammar FLPR supports (main programs with or without a program statement, external, module, internal and separate module procedures, modules, interface bodies, derived types, enums, and the block, associate, if, select, where, forall and do constructs, labelled and shared-label DO included; one-line name(...) statements count as unexpanded macros). The tree then has one node per construct and part, properly nested; every statement is a leaf of the construct it belongs to, in file order, with the right statement tag; every node's statement range is exactly the statements below it; and every statement leads back to its leaf. How the statements are written - letter case, compound lines, comments, continuations, source form - does not matter. Otherwise the parse is reported as failed, with no tree, and never by a crash.",
  over=["inputs"], qtext="every sequence of statements, well formed or not, however they are laid out",
  why="Tests parse a few programs and check success; which statement ends which construct depends on arbitrary nesting, on labels shared among DO constructs, and on statements that can begin several constructs.",
  files=[S+"Prgm_Parsers_impl.hh", S+"Prgm_Parsers_utils.hh", S+"Prgm_Tree.hh", S+"Parsed_File.hh", S+"parse_stmt.cc"],
  mech=[("program grammar", "Prgm_Parsers_impl.hh"), ("do termination", "Prgm_Parsers_utils.hh: end_do handling"), ("statement links", "Prgm_Node_Data, LL_Stmt::set_hook"), ("reading a program", "Parsed_File::read_file, prefetch_parse_tree")],
  observe=["Parsed_File::parse_tree", "Prgm_Node_Data::stmt_range, ll_stmt", "Parsed_File::stmt_to_node_cursor"], technique=MBT, note=NOTE),
dict(id="C13", title="Every procedure is visited once and described by its own statements",
  statement="The procedure visitor calls the action exactly once for every main program, function, subroutine and separate module procedure of the file - external, module or internal, but not for interface bodies - in file order, each before the procedures inside it, telling whether it is internal and whether it is in a module, and returns whether any action returned true. A Procedure ingested at such a place gives the procedure's kind and name (none for a main program without a program statement), the statement labels of its statements in order, and its eight regions (its first statement, use, import, implicit, declarations, execution part, internal procedures, its end statement), which hold exactly its statements, each in the region it belongs to, also when the Procedure object was used before.",
  over=["inputs"], qtext="every source file the parser accepts, and every procedure in it",
  why="Tests visit a few small files; which statements a region holds, and which procedures are reached, depends on the nesting and on which optional parts are there.",
  files=[S+"Procedure_Visitor.hh", S+"Procedure.hh"],
  mech=[("visiting", "Procedure_Visitor::visit, visit_procedure_, visit_module_"), ("regions", "Procedure::ingest, ranges_"), ("name and labels", "Procedure::name, scan_out_labels")],
  observe=["Procedure_Visitor::visit", "Procedure::name, begin, end, has_region, is_main_program, headless_main_program, scan_out_labels"], technique=MBT, note=NOTE),
dict(id="C14", title="Edits through a Procedure land in the region named and change no more",
  statement="Statements emplaced in a region of a Procedure, with a position in it, appear there in that order; the other regions keep their statements. Renaming a procedure changes its name in its first statement and, if it is there, in its end statement (and adds a program statement to a main program that has none), and nothing else; completing the end statement adds the keyword and the name that are missing; replacing a statement's text keeps its label. After any sequence of these edits the Procedure's regions, name and labels are those one gets by writing the file, reading it and ingesting the procedure again, if the file is still a program, and all statements that were not named are unchanged and in order.",
  over=["inputs", "histories"], qtext="every free-form source file the parser accepts, every procedure in it and every sequence of edits through a Procedure",
  why="Tests make no edit through a Procedure; regions adjacent to empty ones, and statements added by earlier edits that are not in the parse tree, only show in sequences.",
  files=[S+"Procedure.hh", S+"Range_Partition.hh", S+"Parsed_File.hh", S+"Logical_File.cc"],
  mech=[("insertion", "Procedure::emplace_stmt, Range_Partition::insert, Logical_File::emplace_ll_stmt"), ("renaming", "Procedure::rename, complete_end_stmt"), ("statement text", "Logical_File::replace_stmt_text")],
  observe=["Procedure::begin/end, name, scan_out_labels", "Parsed_File::statements", "written file"], technique=MBT, note=NOTE),
dict(id="C15", title="Regions of a procedure partition its statements through insertions",
  statement="A range partition divides consecutive elements among numbered regions: every element is in exactly one region, the regions follow each other in index order and together cover all elements. Elements inserted at the beginning, middle or end of a region - empty regions included - belong to that region and change no other, and asking for a region that holds nothing yields an empty range at the right place. Clearing the partition forgets all of it.",
  over=["histories"], qtext="every sequence of fills, queries, insertions and resets",
  why="There are no tests for it; adjacent empty regions make the result depend on which regions were queried before.",
  files=[S+"Range_Partition.hh", S+"Procedure.hh"],
  mech=[("active regions", "Range_Partition::activate_, next_active_idx_"), ("insertion", "Range_Partition::insert")],
  observe=["Range_Partition::begin/end/empty"], technique=MBT, note=NOTE),
]
