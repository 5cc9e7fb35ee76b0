"""What each check explores."""
import re
import gensrc, verif
from verif import HOME, build, corpus

CHECKS = {}
def check(pid):
  def deco(f): CHECKS[pid] = f; return f
  return deco


# ------------------------------------------------------------------ reading sources
FREE_LINE = {"a", " ", "&", "!", "'", "1"}

def small_sources(run, invs, form, alphabet, starts, chunks, lines=3, lc=0, cap=None):
  return run.model("MC_Source", dict(Form=form, Lc=lc, Alphabet=alphabet, Starts=starts, MaxChunks=chunks,
                                     MaxLines=lines, Emit=True), list(invs) + ["EmitCase"], emit=True, cap=cap)

FREE_MENU = ["x = 'a&", "  &b' ! c", "y = 1 & ! d", "  z", "10 w; v", "", "  ! it's", "!#flpr literal", " !#flpr literal",
             "#if x \\", "include 'f.h'", "!#flpr q", "  & u", "'t'"]
FIXED_MENU = ["      x = 'a", "     1b' ! c", "      y = 1", "10    w; v", "", "c it's", "  ! d", "#if x \\", "      include 'f'",
              "!#flpr q", "     & u", "     0t", "                SEQ", "      s = 'ab'! e"]
def line_sequences(run, invs, form, menu, n, lc=0, cap=None):
  """all sequences of whole lines from a menu"""
  return run.model("MC_Source", dict(Form=form, Lc=lc, Alphabet=set(), Starts=set(menu), MaxChunks=n - 1, MaxLines=n,
                                     Emit=True), list(invs) + ["EmitCase"], emit=True, cap=cap)

def random_sources(run, n, form=None):
  return [gensrc.source_case(run.rng, form) for _ in range(n)]

def with_history(run, cases, n):
  """the same texts, read by a process that has read other texts before"""
  out = []
  for _ in range(n):
    c = dict(run.rng.choice(cases)); c.pop("obs", None); c.pop("id", None)
    c["before"] = [dict(gensrc.source_case(run.rng)) for _ in range(run.rng.randrange(1, 4))]
    out.append(c)
  return out

def reading(run, aspects, name, cases):
  exe = build(["drv_file"])["drv_file"]
  run.conform(name, exe, "TraceReading", cases, {"Aspects": set(aspects)})


@check("C01")
def c01(run):
  build(["drv_file"])
  inv, asp = ["RoundTrip", "FieldShape"], ["out", "fields", "flags"]
  m = small_sources(run, inv, "free", FREE_LINE, {"", " "}, run.pick(5, 6), cap=run.pick(20000, 150000))
  m += small_sources(run, inv, "free", {"x", " ", "\t", "#", "include", "'f'", "!#flpr", " literal", "&", "10", ";"},
                     {""}, run.pick(4, 5), cap=run.pick(10000, 60000))
  m += line_sequences(run, inv, "free", FREE_MENU, run.pick(4, 5), lc=0, cap=run.pick(12000, 120000))
  reading(run, asp, "texts enumerated by the specification", m)
  reading(run, asp, "random texts", random_sources(run, run.pick(6000, 80000), "free"))
  reading(run, asp, "corpus", [c for c in corpus("sources") if c["form"] == "free"])


FIXED_STARTS = {"      ", "     1", "10    ", "", "\t"}
@check("C02")
def c02(run):
  build(["drv_file"])
  inv, asp = ["RoundTrip", "FieldShape"], ["out", "fields", "flags"]
  m = small_sources(run, inv, "fixed", {"a", " ", "!", "'", "0"}, FIXED_STARTS, run.pick(4, 5), lc=8, cap=run.pick(12000, 100000))
  m += small_sources(run, inv, "fixed", {"x", " ", "\t", "#", "include", "'f'", "c", "*", "&", "10", "!#flpr"},
                     {"", "      ", "     0"}, run.pick(3, 4), lc=0, lines=2, cap=run.pick(12000, 60000))
  m += small_sources(run, inv, "fixed", {" ", "b", "1", "\t"}, {""}, run.pick(8, 9), lines=1, lc=run.pick(6, 7), cap=run.pick(8000, 100000))
  m += line_sequences(run, inv, "fixed", FIXED_MENU, run.pick(4, 5), lc=14, cap=run.pick(12000, 120000))
  reading(run, asp, "texts enumerated by the specification", m)
  reading(run, asp, "random texts", random_sources(run, run.pick(6000, 80000), "fixed"))
  reading(run, asp, "corpus", [c for c in corpus("sources") if c["form"] == "fixed"])


@check("C03")
def c03(run):
  build(["drv_file"])
  asp = ["context"]
  m = small_sources(run, ["Context"], "free", {"'", "\"", "a", "&", "!", " "}, {"", "&"}, run.pick(5, 6), cap=run.pick(25000, 200000))
  m += small_sources(run, ["Context"], "fixed", {"'", "\"", "a", "!", " "}, {"      ", "     1", "c"}, run.pick(5, 6), lc=0, cap=run.pick(12000, 100000))
  m += small_sources(run, ["Context"], "fixed", {"'", "a", "!", " "}, {"      ", "     1", "      bb"}, run.pick(5, 6), lc=8, cap=run.pick(8000, 60000))
  m += line_sequences(run, ["Context"], "free", FREE_MENU, run.pick(4, 5), lc=0, cap=run.pick(7000, 120000))
  m += line_sequences(run, ["Context"], "fixed", FIXED_MENU, run.pick(4, 5), lc=14, cap=run.pick(7000, 120000))
  reading(run, asp, "texts enumerated by the specification", m)
  reading(run, asp, "random texts", random_sources(run, run.pick(6000, 80000)))
  reading(run, asp, "corpus", corpus("sources"))


@check("C04")
def c04(run):
  build(["drv_file"])
  asp = ["groups"]
  m = small_sources(run, ["Tiling", "TriviaInside"], "free", {"a", "&", "! c", " "}, {"", "#x\\", "!#flpr z", "include 'f'"},
                    run.pick(4, 5), lines=5, cap=run.pick(25000, 150000))
  m += small_sources(run, ["Tiling"], "fixed", {"a", "\\"}, {"      ", "     1", "c", "", "#y"},
                     run.pick(5, 6), lines=6, cap=run.pick(15000, 100000))
  m += line_sequences(run, ["Tiling"], "free", FREE_MENU, run.pick(4, 5), lc=0, cap=run.pick(7000, 120000))
  m += line_sequences(run, ["Tiling"], "fixed", FIXED_MENU, run.pick(4, 5), lc=14, cap=run.pick(7000, 120000))
  reading(run, asp, "texts enumerated by the specification", m)
  reading(run, asp, "random texts", random_sources(run, run.pick(6000, 80000)))
  reading(run, asp, "corpus", corpus("sources"))


@check("C05")
def c05(run):
  build(["drv_file"])
  asp = ["pos"]
  m = small_sources(run, ["TokenText"], "free", {"ab", "(", "&", " ", "'c'", "!"}, {"", " &", "  "}, run.pick(5, 6), lines=4, cap=run.pick(25000, 150000))
  m += small_sources(run, ["TokenText"], "fixed", {"ab", "=", " ", "'", "\t"}, {"      ", "     1", "c", "7     "}, run.pick(5, 6), lines=3, lc=9, cap=run.pick(12000, 100000))
  m += small_sources(run, ["TokenText"], "free", {"endif", "go", "to", "1.0", "e5", "_k", "&", " "}, {"", "&"}, run.pick(4, 5), lines=3, cap=run.pick(10000, 80000))
  m += line_sequences(run, ["TokenText"], "free", FREE_MENU, run.pick(4, 5), lc=0, cap=run.pick(12000, 120000))
  reading(run, asp, "texts enumerated by the specification", m)
  reading(run, asp, "random texts", random_sources(run, run.pick(6000, 80000)))
  reading(run, asp, "corpus", corpus("sources"))


@check("C06")
def c06(run):
  build(["drv_file"])
  asp = ["tokens"]
  inv = ["TokenCover", "Locality", "TriviaInside"]
  m = small_sources(run, inv, "free", {"1", ".", "e", "d", "_", "+", "a", " "}, {""}, run.pick(5, 6), lines=1, cap=run.pick(25000, 200000))
  m += small_sources(run, inv, "free", {"*", "/", "=", ">", "<", ":", "(", ".", "x"}, {""}, run.pick(4, 5), lines=1, cap=run.pick(8000, 60000))
  m += small_sources(run, inv, "free", {".and", ".", "true", "eq", "1", "_", "k", "'", "e"}, {""}, run.pick(4, 5), lines=1, cap=run.pick(8000, 60000))
  words = set(gensrc.KEYWORDS) | set(gensrc.FUSED)
  m += small_sources(run, inv, "free", words | {"x", "_", "1", "("}, {""}, run.pick(1, 2), lines=1, cap=run.pick(400, 30000))
  m += small_sources(run, inv, "free", {"end", "if", "do", "go", "to", "else", "where", "type", "x", " ", "&"}, {"", "&"}, run.pick(4, 4), lines=2, cap=run.pick(10000, 60000))
  m += line_sequences(run, inv, "free", FREE_MENU, run.pick(4, 5), lc=0, cap=run.pick(12000, 120000))
  reading(run, asp, "texts enumerated by the specification", m)
  rs = random_sources(run, run.pick(6000, 80000))
  reading(run, asp, "random texts", rs)
  reading(run, asp, "texts read after other texts", with_history(run, m + rs, run.pick(4000, 40000)))
  reading(run, asp, "corpus", corpus("sources"))


@check("C07")
def c07(run):
  build(["drv_file"])
  asp = ["stmts"]
  m = small_sources(run, ["StmtCover"], "free", {"x", ";", "&", "';'", " ", "!"}, {"", "10 "}, run.pick(5, 6), lines=4, cap=run.pick(25000, 150000))
  m += small_sources(run, ["StmtCover"], "fixed", {"x", ";", "';'", " "}, {"      ", "     1", "c", " 20   ", ""}, run.pick(4, 5), lines=4, cap=run.pick(12000, 100000))
  m += small_sources(run, ["StmtCover"], "free", {"x", ";", "10 "}, {"", "#a", "!", "20 ", "!#flpr q"}, run.pick(4, 5), lines=5, cap=run.pick(12000, 80000))
  m += line_sequences(run, ["StmtCover"], "free", FREE_MENU, run.pick(4, 5), lc=0, cap=run.pick(7000, 120000))
  m += line_sequences(run, ["StmtCover"], "fixed", FIXED_MENU, run.pick(4, 5), lc=14, cap=run.pick(7000, 120000))
  reading(run, asp, "texts enumerated by the specification", m)
  reading(run, asp, "random texts", random_sources(run, run.pick(6000, 80000)))
  reading(run, asp, "corpus", corpus("sources"))


# ------------------------------------------------------------------ containers
@check("C09")
def c09(run):
  exe = build(["drv_list", "drv_range"])
  one = dict(NLists=1, NSlots=2, Values={0, 1}, MaxLen=3)
  two = dict(NLists=2, NSlots=2, Values={0, 1}, MaxLen=2)
  inv = ["SlotOnceInv"]
  m = run.histories("MC_SafeList", one, inv, tour=run.pick(9, 9), cap=run.pick(20000, 200000))
  m += run.histories("MC_SafeList", one, inv, depth=run.pick(3, 4), cap=run.pick(15000, 150000))
  run.conform("one list", exe["drv_list"], "Trace_SafeList", m, one)
  m = run.histories("MC_SafeList", dict(two, NSlots=1, Values={0}), inv, tour=run.pick(8, 10), cap=run.pick(20000, 200000))
  run.conform("two lists", exe["drv_list"], "Trace_SafeList", m, dict(two, NSlots=1, Values={0}))
  big = dict(NLists=2, NSlots=3, Values={0, 1, 2}, MaxLen=8)
  m = run.histories("MC_SafeList", big, inv, sim=(run.pick(2000, 40000), run.pick(25, 40)))
  run.conform("long histories of two lists", exe["drv_list"], "Trace_SafeList", m, big)
  for n in (run.pick([3], [0, 1, 3, 5])):
    c = dict(N=n, NRanges=2)
    m = run.histories("MC_SlRange", c, ["InListInv"], tour=6, cap=run.pick(15000, 100000))
    for x in m: x["n"], x["nr"] = n, 2
    run.conform("ranges", exe["drv_range"], "Trace_SlRange", m, c)
  c = dict(N=6, NRanges=3)
  m = run.histories("MC_SlRange", c, ["InListInv"], sim=(run.pick(2000, 30000), 20))
  for x in m: x["n"], x["nr"] = 6, 3
  run.conform("long histories of ranges", exe["drv_range"], "Trace_SlRange", m, c)


@check("C10")
def c10(run):
  exe = build(["drv_tree"])["drv_tree"]
  inv = ["MarkOnceInv"]
  one = dict(NTrees=1, NSlots=2, Values={1}, MaxSize=run.pick(4, 5))
  m = run.histories("MC_FTree", one, inv, tour=10, cap=run.pick(12000, 100000))
  run.conform("one tree", exe, "Trace_FTree", m, one)
  two = dict(NTrees=2, NSlots=1, Values={1}, MaxSize=3)
  m = run.histories("MC_FTree", two, inv, tour=10, cap=run.pick(12000, 150000))
  run.conform("two trees", exe, "Trace_FTree", m, two)
  big = dict(NTrees=2, NSlots=2, Values={1, 2, 3}, MaxSize=7)
  m = run.histories("MC_FTree", big, inv, sim=(run.pick(2000, 30000), run.pick(20, 30)))
  run.conform("long histories of two trees", exe, "Trace_FTree", m, big)


@check("C11")
def c11(run):
  exe = build(["drv_labels"])["drv_labels"]
  c = dict(Labels={1, 2}, MaxDepth=run.pick(5, 6))
  m = run.histories("MC_LabelStack", c, ["ShapeInv"], tour=30, cap=run.pick(12000, 100000))
  m += run.histories("MC_LabelStack", c, ["ShapeInv"], depth=run.pick(6, 8), cap=run.pick(12000, 100000))
  run.conform("label stacks", exe, "Trace_LabelStack", m, c)
  c = dict(Labels={1, 2, 3}, MaxDepth=9)
  m = run.histories("MC_LabelStack", c, ["ShapeInv"], sim=(run.pick(2000, 30000), 40))
  run.conform("long histories", exe, "Trace_LabelStack", m, c)


@check("C15")
def c15(run):
  exe = build(["drv_part"])["drv_part"]
  def parts(nreg, tour, maxlen, maxins, sim=None, cap=None):
    c = dict(NReg=nreg, MaxLen=maxlen, MaxIns=maxins)
    m = run.histories("MC_RangePart", c, ["NoLossInv"], tour=tour, sim=sim, cap=cap)
    for x in m: x["nreg"] = nreg
    run.conform(f"{nreg} regions", exe, "Trace_RangePart", m, c)
  parts(3, run.pick(5, 6), 1, 2, cap=run.pick(12000, 100000))
  parts(8, None, 3, 3, sim=(run.pick(2000, 30000), run.pick(18, 30)))


# ------------------------------------------------------------------ editing
EDIT_FREE = [
  ["a = b; c = d", "e = f"],
  ["! p", "a=b;c=d;call g(h) ! t", "", "! q", "e = f"],
  ["10 a = b & ! t", "  + c; d = & ! u", "  e", "#if x", "f = g"],
  ["a = &", "", "  ! m", "  b ; c = 'x; y&", "  & z' // &", " d ! n"],
  ["  20 if (i.eq.1) goto 10 ;; endif ; ! t", "!#flpr q", "  lo&", "  &ng = 1.0"],
  [";a = b;;c = d;", "  e = f ! it's", "! last"],
  ["call foo(a, & ! one", "  ! two", "  b, & ! three", "  c); x = y"],
]
EDIT_FIXED = [
  ["      a = b; c = d", "      e = f"],
  ["c p", "      a=b;c=d;call g(h) ! t", "", "! q", "      e = f"],
  ["10    a = b ! t", "     1+ c; d =", "c m", "     2  e", "#if x", "      f = g"],
  [" 20   if (i.eq.1) goto 10 ;; endif ; ! t", "      lo", "     &ng = 'a", "     &b'"],
]
EDIT_INS = {" z ", "(q)", " + 1.0 ", " 'a;b' "}
def edit_ops(rng, n):
  """operations by number: the places are taken modulo what is there"""
  out = []
  for _ in range(n):
    o = rng.choice(["split", "rows", "iso", "ins", "insp", "rmemp", "text", "app", "label", "ind", "com", "after", "after", "repf", "remf",
                    "sub", "sub", "sub"])
    t = {"repf": ["q", "longer_name", "Z9"], "com": ["note", "it's", "a & b"], "text": ["z = 1", "call q", "stop", "x = 'a;b'"],
         "app": [" z ", "(q)", " + 1.0 "]}.get(o, [" z ", " (q) ", " + 1.0 ", " 'a;b' ", " x_y%z "])
    out.append({"o": o, "a": rng.randrange(6), "b": rng.randrange(12), "c": rng.randrange(8) if rng.random() < 0.7 else 0,
                "n": rng.choice([0, 7, 45, 12345]) if o == "label" else (rng.choice([2, 3]) if o == "rows" else rng.choice([0, 1, 3, 9])), "t": rng.choice(t)})
  return out

def edit_random(run, n):
  m = []
  for _ in range(n):
    x = dict(gensrc.source_case(run.rng)); x["lc"] = 0
    x["ops"] = edit_ops(run.rng, run.rng.choice([1, 2, 2, 3, 4, 6])); m.append(x)
  return m

@check("C08")
def c08(run):
  exe = build(["drv_edit"])["drv_edit"]
  kinds = {"split", "iso", "ins", "insp", "rmemp", "text", "app", "label", "ind", "com", "after", "repf", "remf", "sub", "rows"}
  inv = ["Ordered", "Tracked"]
  for form, srcs in (("free", EDIT_FREE), ("fixed", EDIT_FIXED)):
    c = dict(Sources=srcs, Form=form, Inserts={" z ", " 'a;b' "}, Kinds=kinds)
    m = run.model("MC_Edit", dict(c, Depth=1, Mode="all"), inv, emit=True)
    c["Inserts"] = {" z "}
    m += run.model("MC_Edit", dict(c, Depth=2, Mode="all"), inv, emit=True, cap=run.pick(6000, 80000))
    run.conform(f"{form} files, short histories", exe, "Trace_Edit", m)
    m = run.simulate("MC_Edit", c, inv, run.pick(800, 8000), run.pick(6, 10))
    run.conform(f"{form} files, long histories", exe, "Trace_Edit", m)
  run.conform("random files, random edits", exe, "Trace_Edit", edit_random(run, run.pick(5000, 60000)))


# ------------------------------------------------------------------ program structure
def kinds_of_statements():
  return re.findall(r'^  K\("(\w+)"', open(HOME + "/spec/Program.tla").read(), re.M)

EXEC = set("""assign action continue ptrassign wherestmt forallstmt associate endassociate block endblock select case endselect selectrank
  rank selecttype guard if elseif else endif where masked elsewhere endwhere forall endforall do do10 do20 enddo format decl end""".split())
SPEC = set("""use import implicit param equiv format entry data decl decl2 access private sequence type endtype binding procptr procomp enum
  enumerator endenum interface endinterface contains sub endsub modproc assign block end""".split())
UNIT = set("program module sub fun modproc contains end endprogram endmodule endsub endfun endproc use decl assign interface endinterface".split())

def dress(rng, c):
  """the same statements, written another way: other case, compound lines, comments, continuations, fixed form"""
  sts = [(o["l"], re.sub(r"^\d+ ", "", t)) for o, t in zip(c["ops"], c["lines"])]
  form = "fixed" if rng.random() < 0.3 else "free"
  lines, up, texts = [], rng.random() < 0.2, []
  for l, t in sts:
    if up and "'" not in t: t = t.upper()
    texts.append(t)
    if rng.random() < 0.1: lines.append(rng.choice(["", "! note", "!", "      "]) if form == "free" else rng.choice(["", "c note", "! x"]))
    if l == 0 and lines and rng.random() < 0.15 and lines[-1].strip() and not re.match(r"\s*[!c]( |$)|.*!", lines[-1]) and len(lines[-1]) + len(t) < 60:
      lines[-1] += rng.choice([";", " ; "]) + t
    elif form == "free":
      if rng.random() < 0.1 and " " in t and "'" not in t:
        a, b = t.split(" ", 1)
        lines += [(f"{l} " if l else "") + a + " &", "   " + b]
      else: lines.append(" " * rng.choice([0, 0, 2, 5]) + (f"{l} " if l else "") + t + rng.choice(["", "", "", " ! t"]))
    else: lines.append((f"{l:<5} " if l else "      ") + t)
  return dict(form=form, lc=0, ops=c["ops"], lines=lines), texts

def mutate(rng, base, c):
  """the statements of a program with some removed, repeated, exchanged or added"""
  st = list(zip(c["ops"], c["lines"]))
  def other():
    o = rng.choice(base); j = rng.randrange(len(o["lines"])); return (o["ops"][j], o["lines"][j])
  for _ in range(rng.choice([1, 1, 1, 2, 3])):
    i, k = rng.randrange(len(st)), rng.randrange(6)
    if k == 0 and len(st) > 1: del st[i]
    elif k == 1: st.insert(i, st[rng.randrange(len(st))])
    elif k == 2: j = rng.randrange(len(st)); st[i], st[j] = st[j], st[i]
    elif k == 3: st.insert(i, other())
    elif k == 4: st[i] = other()
    elif k == 5: st = st[:max(1, i)]
  return dict(form="free", lc=0, ops=[a for a, _ in st], lines=[b for _, b in st])

def programs(run, cap):
  """programs from the specification: every transition of the graph of open constructs, and random ones"""
  inv = ["CoverInv"]
  full = set(kinds_of_statements())
  out = []
  for only, prefix, tour, op in ((UNIT, [], 9, run.pick(11, 13)), (SPEC, ["module"], 9, run.pick(12, 14)), (EXEC, ["sub"], run.pick(7, 8), run.pick(11, 13))):
    m = run.histories("MC_Program", dict(Open=op, Prefix=prefix, Only=only), inv, tour=tour, timeout=3000)
    if len(m) > cap: m = run.rng.sample(m, cap)
    out += m
  sim = run.histories("MC_Program", dict(Open=run.pick(14, 18), Prefix=[], Only=full), inv, sim=(run.pick(480, 6000), 25))
  return out, sim

@check("C12")
def c12(run):
  exe = build(["drv_prog"])["drv_prog"]
  m, sim = programs(run, run.pick(2000, 40000))
  run.conform("programs of the specification", exe, "Trace_Program", m + sim)
  n = run.pick(2500, 30000)
  run.conform("the same programs written another way", exe, "Trace_Program", [dress(run.rng, run.rng.choice(m + sim + sim))[0] for _ in range(n)])
  base = m + sim
  run.conform("statements added, removed, exchanged", exe, "Trace_Program", [mutate(run.rng, base, run.rng.choice(base)) for _ in range(n)])


# ------------------------------------------------------------------ procedures
NAMED = {"program": r"(program)(\w+)()$", "sub": r"(.*subroutine)(\w+)(.*)$", "fun": r"(.*function)(\w+)(.*)$", "modproc": r"(moduleprocedure)(\w+)()$",
         "endprogram": r"(endprogram)(\w*)()$", "endsub": r"(endsubroutine)(\w*)()$", "endfun": r"(endfunction)(\w*)()$",
         "endproc": r"(endprocedure)(\w*)()$"}
def parts(o, line):
  """a statement as the specification of procedures sees it: its text without blanks, in front of, in and behind the name"""
  t = re.sub(r"^\d+ ", "", line).replace(" ", "")
  m = re.match(NAMED.get(o["k"], r"(.*)()()$"), t, re.I)
  return {"k": o["k"], "l": o["l"], "b": m[1], "nm": m[2], "e": m[3]}

def proc_case(rng, c, edits=None, proc=0, yes=0, plain=False):
  d, texts = (c, c["lines"]) if plain else dress(rng, c)
  x = dict(form=d["form"], lc=0, lines=d["lines"], ops=[parts(o, t) for o, t in zip(c["ops"], texts)], yes=yes)
  return dict(x, edits=edits, proc=proc) if edits is not None else x

@check("C13")
def c13(run):
  exe = build(["drv_proc"])["drv_proc"]
  inv = ["CoverInv"]
  bodies = UNIT | set("import implicit param format action do10 continue if endif enum enumerator endenum".split())
  m = run.histories("MC_Program", dict(Open=run.pick(11, 13), Prefix=[], Only=UNIT | {"implicit", "continue"}), inv, tour=run.pick(9, 10), timeout=3000)
  sim = run.histories("MC_Program", dict(Open=14, Prefix=[], Only=bodies), inv, sim=(run.pick(480, 6000), 25))
  cs = [proc_case(run.rng, c, yes=run.rng.randrange(4), plain=True) for c in m + sim]
  run.conform("programs of the specification", exe, "Trace_Procs", cs)
  n = run.pick(2000, 30000)
  run.conform("the same programs written another way", exe, "Trace_Procs", [proc_case(run.rng, run.rng.choice(m + sim + sim), yes=run.rng.randrange(4)) for _ in range(n)])

PROC_SOURCES = [  # statements with their kinds, as k[/label]:text
  ["sub:subroutine s(a)", "use:use m", "decl:integer :: i", "assign:x = 1", "action:return", "endsub:end subroutine s"],
  ["assign:x = 1", "action/7:stop", "end:end"],
  ["program:program p", "contains:contains", "sub:subroutine s", "end:end", "fun:integer function g()", "endfun:endfunction", "endprogram:end program"],
  ["module:module m", "implicit:implicit none", "contains:contains", "fun:real(8) elemental function h(x) result(y)", "import:import", "param:parameter (n = 3)",
   "decl:real a(10)", "do10:do 10 i = 1, 3", "continue/10:continue", "contains:contains", "sub:subroutine t", "endsub:end subroutine t", "endfun:end function h",
   "modproc:module procedure mp", "endproc:end procedure", "endmodule:end module"],
  ["fun:function f(x)", "type:type t", "decl:integer :: i", "endtype:end type", "if:if (a) then", "case/20:continue", "endif:end if", "end:END"],
]
def proc_sources():
  out = []
  for p in PROC_SOURCES:
    ops, lines = [], []
    for st in p:
      k, t = st.split(":", 1); k, _, l = k.partition("/"); l = int(l or 0)
      if k == "case": k = "continue"
      ops.append({"k": k, "l": l}); lines.append((f"{l} " if l else "") + t)
    out.append({"form": "free", "ops": ops, "lines": lines})
  return out

def proc_edits(rng, n):
  out = []
  for _ in range(n):
    o = rng.choice(["ins", "ins", "ins", "rename", "endstmt", "rep"])
    e = {"o": o, "r": 0, "i": rng.choice([0, 0, 1, 2, 5, 99]), "k": "", "t": "", "q": "", "bp": rng.random() < 0.5}
    if o == "ins":
      e["r"] = rng.choice([1, 2, 3, 4, 5, 5])
      e["k"], e["t"] = {1: ("use", "use zz"), 2: ("import", "import zz"), 3: ("implicit", "implicit none"), 4: ("decl", "integer :: zz"), 5: ("assign", "zz = 1")}[e["r"]]
    elif o == "rep": e.update(r=5, k="action", t="call zz")
    elif o == "rename": e["t"] = rng.choice(["zz", "p", "s", "a_much_longer_name"])
    e["q"] = e["t"].replace(" ", "") if o != "rename" else ""
    out.append(e)
  return out

@check("C14")
def c14(run):
  exe = build(["drv_proc"])["drv_proc"]
  srcs = proc_sources()
  inv = ["RegionInv", "NothingLostInv"]
  c = dict(Sources=[[parts(o, t) for o, t in zip(x["ops"], x["lines"])] for x in srcs], Most=3)
  m = run.model("MC_Procs", dict(c, Depth=1, Mode="all"), inv, emit=True)
  m += run.model("MC_Procs", dict(c, Depth=2, Mode="all", Most=run.pick(1, 3)), inv, emit=True, cap=run.pick(4000, 60000))
  m += run.simulate("MC_Procs", c, inv, run.pick(400, 6000), run.pick(6, 10))
  cs = []
  for x in m:
    for plain in (True, False): cs.append(proc_case(run.rng, srcs[x["src"] - 1], edits=x["edits"], proc=x["proc"], plain=plain))
  cs = [x for x in cs if x["form"] == "free"]
  run.conform("edits of the specification", exe, "Trace_Procs", cs)
  bodies = UNIT | set("import implicit param format action do10 continue if endif enum enumerator endenum".split())
  sim = run.histories("MC_Program", dict(Open=14, Prefix=[], Only=bodies), ["CoverInv"], sim=(run.pick(240, 3000), 20))
  cs = [proc_case(run.rng, run.rng.choice(sim), edits=proc_edits(run.rng, run.rng.choice([1, 2, 3, 5])), proc=run.rng.randrange(8)) for _ in range(run.pick(2500, 30000))]
  run.conform("random programs, random edits", exe, "Trace_Procs", [x for x in cs if x["form"] == "free"])
