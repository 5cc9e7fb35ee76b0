"""Random Fortran-like source texts (inputs for recorded runs)."""
import random

KEYWORDS = ("abstract allocatable allocate associate backspace bind block call case character class "
  "close codimension common complex concurrent contains contiguous continue critical cycle data "
  "deallocate default deferred dimension do double doubleprecision dowhile elemental else end entry "
  "enum enumerator equivalence error exit extends external final flush forall form format function "
  "generic go if implicit import impure in include inout inquire integer intent interface intrinsic "
  "is kind len lock logical module name namelist none nopass nullify only open operator optional out "
  "parameter pass pointer precision print private procedure program protected public pure read real "
  "recursive result return rewind save select sequence stop submodule subroutine sync target team "
  "then to type unlock use value volatile wait where while write all id eor err file unit stat "
  "images image memory local local_init new_index acquired_lock until_count non_intrinsic "
  "team_number rank quiet post event fail errmsg iomsg iostat assignment asynchronous mold source "
  "shared unformatted formatted non_overridable non_recursive").split()
FUSED = ("blockdata elseif elsewhere endassociate endblock endcritical enddo endenum endfile endforall "
  "endfunction endif endinterface endmodule endprocedure endprogram endselect endsubmodule "
  "endsubroutine endteam endtype endwhere goto selectcase selecttype").split()
SYMS = ["(", ")", "[", "]", "+", "-", "=", ":", ";", "/", "%", ",", "*", "|", "<", ">", "..", "::",
  "**", "//", "=>", "==", "/=", "<=", ">="]
DOTS = [".eq.", ".ne.", ".lt.", ".le.", ".gt.", ".ge.", ".not.", ".and.", ".or.", ".eqv.", ".neqv.",
  ".false.", ".true.", ".true._k", ".myop.", ".x."]
NUMS = ["0", "1", "42", "007", "1_8", "12_ik", "1.0", "1.", ".5", "3.14e0", "1e5", "1d0", "2.5d-3",
  "1.e+10", "6.02e23_dp", ".5_4", "1.e5_k", "1e5_8", "100000"]
WORDS = ["x", "y", "a1", "foo", "b_c", "e1", "d0", "e", "d", "i", "Ab", "xend", "ifx", "do_it", "end_if",
  "endifx", "elsewherex", "gotox", "n_", "_".join(["long", "name"]), "e5_k"]

def rcase(r, w):
  k = r.random()
  return w if k < 0.6 else w.upper() if k < 0.8 else w.capitalize()

def rstring(r):
  q = r.choice("'\"")
  body = "".join(r.choice(["a", "b", " ", "  ", "!", "&", ";", q + q, "'" if q == '"' else '"', "x y", "&&", "! c", "1", "/", ".and."])
                 for _ in range(r.randrange(0, 6)))
  pre = r.choice(["", "", "", "k_", "4_"])
  return pre + q + body + q

def rtoken(r):
  k = r.random()
  if k < 0.28: return rcase(r, r.choice(WORDS))
  if k < 0.40: return rcase(r, r.choice(KEYWORDS))
  if k < 0.46: return rcase(r, r.choice(FUSED))
  if k < 0.58: return r.choice(NUMS)
  if k < 0.66: return rcase(r, r.choice(DOTS))
  if k < 0.74: return rstring(r)
  return r.choice(SYMS)

STMTS = ["x = 1", "call foo(a, b)", "if (i .eq. 1) goto 10", "end if", "enddo", "integer :: i, j",
  "real(kind=8), dimension(:) :: z", "y = 1.0e5_dp*x", "print *, 'it''s', \"q\"", "do i = 1, n",
  "a = b//'c;d'", "continue", "return", "write(*,'(a)') s", "if(a.and.b)then", "else if (x) then",
  "elseif(y)then", "type(t) :: v", "interface operator(.foo.)", "p => q", "a(1:2) = [1,2]",
  "x=1.and.y", "x=1.eq.y", "k=.5+1.", "character(len=*) s", "use m, only: a=>b", "module procedure f",
  "select case(i)", "selectcase(i)", "1 format(1x,'a')"]

def rstmt(r, n=8):
  if r.random() < 0.35: return r.choice(STMTS)
  s = ""
  for i in range(r.randrange(1, n)):
    s += rtoken(r) + r.choice(["", " ", " ", "  ", "   "])
  return s

def rcomment(r):
  return "!" + r.choice(["", " c", "c", " don't", " \"q", " a & b", "$omp parallel", " x = 1 ! y", " &", "!"])

def context_at(text, p):
  """open quote at position p of text"""
  q = ""
  for c in text[:p]:
    if q: q = "" if c == q else q
    elif c in "'\"": q = c
  return q

def trivia(r):
  return r.choice(["", " ", "   ", "\t", rcomment(r), "  " + rcomment(r)])

def free_stmt(r, text, brk):
  """lay a statement text out over free-form lines"""
  lines, cur = [], ""
  lab = str(r.choice([1, 10, 100, 99999, 7])) + " " * r.randrange(1, 4) if r.random() < 0.15 else ""
  cur = " " * r.choice([0, 0, 2, 4]) + lab
  i = 0
  for j, c in enumerate(text):
    cur += c
    if j + 1 < len(text) and r.random() < brk:
      q = context_at(text, j + 1)
      if q:
        cur += "&" + r.choice(["", "", "  "])
      else:
        cur += r.choice(["", " ", "  "]) + "&" + r.choice(["", "", " ", "! c", " ! c'", "  !&"])
      lines.append(cur)
      while r.random() < 0.25: lines.append(trivia(r))
      if q: cur = " " * r.choice([0, 2, 5]) + ("&" if r.random() < 0.85 else "")
      else: cur = " " * r.choice([0, 1, 4]) + r.choice(["", "", "&", "& "])
  if r.random() < 0.2: cur += r.choice(["", " ", "  "]) + rcomment(r)
  elif r.random() < 0.1: cur += " " * r.randrange(1, 4)
  lines.append(cur)
  return lines

def other_line(r, form):
  k = r.random()
  if k < 0.2: return ["#define X"]
  if k < 0.3: return ["#define X \\", "  y 'z \\", " & z"]
  if k < 0.4: return ["#if defined(A)"]
  if form == "free":
    if k < 0.5: return ["  include 'f.h'"]
    if k < 0.55: return ["INCLUDE \"f.h\""]
    if k < 0.65: return ["!#flpr foo"]
    if k < 0.72: return [r.choice(["", " "]) + "!#flpr literal", "any 'thing", "", "  x &", r.choice(["", "  "]) + "!#flpr literal"]
    if k < 0.8: return ["include = 'a'"]
  else:
    if k < 0.5: return ["      include 'f.h'"]
    if k < 0.6: return ["!#flpr foo"]
    if k < 0.7: return ["      include=1"]
  return [trivia(r)]

def free_source(r, n=6, brk=0.06):
  lines = []
  for _ in range(r.randrange(1, n + 1)):
    k = r.random()
    if k < 0.15: lines += other_line(r, "free")
    elif k < 0.3: lines.append(trivia(r))
    else:
      t = rstmt(r)
      while r.random() < 0.2: t += r.choice([";", " ; ", ";;", "; "]) + rstmt(r)
      t = t.strip()
      if not t: continue
      lines += free_stmt(r, t, r.choice([0, 0, brk, 3 * brk]))
  return lines or ["x"]

def fixed_source(r, n=6):
  lc = r.choice([0, 0, 72, 72, 72, 20, 16])
  lines = []
  for _ in range(r.randrange(1, n + 1)):
    k = r.random()
    if k < 0.1: lines += other_line(r, "fixed")
    elif k < 0.2: lines.append(r.choice(["", "   ", "c comment", "C don't", "* x", "! y", "  ! z", "\t! w",
                                         " " * 30 + "tail", " " * 80 + "seq"]))
    else:
      t = rstmt(r)
      while r.random() < 0.15: t += r.choice([";", " ; "]) + rstmt(r)
      t = t.strip()
      if not t: continue
      width = (lc or 60) - 6
      if r.random() < 0.5: width = r.randrange(4, max(5, width + 1))
      first = True
      while t:
        seg, t = t[:width], t[width:]
        # a segment that is only blanks or starts with a comment character is avoided in the middle
        if first:
          k = r.random()
          if k < 0.15: ctl = r.choice(["10   ", " 7   ", "  123", "99999"]) + r.choice([" ", " ", "0"])
          elif k < 0.22: ctl = "\t"
          else: ctl = "      "
          body = r.choice(["", "", " ", "  "]) + seg
        else:
          ctl = "     " + r.choice(["1", "&", "$", "*", "x", "!", "9"])
          body = seg
        l = ctl + body
        if r.random() < 0.1: l += "  "
        if lc and r.random() < 0.15:
          l = (l.ljust(lc)) + r.choice(["SEQ 01", "  00010", " ! c", "&", "'"])
        elif not t and r.random() < 0.15: l += r.choice([" ", ""]) + "! c'"
        lines.append(l)
        while t and r.random() < 0.15: lines.append(r.choice(["", "c mid", "! mid'", "  ", "* &"]))
        first = False
        if width < 4: width = 4
  return lc, (lines or ["      x"])

ALPHA_FREE = "ab  &&!!''\"1;;(.eE5_=\t#,"
def noise_source(r, form):
  lines = []
  for _ in range(r.randrange(1, 5)):
    l = "".join(r.choice(ALPHA_FREE) for _ in range(r.randrange(0, 12)))
    if form == "fixed" and r.random() < 0.75:
      l = r.choice(["      ", "      ", "     1", "10    ", "\t", " 2   0"]) + l
    lines.append(l)
  return lines

def source_case(r, form=None):
  form = form or r.choice(["free", "free", "fixed"])
  if form == "free":
    return {"form": "free", "lc": 0,
            "lines": noise_source(r, form) if r.random() < 0.3 else free_source(r)}
  if r.random() < 0.3:
    return {"form": "fixed", "lc": r.choice([0, 72, 10, 12]), "lines": noise_source(r, form)}
  lc, ls = fixed_source(r)
  return {"form": "fixed", "lc": lc, "lines": ls}
