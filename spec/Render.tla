------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Text rendering of matrices and vectors.  Text is a sequence of code     *)
(* points.  A rendering request is <<op, feature, rows, cols, cells>> with *)
(* cells in row-major order (op "mdisplay": cells are texts).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NL == 10  SP == 32

(* lines of a text, as a terminal shows them: a final line break adds no line *)
RECURSIVE LinesFrom(_, _, _)
LinesFrom(s, i, cur) ==      \* i: next position, cur: line read so far
  IF i > Len(s) THEN (IF cur = <<>> /\ (s = <<>> \/ s[Len(s)] = NL) THEN <<>> ELSE <<cur>>)
  ELSE IF s[i] = NL THEN <<cur>> \o LinesFrom(s, i + 1, <<>>)
  ELSE LinesFrom(s, i + 1, Append(cur, s[i]))
Lines(s) == LinesFrom(s, 1, <<>>)

(* columns a character takes: Unicode width with the feature, bytes in UTF-8 without it.
   (the characters histories are made of: ASCII, Latin-1, combining marks, CJK) *)
Utf8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Zerow(c) == (c >= 768 /\ c <= 879)
Wide(c) == (c >= 12353 /\ c <= 12543) \/ (c >= 19968 /\ c <= 40959) \/ (c >= 65281 /\ c <= 65376)
CharW(c, feat) == IF feat = 0 THEN Utf8(c) ELSE IF Zerow(c) THEN 0 ELSE IF Wide(c) THEN 2 ELSE 1
RECURSIVE Width(_, _)
Width(s, feat) == IF s = <<>> THEN 0 ELSE CharW(s[1], feat) + Width(Tail(s), feat)

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Spaces(n) == [i \in 1..n |-> SP]
LTop == 9121  LMid == 9122  LBot == 9123      \* left square bracket: upper corner, extension, lower corner
RTop == 9124  RMid == 9125  RBot == 9126

(* the lines of the rendering *)
Grid(r, c, cells, feat) ==
  LET ls == TLCEval([k \in 1..(r * c) |-> Lines(cells[k])])
      L(i, j) == ls[(i - 1) * c + j]
      cw == TLCEval([k \in 1..(r * c) |-> MaxOf({Width(ls[k][q], feat) : q \in 1..Len(ls[k])})])
      colw == TLCEval([j \in 1..c |-> MaxOf({cw[(i - 1) * c + j] : i \in 1..r})])
      rowh == TLCEval([i \in 1..r |-> MaxOf({Len(L(i, j)) : j \in 1..c})])
      Part(i, j, n) ==        \* cell (i,j) in text line n of its row
        LET line == IF n <= Len(L(i, j)) THEN L(i, j)[n] ELSE <<>>
            left == (colw[j] - cw[(i - 1) * c + j]) \div 2
        IN Spaces(left) \o line \o Spaces((colw[j] - left) - Width(line, feat)) \o (IF j < c THEN <<SP>> ELSE <<>>)
      Body(i, n) == FlattenSeq([j \in 1..c |-> Part(i, j, n)])
  IN FlattenSeq([i \in 1..r |-> [n \in 1..rowh[i] |-> Body(i, n)]])

RECURSIVE JoinLines(_)
JoinLines(q) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<NL>> \o JoinLines(Tail(q))
(* allowed outputs.  With a single line, "top" and "bottom" are the same place, and a final line break is
   left open there. *)
Allowed(r, c, cells, feat) ==
  LET g == TLCEval(Grid(r, c, cells, feat))
      n == Len(g)
  IN IF n = 1 THEN {<<LTop>> \o g[1] \o <<RTop>>, <<LTop>> \o g[1] \o <<RTop, NL>>, <<LBot>> \o g[1] \o <<RBot>>}
     ELSE {JoinLines([k \in 1..n |-> IF k = 1 THEN <<LTop>> \o g[k] \o <<RTop>>
                                     ELSE IF k = n THEN <<LBot>> \o g[k] \o <<RBot>>
                                     ELSE <<LMid>> \o g[k] \o <<RMid>>])}
HasEmptyCell(cells) == \E k \in 1..Len(cells) : Lines(cells[k]) = <<>>
DisplayOK(r, c, cells, feat, out) ==
  IF r = 0 \/ c = 0 \/ HasEmptyCell(cells) THEN TRUE     \* only that it does not panic
  ELSE out \in Allowed(r, c, cells, feat)

-----------------------------------------------------------------------------
(* Debug: elements are decimal numbers *)
RECURSIVE Digits(_)
Digits(x) == IF x < 10 THEN <<48 + x>> ELSE Digits(x \div 10) \o <<48 + (x % 10)>>
RECURSIVE CommaJoin(_)
CommaJoin(q) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<44, SP>> \o CommaJoin(Tail(q))
LB == 91  RB == 93
ListText(q) == <<LB>> \o CommaJoin([i \in 1..Len(q) |-> Digits(q[i])]) \o <<RB>>
WMatrix == <<77, 97, 116, 114, 105, 120>>
WVector == <<86, 101, 99, 116, 111, 114>>
RowOf(c, vals, i) == SubSeq(vals, (i - 1) * c + 1, i * c)
MDebug(r, c, vals) == WMatrix \o <<LB>> \o CommaJoin([i \in 1..r |-> ListText(RowOf(c, vals, i))]) \o <<RB>>
VDebug(vals) == WVector \o ListText(vals)
(* the alternate form: layout is open, but the elements and their nesting are not *)
Skeleton(s) == SelectSeq(s, LAMBDA x : x \in {LB, RB} \cup (48..57) \cup {44})
RECURSIVE DropTrailing(_)
DropTrailing(s) ==   \* commas before a closing bracket
  IF Len(s) < 2 THEN s ELSE IF s[1] = 44 /\ s[2] = RB THEN DropTrailing(Tail(s)) ELSE <<s[1]>> \o DropTrailing(Tail(s))
Shape(s) == DropTrailing(Skeleton(s))

RenderOK(op, feat, r, c, cells, outcome, out) ==
  /\ outcome = "ok"
  /\ CASE op = "mdisplay" -> DisplayOK(r, c, cells, feat, out)
       [] op = "mdebug" -> out = MDebug(r, c, cells)
       [] op = "vdebug" -> out = VDebug(cells)
       [] op = "mdebuga" -> Shape(out) = Shape(MDebug(r, c, cells))
       [] op = "vdebuga" -> Shape(out) = Shape(VDebug(cells))
=============================================================================
