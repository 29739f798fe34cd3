----------------------------- MODULE RenderLaws -----------------------------
(***************************************************************************)
(* The rendering specification (Render!Grid, Render!Allowed) against the   *)
(* sentence of property C16, taken clause by clause, on every grid of up   *)
(* to three rows or columns over a pool of cell texts: narrow, wide,       *)
(* combining, several lines, inner blanks, blank lines in the middle.      *)
(***************************************************************************)
EXTENDS Render, IOUtils

Pool == << <<65>>, <<65, 66, 67>>, <<65, NL, 66, 67>>, <<SP, 65>>, <<26085>>, <<101, 769, 120>>, <<65, NL, NL, 68>>, <<65, NL>> >>
NonBlank(s) == SelectSeq(s, LAMBDA x : x # SP /\ x # NL)
Brackets == {LTop, LMid, LBot, RTop, RMid, RBot}

(* width taken by the first k characters *)
Upto(s, k, feat) == Width(SubSeq(s, 1, k), feat)
(* the part of a line whose characters begin at display columns a .. b-1, zero-width ones staying with their base *)
SliceAt(s, a, b, feat) ==
  LET ix == {k \in 1..Len(s) : LET p == Upto(s, k - 1, feat) w == CharW(s[k], feat) IN
               IF w = 0 THEN a < p /\ p <= b ELSE a <= p /\ p < b}
  IN IF ix = {} THEN <<>> ELSE SubSeq(s, CHOOSE x \in ix : \A y \in ix : x <= y, CHOOSE x \in ix : \A y \in ix : y <= x)
Strip(s) == LET inner == {k \in 1..Len(s) : s[k] # SP} IN
  IF inner = {} THEN <<>> ELSE SubSeq(s, CHOOSE x \in inner : \A y \in inner : x <= y, CHOOSE x \in inner : \A y \in inner : y <= x)
Before(f, j) == LET RECURSIVE S(_) S(x) == IF x = 0 THEN 0 ELSE f[x] + S(x - 1) IN S(j - 1)

Laws(r, c, cells, feat) ==
  LET g == Grid(r, c, cells, feat)
      ls == [k \in 1..(r * c) |-> Lines(cells[k])]
      L(i, j) == ls[(i - 1) * c + j]
      h == [i \in 1..r |-> MaxOf({Len(L(i, j)) : j \in 1..c})]
      bw(i, j) == MaxOf({Width(L(i, j)[q], feat) : q \in 1..Len(L(i, j))})
      w == [j \in 1..c |-> MaxOf({bw(i, j) : i \in 1..r})]
      total == Before(w, c + 1) + c - 1
      col(j) == Before(w, j) + j - 1          \* display column at which column j begins
  IN \* as many lines per row as its tallest cell
     /\ Len(g) = Before(h, r + 1)
     \* every line has the same width: that of the columns and the single blanks between them
     /\ \A k \in 1..Len(g) : Width(g[k], feat) = total
     \* the cells' lines in column order, each inside its column, the block centred
     /\ \A i \in 1..r, j \in 1..c : \A n \in 1..h[i] :
          LET line == g[Before(h, i) + n]
              part == SliceAt(line, col(j), col(j) + w[j], feat)
              mine == IF n <= Len(L(i, j)) THEN L(i, j)[n] ELSE <<>>
              left == (w[j] - bw(i, j)) \div 2
          IN /\ Strip(part) = Strip(mine)
             /\ (mine # <<>> /\ Strip(mine) # <<>>) =>
                   SubSeq(part, left + 1, left + Len(mine)) = mine
             /\ (w[j] - bw(i, j)) - left \in {left, left + 1}       \* odd blank to the right
             /\ j < c => SliceAt(line, col(j) + w[j], col(j) + w[j] + 1, feat) = <<SP>>
     \* brackets
     /\ \A t \in Allowed(r, c, cells, feat) :
          LET q == Lines(t) IN
          /\ Len(q) = Len(g)
          /\ \A k \in 1..Len(q) :
               /\ Len(q) > 1 => q[k][1] = (IF k = 1 THEN LTop ELSE IF k = Len(q) THEN LBot ELSE LMid)
               /\ Len(q) > 1 => q[k][Len(q[k])] = (IF k = 1 THEN RTop ELSE IF k = Len(q) THEN RBot ELSE RMid)
               /\ Len(q) = 1 => q[k][1] \in {LTop, LBot} /\ q[k][Len(q[k])] \in {RTop, RBot}
               /\ SubSeq(q[k], 2, Len(q[k]) - 1) = g[k]

Grids(n) == [1..n -> 1..Len(Pool)]
Holds(r, c) == \A f \in Grids(r * c) : \A feat \in {0, 1} : Laws(r, c, [k \in 1..(r * c) |-> Pool[f[k]]], feat)

ASSUME Holds(1, 1)
ASSUME Holds(1, 2) /\ Holds(2, 1)
ASSUME Holds(1, 3) /\ Holds(3, 1)
ASSUME Holds(2, 2)
(* Debug: different matrices of one shape never look the same *)
ASSUME \A r, c \in 1..2 : \A f, g \in [1..(r * c) -> {0, 7, 12, 120}] :
         f # g => MDebug(r, c, [k \in 1..(r * c) |-> f[k]]) # MDebug(r, c, [k \in 1..(r * c) |-> g[k]])
ASSUME \A r \in 0..3, c \in 0..3 : Cardinality({k \in 1..Len(MDebug(r, c, [x \in 1..(r * c) |-> 5])) :
         MDebug(r, c, [x \in 1..(r * c) |-> 5])[k] = LB}) = r + 1
=============================================================================
