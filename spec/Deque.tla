------------------------------- MODULE Deque -------------------------------
(***************************************************************************)
(* Abstract behaviour every iterator of rowcol must show: an exact-size    *)
(* double-ended queue of items.  An item is the sequence of element labels *)
(* the caller receives in one call (one label for element iterators, a     *)
(* whole row, column or chunk otherwise).                                  *)
(*                                                                         *)
(*   rest : items the iterator still owns, in front-to-back order          *)
(*   held : labels handed to the caller so far                             *)
(*                                                                         *)
(* Every action takes the observed outcome o (sequence of items returned), *)
(* the observed numbers ns (for length queries) and the labels ds the      *)
(* iterator destroyed during the call.  `owning` says whether skipped      *)
(* items are destroyed (by-value iterators) or merely passed over (views). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES rest, held

dvars == <<rest, held>>

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

SRange(s) == {s[i] : i \in DOMAIN s}
SameBag(s, t) == Len(s) = Len(t) /\ SRange(s) = SRange(t)   \* labels within t are distinct or all equal

Min2(a, b) == IF a <= b THEN a ELSE b
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* A negative argument stands for an unsigned number of at least 2^31. *)
Size(k) == IF k < 0 THEN 1000000000 ELSE k

Destroyed(owning, ds, skipped) ==
  IF owning THEN SameBag(ds, Flat(skipped)) ELSE ds = <<>>

Give(o) == held' = held \o Flat(o)

Next_(owning, o, ds) ==
  /\ o = (IF rest = <<>> THEN <<>> ELSE <<Head(rest)>>)
  /\ rest' = (IF rest = <<>> THEN <<>> ELSE Tail(rest))
  /\ Destroyed(owning, ds, <<>>) /\ Give(o)

NextBack(owning, o, ds) ==
  /\ o = (IF rest = <<>> THEN <<>> ELSE <<rest[Len(rest)]>>)
  /\ rest' = (IF rest = <<>> THEN <<>> ELSE SubSeq(rest, 1, Len(rest) - 1))
  /\ Destroyed(owning, ds, <<>>) /\ Give(o)

(* nth(k): the first k items are skipped (and destroyed), the next returned *)
Nth(owning, k0, o, ds) ==
  LET k == Size(k0)  n == Len(rest) IN
  IF k < n
  THEN /\ o = <<rest[k + 1]>>
       /\ rest' = SubSeq(rest, k + 2, n)
       /\ Destroyed(owning, ds, SubSeq(rest, 1, k)) /\ Give(o)
  ELSE /\ o = <<>> /\ rest' = <<>>
       /\ Destroyed(owning, ds, rest) /\ Give(o)

NthBack(owning, k0, o, ds) ==
  LET k == Size(k0)  n == Len(rest) IN
  IF k < n
  THEN /\ o = <<rest[n - k]>>
       /\ rest' = SubSeq(rest, 1, n - k - 1)
       /\ Destroyed(owning, ds, SubSeq(rest, n - k + 1, n)) /\ Give(o)
  ELSE /\ o = <<>> /\ rest' = <<>>
       /\ Destroyed(owning, ds, rest) /\ Give(o)

LenQ(ns, ds)  == ns = <<Len(rest)>> /\ ds = <<>> /\ UNCHANGED dvars
HintQ(ns, ds) == ns = <<Len(rest), Len(rest)>> /\ ds = <<>> /\ UNCHANGED dvars

(* by_ref().take(k).collect() *)
Take(owning, k0, o, ds) ==
  LET k == Min2(Size(k0), Len(rest)) IN
  /\ o = SubSeq(rest, 1, k)
  /\ rest' = SubSeq(rest, k + 1, Len(rest))
  /\ Destroyed(owning, ds, <<>>) /\ Give(o)

TakeBack(owning, k0, o, ds) ==
  LET n == Len(rest)  k == Min2(Size(k0), n) IN
  /\ o = Reverse(SubSeq(rest, n - k + 1, n))
  /\ rest' = SubSeq(rest, 1, n - k)
  /\ Destroyed(owning, ds, <<>>) /\ Give(o)

(* internal iteration from the front or back that stops after k + 1 items: try_fold, try_rfold,
   position, rposition.  The items that were visited belong to the caller. *)
Found(k, yes) == IF k < Len(rest) THEN yes ELSE -1
TryFold(owning, k, o, ns, ds) ==
  ns = <<IF k < Len(rest) THEN 1 ELSE 0>> /\ Take(owning, k + 1, o, ds)
TryRFold(owning, k, o, ns, ds) ==
  ns = <<IF k < Len(rest) THEN 1 ELSE 0>> /\ TakeBack(owning, k + 1, o, ds)
Position(owning, k, o, ns, ds) == ns = <<Found(k, k)>> /\ Take(owning, k + 1, o, ds)
RPosition(owning, k, o, ns, ds) == ns = <<Found(k, Len(rest) - 1 - k)>> /\ TakeBack(owning, k + 1, o, ds)

(* any, all, find_map, try_for_each: the same with the closure owning what it is shown *)
Search(owning, k, o, ns, ds) == TryFold(owning, k, o, ns, ds)
(* find, rfind: skipped items are destroyed; ns counts the items the predicate was shown *)
Shown(k) == <<Min2(k + 1, Len(rest))>>
Find(owning, k, o, ns, ds) == ns = Shown(k) /\ Nth(owning, k, o, ds)
RFind(owning, k, o, ns, ds) == ns = Shown(k) /\ NthBack(owning, k, o, ds)

(* f calls of next followed by b calls of next_back; ns records the calls that returned nothing *)
Advance(owning, f0, b0, o, ns, ds) ==
  LET n == Len(rest)
      f == Min2(f0, n)
      b == Min2(b0, n - f) IN
  /\ o = SubSeq(rest, 1, f) \o Reverse(SubSeq(rest, n - b + 1, n))
  /\ ns = [i \in 1..(f0 - f + b0 - b) |-> IF i <= f0 - f THEN 0 ELSE 1]
  /\ rest' = SubSeq(rest, f + 1, n - b)
  /\ Destroyed(owning, ds, <<>>) /\ Give(o)

(* Consuming calls *)
Consume(owning, o, ds, skipped) ==
  rest' = <<>> /\ Destroyed(owning, ds, skipped) /\ Give(o)

Count(owning, o, ns, ds) == ns = <<Len(rest)>> /\ o = <<>> /\ Consume(owning, o, ds, rest)
Last(owning, o, ds) ==
  LET n == Len(rest) IN
  /\ o = (IF n = 0 THEN <<>> ELSE <<rest[n]>>)
  /\ Consume(owning, o, ds, SubSeq(rest, 1, n - 1))
(* choosing one item by comparing every neighbour once: the last (max_by, reduce) or the first (min_by) *)
Compared == <<IF rest = <<>> THEN 0 ELSE Len(rest) - 1>>
ChooseLast(owning, o, ns, ds) == ns = Compared /\ Last(owning, o, ds)
ChooseFirst(owning, o, ns, ds) ==
  /\ ns = Compared
  /\ o = (IF rest = <<>> THEN <<>> ELSE <<Head(rest)>>)
  /\ Consume(owning, o, ds, IF rest = <<>> THEN <<>> ELSE Tail(rest))
(* odd places, then even places *)
Partition(owning, o, ds) ==
  LET n == Len(rest)  h == (n + 1) \div 2 IN
  /\ o = [i \in 1..n |-> IF i <= h THEN rest[2 * i - 1] ELSE rest[2 * (i - h)]]
  /\ Consume(owning, o, ds, <<>>)
Forward(owning, o, ds)  == o = rest /\ Consume(owning, o, ds, <<>>)
Backward(owning, o, ds) == o = Reverse(rest) /\ Consume(owning, o, ds, <<>>)
Skip(owning, k0, o, ds) ==
  LET k == Min2(Size(k0), Len(rest)) IN
  /\ o = SubSeq(rest, k + 1, Len(rest))
  /\ Consume(owning, o, ds, SubSeq(rest, 1, k))
StepBy(owning, k, o, ds) ==
  LET n == Len(rest)
      picked == {i \in 1..n : (i - 1) % (k + 1) = 0}
      cnt == Cardinality(picked)
      others == {i \in 1..n : (i - 1) % (k + 1) # 0}
      RECURSIVE Sk(_)
      Sk(i) == IF i > n THEN <<>> ELSE (IF i \in others THEN <<rest[i]>> ELSE <<>>) \o Sk(i + 1)
  IN /\ o = [i \in 1..cnt |-> rest[(i - 1) * (k + 1) + 1]]
     /\ Consume(owning, o, ds, Sk(1))
Abandon(owning, o, ds) == o = <<>> /\ Consume(owning, o, ds, rest)
=============================================================================
