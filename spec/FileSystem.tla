------------------------------ MODULE FileSystem ------------------------------
(***************************************************************************)
(* A directory as a process that may die at any moment leaves it.          *)
(*   fs.dir   what every name stands for (a number of a file)              *)
(*   fs.data  what is in every file: the pieces written, in order;         *)
(*            a piece is [id, from, len]: len bytes of the write id, from  *)
(*            the byte from                                                *)
(* Two files hold the same if their pieces are the same.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Size(_)
Size(c) == IF c = <<>> THEN 0 ELSE Head(c).len + Size(Tail(c))
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
With(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
\* the first n bytes
RECURSIVE Cut(_, _)
Cut(c, n) == IF n = 0 \/ c = <<>> THEN <<>>
             ELSE IF Head(c).len <= n THEN <<Head(c)>> \o Cut(Tail(c), n - Head(c).len)
             ELSE <<[Head(c) EXCEPT !.len = n]>>
\* all but the first n bytes
RECURSIVE Drop(_, _)
Drop(c, n) == IF n = 0 \/ c = <<>> THEN c
              ELSE IF Head(c).len <= n THEN Drop(Tail(c), n - Head(c).len)
              ELSE <<[Head(c) EXCEPT !.from = @ + n, !.len = @ - n]>> \o Tail(c)
Piece(id, n) == IF n = 0 THEN <<>> ELSE <<[id |-> id, from |-> 0, len |-> n]>>
Hole(n) == IF n <= 0 THEN <<>> ELSE <<[id |-> <<"hole">>, from |-> 0, len |-> n]>>
Has(fs, n) == n \in DOMAIN fs.dir
Holds(fs, n) == IF Has(fs, n) THEN fs.data[fs.dir[n]] ELSE <<[id |-> <<"absent">>, from |-> 0, len |-> 0]>>
\* opening n for writing; ino is the number a new file would have
Open(fs, n, ino, creat, trunc) ==
  IF Has(fs, n) THEN IF trunc THEN [fs EXCEPT !.data = With(@, fs.dir[n], <<>>)] ELSE fs
  ELSE IF creat THEN [dir |-> With(fs.dir, n, ino), data |-> With(fs.data, ino, <<>>)]
  ELSE fs
\* what the first k bytes of a write of the bytes id at off make of c
Written(c, id, off, k) == Cut(c, off) \o Hole(off - Size(c)) \o Piece(id, k) \o Drop(c, off + k)
Write(fs, ino, id, off, k) == [fs EXCEPT !.data = With(@, ino, Written(IF ino \in DOMAIN fs.data THEN fs.data[ino] ELSE <<>>, id, off, k))]
Truncate(fs, ino, n) == [fs EXCEPT !.data = With(@, ino, LET c == fs.data[ino] IN Cut(c, n) \o Hole(n - Size(c)))]
Rename(fs, a, b) == IF a = b THEN fs ELSE [fs EXCEPT !.dir = Without(With(@, b, @[a]), a)]
Link(fs, a, b) == [fs EXCEPT !.dir = With(@, b, @[a])]
Unlink(fs, n) == [fs EXCEPT !.dir = Without(@, n)]
=============================================================================
