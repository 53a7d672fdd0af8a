------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The scripting layer.  A C++ value is a tagged tuple:                    *)
(*   <<"i32"|"u32"|"i64"|"u64"|"spin"|"mom", int>>  <<"f64", x>>           *)
(*   <<"c", x, y>>  <<"b", 0|1>>  <<"s", text>>  <<"rng", what it draws>>  *)
(*   <<"list"|"vec", values>>  <<"map", <<key, value>> ...>>               *)
(*   <<"arr", kind, shape, elements>>  <<"d", <<key, Python value>> ...>>  *)
(* A Python value likewise:                                                *)
(*   <<"int", digits, as a real, widths it fits>>  <<"real", x>>           *)
(*   <<"cpx", x, y>>  <<"bool", 0|1>>  <<"str", text>>  <<"list", ...>>    *)
(*   <<"tuple", ...>>  <<"dict", <<key, value>> ...>>  <<"arr", ...>>      *)
(* Reals are written out exactly, as text.  Pairs come in a fixed order.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Ints == {"i32", "u32", "i64", "u64", "spin", "mom"}
Bit(m, b) == (m \div b) % 2 = 1
Width(t) == CASE t = "i32" -> 1 [] t = "u32" -> 2 [] t = "i64" -> 4 [] t = "u64" -> 8 [] OTHER -> 1
Seqs(f(_), q) == [j \in DOMAIN q |-> f(q[j])]

(* ---- storing: the Python value of a C++ value ---- *)
SetOf(q) == { q[j] : j \in DOMAIN q }
RECURSIVE IsPy(_, _)
IsPy(v, p) ==
  CASE v[1] \in Ints -> p = v[2]
    [] v[1] = "f64" -> p = <<"real", v[2]>>
    [] v[1] = "c" -> p = <<"cpx", v[2], v[3]>>
    [] v[1] = "b" -> p = <<"bool", v[2]>>
    [] v[1] = "s" -> p = <<"str", v[2]>>
    [] v[1] = "rng" -> p[1] = "str"
    [] v[1] = "arr" -> p = v
    [] v[1] \in {"list", "vec"} -> p[1] = "list" /\ Len(p[2]) = Len(v[2]) /\ \A j \in DOMAIN v[2] : IsPy(v[2][j], p[2][j])
    [] v[1] = "map" -> /\ p[1] = "dict" /\ Len(p[2]) = Len(v[2])
                       /\ \A j \in DOMAIN v[2] : \E q \in DOMAIN p[2] : IsPy(v[2][j][1], p[2][q][1]) /\ IsPy(v[2][j][2], p[2][q][2])
    [] v[1] = "d" -> /\ p[1] = "dict" /\ Len(p[2]) = Len(v[2])
                     /\ \A j \in DOMAIN v[2] : \E q \in DOMAIN p[2] : p[2][q] = << <<"str", v[2][j][1]>>, v[2][j][2]>>
    [] OTHER -> FALSE

(* ---- reading: t a type, as a sequence of words; <<"no">> when refused,    *)
(* <<"any">> where nothing is promised (a number the type cannot hold)      *)
No == <<"no">>
Free == <<"any">>
RECURSIVE Read(_, _)
Elems(t, q) == [j \in DOMAIN q |-> Read(t, q[j])]
Rest(t, n) == SubSeq(t, n, Len(t))
Read(t, p) ==
  CASE t[1] \in Ints ->
         (CASE p[1] = "int" -> IF ~Bit(p[4], Width(t[1])) \/ (t[1] = "spin" /\ p[2] \notin {"0", "1"}) THEN Free ELSE <<t[1], p>>
            [] p[1] = "bool" -> <<t[1], <<"int", IF p[2] = 1 THEN "1" ELSE "0", IF p[2] = 1 THEN "0x1p+0" ELSE "0", 15>>>>
            [] p[1] = "huge" -> Free
            [] OTHER -> No)
    [] t[1] = "f64" ->
         (CASE p[1] = "real" -> <<"f64", p[2]>>
            [] p[1] = "int" -> <<"f64", p[3]>>
            [] p[1] = "bool" -> <<"f64", IF p[2] = 1 THEN "0x1p+0" ELSE "0">>
            [] p[1] = "huge" -> Free
            [] OTHER -> No)
    [] t[1] = "c" -> IF p[1] = "cpx" THEN <<"c", p[2], p[3]>> ELSE No
    [] t[1] = "b" -> IF p[1] = "bool" THEN <<"b", p[2]>> ELSE No
    [] t[1] = "s" -> IF p[1] = "str" THEN <<"s", p[2]>> ELSE No
    [] t[1] = "arr" -> IF p[1] = "arr" THEN p ELSE No
    [] t[1] = "vec" ->
         IF p[1] # "list" THEN No
         ELSE IF Len(p[2]) > 2 THEN Free
         ELSE IF Len(p[2]) < 2 THEN No
         ELSE LET E == Elems(Rest(t, 2), p[2])
              IN IF \E j \in DOMAIN E : E[j] = No THEN No ELSE IF \E j \in DOMAIN E : E[j] = Free THEN Free ELSE <<"vec", E>>
    [] t[1] = "list" ->
         IF p[1] # "list" THEN No
         ELSE LET E == Elems(Rest(t, 2), p[2])
              IN IF \E j \in DOMAIN E : E[j] = No THEN No ELSE IF \E j \in DOMAIN E : E[j] = Free THEN Free ELSE <<"list", E>>
    [] t[1] = "map" ->
         IF p[1] # "dict" THEN No
         ELSE LET E == [j \in DOMAIN p[2] |-> <<Read(<<t[2]>>, p[2][j][1]), Read(Rest(t, 3), p[2][j][2])>>]
              IN IF \E j \in DOMAIN E : E[j][1] = No \/ E[j][2] = No THEN No
                 ELSE IF \E j \in DOMAIN E : E[j][1] = Free \/ E[j][2] = Free THEN Free
                 ELSE <<"map", E>>
    [] t[1] = "d" ->
         IF p[1] # "dict" THEN No
         ELSE IF \E j \in DOMAIN p[2] : p[2][j][1][1] # "str" THEN No
         ELSE <<"d", [j \in DOMAIN p[2] |-> <<p[2][j][1][2], p[2][j][2]>>]>>
    [] OTHER -> Free
\* equal, pairs of a map in any order
Same(a, b) == IF a[1] \in {"map", "d"} THEN b[1] = a[1] /\ Len(a[2]) = Len(b[2]) /\ SetOf(a[2]) = SetOf(b[2]) ELSE a = b

(* ---- a dictionary as a set of <<key, Python value>> ---- *)
Keys(d) == { e[1] : e \in d }
Put(d, k, p) == { e \in d : e[1] # k } \cup {<<k, p>>}
Merge(d, f) == { e \in d : e[1] \notin Keys(f) } \cup f
=============================================================================
