------------------------------ MODULE DictTrace -----------------------------
(* Recordings of the real Dictionary, its conversions and its files. *)
EXTENDS TraceLib
VARIABLE i
V == INSTANCE Values
Ev == Trace[i]
S(d) == Range(d)
Words(t) == CASE t \in {"i32", "u32", "i64", "u64", "spin", "mom", "f64", "c", "b", "s", "rng", "arr", "d"} -> <<t>>
              [] t = "vec:i32" -> <<"vec", "i32">> [] t = "vec:f64" -> <<"vec", "f64">>
              [] t = "list:i32" -> <<"list", "i32">> [] t = "list:f64" -> <<"list", "f64">> [] t = "list:c" -> <<"list", "c">>
              [] t = "list:s" -> <<"list", "s">> [] t = "list:i64" -> <<"list", "i64">> [] t = "list:list:i32" -> <<"list", "list", "i32">>
              [] t = "map:s:i32" -> <<"map", "s", "i32">> [] t = "map:s:f64" -> <<"map", "s", "f64">> [] t = "map:i32:s" -> <<"map", "i32", "s">>
              [] t = "map:s:list:f64" -> <<"map", "s", "list", "f64">>
              [] OTHER -> <<t>>
\* what was stored for a generator's state draws the same numbers when read as one
GetBad(e) ==
  LET r == IF e.py[1] = "absent" THEN V!No
           ELSE IF e.type = "rng" THEN (IF e.py[1] # "str" THEN V!No ELSE V!Free)
           ELSE V!Read(Words(e.type), e.py)
  IN (IF r = V!Free THEN {}
      ELSE IF r = V!No THEN If(~e.ok, <<"C19", "read what is not there or of another type", e.type, e.py[1]>>)
      ELSE If(e.ok, <<"C19", "refused", e.type, e.py[1]>>) \cup If(e.ok => V!Same(r, e.got), <<"C19", "read back different", e.type, e.py[1], e.got>>))
     \cup If(S(e.before) = S(e.d), <<"C19", "reading changed the dictionary", e.type>>)
     \cup If(r = V!Free \/ ~e.pend, <<"C19", "an error was left pending", e.type, e.py[1]>>)
Bad(e) ==
  CASE e.k = "new" -> If(e.d = << >>, <<"C19", "a new dictionary is not empty">>)
    [] e.k = "put" -> If(V!IsPy(e.val, e.py), <<"C19", "stored different", e.val[1], e.py[1]>>)
                      \cup If(S(e.d) = V!Put(S(e.before), e.key, e.py), <<"C19", "storing changed other entries", e.val[1]>>)
    [] e.k = "get" -> GetBad(e)
    [] e.k = "update" -> If(S(e.d) = V!Merge(S(e.before), S(e.with)), <<"C19", "update">>)
    [] e.k = "copy" -> If(S(e.d) = S(e.before) /\ S(e.f) = S(e.before), <<"C19", "copy">>)
    [] e.k = "clear" -> If(e.d = << >> /\ e.empty, <<"C19", "clear">>)
    [] e.k = "file" -> If(e.ok, <<"C19", "a file was refused", e.big>>)
                       \cup If(e.ok => S(e.f) = S(e.before), <<"C19", "read back different from a file", e.big>>)
                       \cup If(S(e.d) = S(e.before), <<"C19", "saving changed the dictionary", e.big>>)
    [] e.k = "nofile" -> If(~e.ok, <<"C19", "a missing file was loaded">>) \cup If(S(e.d) = S(e.before), <<"C19", "a failed load changed the dictionary">>)
    [] e.k = "script" -> IF e.good THEN If(e.ok /\ S(e.d) = S(e.mean), <<"C19", "script">>)
                         ELSE If(~e.ok, <<"C19", "a bad script was loaded">>) \cup If(S(e.d) = S(e.before), <<"C19", "a failed load changed the dictionary">>)
    [] e.k = "rngtrip" -> If(e.a = e.b, <<"C19", "a generator's state read back different">>)
    [] e.k = "died" -> {<<"C19", "the code crashed">>}
    [] OTHER -> {}
Init == i = 1
Next == i <= Len(Trace) /\ ReportAt(i, Bad(Ev)) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
