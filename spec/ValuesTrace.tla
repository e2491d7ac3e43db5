---------------------------- MODULE ValuesTrace ----------------------------
(***************************************************************************)
(* Conformance of the real String, StringAccum and Json to Values.  An item *)
(* is a program run on nine variables (four Strings, three Jsons, two       *)
(* StringAccums): p, its operations, each with the variables whose contents *)
(* changed; left, the blocks of memory still allocated when all variables   *)
(* were emptied.                                                            *)
(***************************************************************************)
EXTENDS Values, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, judged
Empty == [v \in 1..9 |-> IF v \in 5..7 THEN Null ELSE Str(<<>>)]
Src(env, s) == IF s[1] = "l" THEN s[2] ELSE Get(env[s[2]], s[3])
Bit(n, k) == (n \div k) % 2 = 1
(* operations that only ask: the answers they may give *)
Answer(env, o) ==
  CASE o[1] = "read" -> o[3] = 1 /\ o[6] = env[o[2]][2]
    [] o[1] = "cmp" -> LET a == env[o[2]][2] b == env[o[3]][2] IN
         /\ o[4] = Cmp(a, b) /\ (Bit(o[5], 1) <=> a = b) /\ (Bit(o[5], 2) <=> Cmp(a, b) < 0) /\ (Bit(o[5], 4) <=> Prefix(a, b)) /\ Bit(o[5], 8)
         /\ o[6] = (IF b = <<>> THEN <<>> ELSE <<Find(a, b)>>)
    [] o[1] = "j_eq" -> LET a == Get(env[o[2]], o[3]) b == Src(env, o[4]) IN
         \* (arrays and objects are equal only if they share storage)
         IF a[1] \in {"a", "o"} \/ b[1] \in {"a", "o"} THEN o[5] = 1 => a = b ELSE (o[5] = 1) <=> a = b
    [] o[1] = "j_erase" -> LET had == IF Idx(Get(env[o[2]], o[3])[2], o[4][2]) = 0 THEN 0 ELSE 1 IN o[5] = had /\ o[6][1] = had
    [] o[1] = "j_text" -> o[6][1] = 1
    [] OTHER -> TRUE
(* what an operation does to the values *)
After(env, o) ==
  LET n == o[1] a == o[2] IN
  IF SubSeq(n, 1, 2) # "j_" THEN
    LET S(x) == env[x][2] W(b) == [env EXCEPT ![a] = Str(b)] IN
    CASE n \in {"new"} -> W(o[6])
      [] n = "copy" -> W(S(o[3]))
      [] n = "sub" -> W(PerlSub(S(o[3]), o[4], o[5]))
      [] n = "slice" -> W(Slice(S(o[3]), o[4], o[5]))
      [] n = "app" -> W(S(a) \o Slice(S(o[3]), o[4], o[5]))
      [] n = "apps" -> W(S(a) \o o[6])
      [] n = "fill" -> W(S(a) \o Rep(o[3], o[4]))
      [] n = "mut" -> W([S(a) EXCEPT ![o[3]] = o[4]])
      [] n = "move" -> IF a = o[3] THEN env ELSE [env EXCEPT ![a] = env[o[3]], ![o[3]] = Str(<<>>)]
      [] n = "swap" -> [env EXCEPT ![a] = env[o[3]], ![o[3]] = env[a]]
      [] n = "lower" -> W(Lower(S(o[3]))) [] n = "upper" -> W(Upper(S(o[3])))
      [] n = "trim" -> W(CASE o[4] = 1 -> LTrim(S(o[3])) [] o[4] = 2 -> RTrim(S(o[3])) [] OTHER -> LTrim(RTrim(S(o[3]))))
      [] n \in {"keep", "read", "cmp"} -> env
  ELSE
    LET p == o[3] v == env[a] x == Get(v, p) W(y) == [env EXCEPT ![a] = Put(v, p, y)]
        arr == IF x[1] = "a" THEN x[2] ELSE <<>> obj == IF x[1] = "o" THEN x[2] ELSE <<>> s == Src(env, o[4]) k == o[5] IN
    CASE n = "j_store" -> W(s)
      [] n = "j_push" -> W(<<"a", Append(arr, s)>>)
      [] n = "j_resize" -> W(<<"a", [i \in 1..k |-> IF i <= Len(arr) THEN arr[i] ELSE Null]>>)
      [] n = "j_insert" -> W(<<"a", SubSeq(arr, 1, k) \o <<s>> \o SubSeq(arr, k + 1, Len(arr))>>)
      [] n = "j_cut" -> W(<<"a", SubSeq(arr, 1, k) \o SubSeq(arr, o[6][1] + 1, Len(arr))>>)
      [] n = "j_erase" -> W(<<"o", Drop(obj, o[4][2])>>)
      [] n = "j_clear" -> W(IF x[1] \in {"a", "o"} THEN <<x[1], <<>>>> ELSE Null)
      [] n = "j_merge" -> \* (null merged with an empty object may become either)
                           W(IF s = Null \/ (x = Null /\ s[2] = <<>> /\ o[6][1] = 0) THEN x ELSE <<"o", SetAll(obj, s[2])>>)
      [] n = "j_add" -> W(<<IF x = Null THEN "i" ELSE x[1], (IF x = Null THEN 0 ELSE x[2]) + k * s[2]>>)
      [] n = "j_swap" -> [env EXCEPT ![a] = env[o[4][2]], ![o[4][2]] = env[a]]
      [] n = "j_move" -> [env EXCEPT ![a] = env[o[4][2]], ![o[4][2]] = Null]
      [] n = "j_nth" -> W(IF x[1] = "a" THEN <<"a", [arr EXCEPT ![k + 1] = s]>> ELSE <<"o", [obj EXCEPT ![k + 1][2] = s]>>)
      [] n = "j_to_s" -> [env EXCEPT ![k] = IF x = Null THEN Str(<<>>) ELSE x]
      [] n = "j_from_s" -> W(s)
      [] n = "j_apps" -> W(Str(x[2] \o env[k][2]))
      [] n = "j_mut0" -> W(Str([x[2] EXCEPT ![1] = 77]))
      [] n = "j_text" -> [env EXCEPT ![k] = x]
      [] n = "j_array" -> [env EXCEPT ![o[6][1]] = <<"a", <<v, env[k], <<"i", 1>>>>>>]
      [] n \in {"j_keep", "j_eq"} -> env
RECURSIVE Run(_, _, _)
Run(env, p, i) == IF i > Len(p) THEN TRUE
  ELSE LET o == p[i] e == After(env, o) c == o[7] IN
    /\ Answer(env, o)
    \* exactly the values that should have changed did, and to what they should
    /\ e = [v \in 1..9 |-> LET I == {j \in 1..Len(c) : c[j][1] = v} IN IF I = {} THEN env[v] ELSE c[CHOOSE j \in I : TRUE][2]]
    /\ Run(e, p, i + 1)
Ok(e) == Run(Empty, e.p, 1) /\ e.left = 0
Init == h \in 1..Len(H) /\ judged = FALSE
Next == ~judged /\ judged' = TRUE /\ h' = h
Spec == Init /\ [][Next]_<<h, judged>>
Explained == judged => Ok(H[h])
=============================================================================
