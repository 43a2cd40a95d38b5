---------------------------- MODULE InputFaults ----------------------------
(***************************************************************************)
(* Mistakes people make in input files: small changes of documents.        *)
(***************************************************************************)
EXTENDS InputDoc, SequencesExt, Randomization

CONSTANT Sample

(* elements of a document, by the sequence of child numbers leading to them *)
RECURSIVE Paths(_)
Paths(n) == {<<>>} \cup UNION { { <<i>> \o p : p \in Paths(n.ch[i]) } : i \in DOMAIN n.ch }
RECURSIVE Node(_, _)
Node(n, p) == IF p = <<>> THEN n ELSE Node(n.ch[p[1]], Tail(p))
RECURSIVE TypeAt(_, _, _)
TypeAt(n, type, p) ==
  IF p = <<>> THEN type
  ELSE LET c == n.ch[p[1]] IN
       IF c.tag \in DOMAIN Types[type].kids THEN TypeAt(c, Types[type].kids[c.tag], Tail(p)) ELSE "anything"
RECURSIVE Put(_, _, _)
Put(n, p, m) == IF p = <<>> THEN m ELSE [n EXCEPT !.ch[p[1]] = Put(@, Tail(p), m)]

(* ------------------------------- changes ------------------------------- *)
WithAttr(n, a, v) ==
  IF a \in Attrs(n) THEN [n EXCEPT !.at = [ i \in DOMAIN @ |-> IF @[i][1] = a THEN <<a, v>> ELSE @[i] ]]
  ELSE [n EXCEPT !.at = Append(@, <<a, v>>)]
WithoutAttr(n, a) == [n EXCEPT !.at = SelectSeq(@, LAMBDA x : x[1] # a)]
Element(tag, word) == [tag |-> tag, at |-> <<>>, ch |-> <<>>, tx |-> IF word = "" THEN <<>> ELSE <<word>>]

(* a fault is <<kind, path, place, detail>> *)
Apply(root, f) ==
  LET kind == f[1]
      n == Node(root, f[2])
      k == f[3]
      v == f[4]
      change ==
        CASE kind = "drop child"    -> [n EXCEPT !.ch = RemoveAt(@, k)]
          [] kind = "repeat child"  -> [n EXCEPT !.ch = InsertAt(@, k, @[k])]
          [] kind = "rename child"  -> [n EXCEPT !.ch[k].tag = v]
          [] kind = "swap children" -> [n EXCEPT !.ch = Reverse(@)]
          [] kind = "add child"     -> [n EXCEPT !.ch = Append(@, Element(k, v))]
          [] kind = "drop attribute" -> WithoutAttr(n, k)
          [] kind = "attribute"     -> WithAttr(n, k, v)
          [] kind = "drop word"     -> [n EXCEPT !.tx = RemoveAt(@, k)]
          [] kind = "repeat word"   -> [n EXCEPT !.tx = InsertAt(@, k, @[k])]
          [] kind = "word"          -> [n EXCEPT !.tx[k] = v]
          [] kind = "add word"      -> [n EXCEPT !.tx = Append(@, v)]
          [] kind = "no words"      -> [n EXCEPT !.tx = <<>>]
  IN  Put(root, f[2], change)

Numbers == {"", "x", "0", "-1", "1", "2", "3", "1.5", "1e1", "0.5", "-0.5", "+2", "007", "2.0", "INF", "-INF", "NaN", "nan", "inf", "0x10", "1,5", "1e", "."}
Words == {"", "x", "0", "1", "-1", "+1", "neutron", "photon", "surface", "cell delta", "cell"}

RECURSIVE NamesIn(_)
NamesIn(n) == { n.at[i][2] : i \in { j \in DOMAIN n.at : n.at[j][1] = "name" } } \cup UNION { NamesIn(n.ch[i]) : i \in DOMAIN n.ch }

ValuesOf(d, ty) ==
  CASE ty \in {"double", "positive", "nonneg", "integer"} -> Numbers
    [] ty \in {"particle", "tracking", "sense"} -> Words
    [] ty \in {"name", "string"} -> NamesIn(d.root) \cup {"", "nowhere"}
    [] ty = "uri" -> { d.files[i].name : i \in DOMAIN d.files } \cup {"", "nowhere.hdf5"} \cup { d.others[i] : i \in DOMAIN d.others }

(* places in a list where words are changed *)
Places(n) == { k \in DOMAIN n.tx : k <= 2 \/ k = Len(n.tx) }

(* up to Sample of the possible mistakes of one sort in one place (0: all) *)
Up(F, n) == IF n = 0 \/ Cardinality(F) <= n THEN F ELSE RandomSubset(n, F)
Some(F) == Up(F, Sample)
More(F) == Up(F, 3 * Sample)

FaultsAt(d, p) ==
  LET n == Node(d.root, p)
      type == TypeAt(d.root, "minimc", p)
      T == Types[type]
      kids == DOMAIN T.kids
      texts == { t \in kids : Types[T.kids[t]].m \in {"text", "list"} }
      K == DOMAIN n.ch
  IN  Some({ <<"drop child", p, k, "">> : k \in K })
      \cup Some({ <<"repeat child", p, k, "">> : k \in K })
      \cup Some({ <<"rename child", p, k, t>> : k \in K, t \in kids \cup {"foo"} })
      \cup (IF Len(n.ch) > 1 THEN { <<"swap children", p, 0, "">> } ELSE {})
      \cup Some(UNION { { <<"add child", p, t, v>> : v \in ValuesOf(d, Types[T.kids[t]].item) } : t \in texts } \cup { <<"add child", p, "foo", "1">> })
      \cup Some({ <<"drop attribute", p, a, "">> : a \in Attrs(n) })
      \cup UNION { More({ <<"attribute", p, a, v>> : v \in ValuesOf(d, T.at[a]) }) : a \in DOMAIN T.at }
      \cup Some({ <<"attribute", p, "foo", "1">>, <<"add word", p, 0, "1">> })
      \cup Some({ <<"drop word", p, k, "">> : k \in Places(n) } \cup { <<"repeat word", p, k, "">> : k \in Places(n) })
      \cup (IF T.m \in {"text", "list"}
            THEN UNION { More({ <<"word", p, k, v>> : v \in ValuesOf(d, T.item) \ {""} }) : k \in Places(n) }
                 \cup Some({ <<"add word", p, 0, v>> : v \in ValuesOf(d, T.item) \ {""} } \cup { <<"no words", p, 0, "">> })
            ELSE {})
Faults(d) == UNION { FaultsAt(d, p) : p \in Paths(d.root) }
=============================================================================
