------------------------------- MODULE MCBuild -------------------------------
(* Every short sequence of builder calls: the request folded from the calls *)
(* is the one described declaratively from the whole sequence, and          *)
(* independent calls commute.  Each sequence is emitted for replay, on one   *)
(* handle as it is and on another in reverse.                               *)
EXTENDS Builder, Json

CONSTANTS MaxCalls, Pre       \* Pre: calls made first in every sequence
VARIABLES os

C(o, n, x, y, c) == [ o |-> o, h |-> 1, n |-> n, x |-> x, y |-> y, c |-> c ]
Alphabet ==
    { C("iss", 0, x, "", <<>>) : x \in {"A", "B"} } \cup { C("aud", 0, x, "", <<>>) : x \in {"B", "C"} }
    \cup { C("life", n, "", "", <<>>) : n \in {1, 2} } \cup { C("exp", n, "", "", <<>>) : n \in {1, 2} }
    \cup { C("nbf", n, "", "", <<>>) : n \in {1, 2} }
    \cup { C("fact", 0, x, y, <<>>) : x \in {"k1", "k2"}, y \in {"v1", "v2"} } \cup { C("fact", 0, "k1", "bad", <<>>) }
    \cup { C("nonce", 0, "", "", <<>>) }
    \cup { C("wit", n, "dflt", "", <<>>) : n \in {1, 2} } \cup { C("wit", 1, "sha", "", <<>>) }
    \cup { C("del", n, "dflt", "", <<>>) : n \in {1, 2} }
    \cup { C("claim", 0, "", "", << <<"r1", "a1", "c1">> >>), C("claim", 0, "", "", << <<"r1", "a1", "{}">> >>),
           C("claim", 0, "", "", << <<"r2", "a1", "c1">>, <<"r1", "a1", "c1">> >>),
           C("claim", 0, "", "", << <<"r1", "a1", "bad">> >>), C("claim", 0, "", "", <<>>) }

PreQ == << C("iss", 0, "A", "", <<>>), C("aud", 0, "B", "", <<>>) >>
PreNone == <<>>
Init == os = <<>> /\ BInit
Next == Len(os) < MaxCalls /\ \E o \in Alphabet : os' = Append(os, o) /\ UNCHANGED vars
Spec == Init /\ [][Next]_<<os, vars>>

All == Pre \o os
R == Fold(Empty, All)

-----------------------------------------------------------------------------
\* the same request, said about the sequence as a whole
LastOf(k) == LET S == { i \in DOMAIN All : All[i].o = k } IN
             IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
LastN(k) == IF LastOf(k) = 0 THEN 0 ELSE All[LastOf(k)].n
LastX(k) == IF LastOf(k) = 0 THEN "" ELSE All[LastOf(k)].x
IsPrf(o) == o.o \in {"wit", "del"}
Prfs == LET s == SelectSeq(All, IsPrf) IN [ i \in DOMAIN s |-> <<s[i].n, Hash(s[i].x)>> ]
Before(i) == Cardinality({ j \in 1..(i - 1) : IsPrf(All[j]) })
Declared ==
    /\ R.iss = LastX("iss") /\ R.aud = LastX("aud")
    /\ R.life = LastN("life") /\ R.exp = LastN("exp") /\ R.nbf = LastN("nbf")
    /\ R.nonce = (LastOf("nonce") # 0)
    /\ R.prf = Prfs
    /\ FactSet(R) = { <<All[i].x, All[i].y>> : i \in { i \in DOMAIN All :
            All[i].o = "fact" /\ All[i].y # "bad" /\
            \A j \in (i + 1)..Len(All) : ~(All[j].o = "fact" /\ All[j].x = All[i].x /\ All[j].y # "bad") } }
    /\ R.caps = Flat([ i \in DOMAIN All |-> IF All[i].o = "claim" THEN All[i].c
                                            ELSE IF All[i].o = "del" THEN << Redel(Before(i)) >> ELSE <<>> ])
    /\ ExpWhy(R) = IF LastOf("exp") # 0 THEN "e" \o ToString(LastN("exp"))
                   ELSE IF LastOf("life") # 0 THEN "l" \o ToString(LastN("life")) ELSE "none"

\* neighbours that concern different things may be exchanged
Indep(a, b) == \/ a.o # b.o /\ ~(IsPrf(a) /\ IsPrf(b)) /\ ~({a.o, b.o} \subseteq {"del", "claim"})
               \/ a.o = "fact" /\ b.o = "fact" /\ a.x # b.x
Swap(i) == [ j \in DOMAIN All |-> IF j = i THEN All[i + 1] ELSE IF j = i + 1 THEN All[i] ELSE All[j] ]
Commutes == \A i \in 1..(Len(All) - 1) :
    Indep(All[i], All[i + 1]) => Canon(Fold(Empty, Swap(i)), "t") = Canon(R, "t")

RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), [ Head(s) EXCEPT !.h = 2 ])
B(o, h, n) == [ o |-> o, h |-> h, n |-> n, x |-> "", y |-> "", c |-> <<>> ]
Emit == PrintT("SCEN " \o ToJson([ ops |->
            << B("build", 3, 0) >> \o All \o << B("clone", 1, 3), B("build", 1, 0) >> \o
            (IF BuildOk(R) THEN << B("sign", 0, 1) >> ELSE <<>>) \o
            Rev(All) \o << B("build", 2, 0) >> \o
            (IF BuildOk(R) THEN << B("sign", 0, 2), B("sign", 0, 1), B("build", 3, 0), B("sign", 0, 3) >> ELSE <<>>) ]))
=============================================================================
