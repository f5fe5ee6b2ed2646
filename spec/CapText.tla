------------------------------- MODULE CapText -------------------------------
(* Capability text, character by character (P09).                           *)
(*                                                                          *)
(* A resource is a URI.  `my:` and `as:<did:key>:` prefix another resource; *)
(* a path that is exactly "*" is the wildcard of its form.  The scopes are  *)
(* those of the harness's semantics: fs (absolute paths), mb (one name),    *)
(* and of the library's own prf semantics ("*" or a number, no wildcard).   *)
(* Texts are over letters, digits and : / * ? # - (nothing that URI parsing *)
(* would normalise).                                                        *)
EXTENDS Caps, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE IF i > Len(s) THEN s ELSE SubSeq(s, 1, i)

\* position of the first character of s that is in C, or 0
First(s, C) == LET H == { i \in 1..Len(s) : Ch(s, i) \in C }
               IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i <= j

Lower == { "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z" }
Digit == { "0","1","2","3","4","5","6","7","8","9" }
SchemeCh == Lower \cup Digit \cup { "+", "-", "." }

NoUri == [ scheme |-> "", auth |-> FALSE, path |-> "", full |-> "" ]

\* A URI reference without a base: scheme ":" ...; NoUri when it is not one
Uri(s) ==
    LET c == First(s, {":"}) IN
    IF c < 2 \/ ~(Ch(s, 1) \in Lower) \/ \E i \in 1..(c - 1) : ~(Ch(s, i) \in SchemeCh)
    THEN NoUri
    ELSE LET rest == From(s, c + 1)
             cut  == First(rest, {"?", "#"})
             body == IF cut = 0 THEN rest ELSE Upto(rest, cut - 1)
             sl   == First(From(body, 3), {"/"})        \* end of the authority, if there is one
             host == IF Upto(body, 2) # "//" THEN "" ELSE IF sl = 0 THEN From(body, 3) ELSE Upto(From(body, 3), sl - 1)
             path == IF Upto(body, 2) # "//" THEN body ELSE IF sl = 0 THEN "" ELSE From(body, sl + 2)
         IN [ scheme |-> Upto(s, c - 1), auth |-> host # "", path |-> path, full |-> rest ]

RECURSIVE Split(_, _)
Split(s, ch) == LET i == First(s, {ch}) IN
                IF i = 0 THEN << s >> ELSE << Upto(s, i - 1) >> \o Split(From(s, i + 1), ch)

NonEmpty(x) == x # ""

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(From(s, 2)) ELSE s
\* compared as numbers: as long, and not greater digit by digit
DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE AtMost(_, _)
AtMost(s, t) == \/ s = ""
                \/ DigitVal(Ch(s, 1)) < DigitVal(Ch(t, 1))
                \/ Ch(s, 1) = Ch(t, 1) /\ AtMost(From(s, 2), From(t, 2))
Largest == "18446744073709551615"
Digits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digit
Fits(s) == LET n == StripZeros(s) IN Len(n) < Len(Largest) \/ (Len(n) = Len(Largest) /\ AtMost(n, Largest))
\* a number may have a plus sign
Unsigned(s) == IF Len(s) > 1 /\ Ch(s, 1) = "+" THEN From(s, 2) ELSE s
IsNum(s) == Digits(Unsigned(s)) /\ Fits(Unsigned(s))

None == [ ok |-> FALSE, wild |-> FALSE, path |-> <<>> ]
Scoped(p) == [ ok |-> TRUE, wild |-> FALSE, path |-> p ]
Wild == [ ok |-> TRUE, wild |-> TRUE, path |-> <<>> ]

\* the application's scopes
Scope(fam, u) ==
    CASE fam = "fs"  -> IF u.scheme = "fs" /\ ~u.auth /\ Upto(u.path, 1) = "/"
                        THEN Scoped(SelectSeq(Split(u.path, "/"), NonEmpty)) ELSE None
      [] fam = "mb"  -> IF u.scheme = "mb" /\ ~u.auth /\ u.path # "" /\ First(u.path, {":", "/"}) = 0
                        THEN Scoped(<< u.path >>) ELSE None
      [] fam = "prf" -> IF u.scheme # "prf" THEN None
                        ELSE IF u.path = "*" THEN Scoped(<<>>)
                        ELSE IF IsNum(u.path) THEN Scoped(<< StripZeros(Unsigned(u.path)) >>) ELSE None

\* what follows my: or as:<did>: (or the whole text)
Kind(fam, s) ==
    LET u == Uri(s) IN
    IF u = NoUri THEN None
    ELSE IF u.path = "*" /\ fam # "prf" THEN Wild
    ELSE Scope(fam, u)

Inner(fam, s) == IF s = "*" THEN Wild ELSE Kind(fam, s)

\* <<did, what follows it>> for a text "did:key:<value>:<rest>"
DidPart(s) ==
    LET p == Split(s, ":") IN
    IF Len(p) < 3 \/ p[1] # "did" \/ p[2] # "key" THEN << "", "" >>
    ELSE LET skip == Len(p[1]) + Len(p[2]) + Len(p[3]) + 4
         IN << "did:key:" \o p[3], From(s, skip) >>

Resource(fam, s) ==
    LET u == Uri(s)
        r(f, d, k) == [ ok |-> k.ok, form |-> f, did |-> d, wild |-> k.wild, path |-> k.path ]
    IN CASE u = NoUri -> r("", "", None)
         [] u.scheme = "my" -> r("my", "", Inner(fam, u.full))
         [] u.scheme = "as" -> LET d == DidPart(u.full)
                               IN IF d[1] = "" THEN r("", "", None) ELSE r("as", d[1], Inner(fam, d[2]))
         [] OTHER -> r("res", "", Kind(fam, s))

Abilities(fam) == CASE fam = "fs"  -> << "fs/read", "fs/append", "fs/admin" >>
                    [] fam = "mb"  -> << "mb/send", "mb/own" >>
                    [] fam = "prf" -> << "ucan/DELEGATE" >>

Rank(fam, ab) == LET A == Abilities(fam)
                     H == { i \in DOMAIN A : A[i] = ab }
                 IN IF H = {} THEN -1 ELSE (CHOOSE i \in H : TRUE) - 1

NoView == [ ok |-> FALSE ]

\* the view a text has under a semantics; caveats are carried along as they are
Meaning(fam, text, ability) ==
    LET r == Resource(fam, text)
        a == Rank(fam, ability)
    IN IF ~r.ok \/ a < 0 THEN NoView
       ELSE [ ok |-> TRUE, form |-> r.form, did |-> r.did, wild |-> r.wild, path |-> r.path, ab |-> a ]

-----------------------------------------------------------------------------
(* Rendering, the inverse of Meaning up to normalisation of the text *)
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Join(Tail(p))

RenderScope(fam, p) == CASE fam = "fs"  -> "fs:/" \o Join(p)
                         [] fam = "mb"  -> "mb:" \o p[1]
                         [] fam = "prf" -> IF p = <<>> THEN "prf:*" ELSE "prf:" \o p[1]

Render(fam, v) ==
    LET k == IF v.wild THEN "*" ELSE RenderScope(fam, v.path)
    IN CASE v.form = "res" -> k
         [] v.form = "my"  -> "my:" \o k
         [] v.form = "as"  -> "as:" \o v.did \o ":" \o k
=============================================================================
