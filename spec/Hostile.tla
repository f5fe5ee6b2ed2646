-------------------------------- MODULE Hostile --------------------------------
(* Data from others and what a program does with it (P16).  Every value has  *)
(* a type; every operation takes a value of one type and returns a value of  *)
(* another, or an error.  Nothing else ever happens: a call that began ends, *)
(* with one of the two.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* operation -> type it takes, type it gives ("none": just an answer)
Op == [
  parse      |-> <<"text", "token">>,    chaintext |-> <<"text", "chain">>,    put       |-> <<"text", "cid">>,
  validate   |-> <<"token", "none">>,    check     |-> <<"token", "none">>,    encode    |-> <<"token", "text">>,
  tocid      |-> <<"token", "cid">>,     window    |-> <<"token", "none">>,    look      |-> <<"token", "none">>,
  toipld     |-> <<"token", "ipld">>,    chaintok  |-> <<"token", "chain">>,   delegate  |-> <<"token", "token">>,
  reduce     |-> <<"chain", "none">>,    show      |-> <<"chain", "none">>,
  totoken    |-> <<"ipld", "token">>,    tocbor    |-> <<"ipld", "cbor">>,
  fromcbor   |-> <<"cbor", "ipld">>,
  resolve    |-> <<"did", "key">>,       prin      |-> <<"did", "prin">>,      address   |-> <<"did", "token">>,  asdid |-> <<"did", "none">>,
  keyshow    |-> <<"key", "none">>,      verify    |-> <<"key", "none">>,      sign      |-> <<"key", "none">>,   issue |-> <<"key", "token">>,
  prinshow   |-> <<"prin", "did">>,      princbor  |-> <<"prin", "prin">>,
  mkkey      |-> <<"keybytes", "key">>,  keydid    |-> <<"keybytes", "did">>,
  sigdecode  |-> <<"varsig", "none">>,   sigcbor   |-> <<"varsig", "varsig">>, sigtoken  |-> <<"varsig", "token">>,
  fetch      |-> <<"cid", "text">>,      chaincid  |-> <<"cid", "chain">>,     cite      |-> <<"cid", "token">>,
  interpret  |-> <<"capability", "none">>, claim   |-> <<"capability", "token">>,
  convert    |-> <<"json", "caps">>,     deserial  |-> <<"json", "caps">>,     caveat    |-> <<"json", "none">>,  fact |-> <<"json", "token">>,
  list       |-> <<"caps", "none">>,     grant     |-> <<"caps", "token">>,
  build      |-> <<"request", "token">>,
  name       |-> <<"name", "none">> ]
Types == ({ Op[o][1] : o \in DOMAIN Op } \cup { Op[o][2] : o \in DOMAIN Op }) \ {"none"}
Sources == { "text", "cbor", "did", "keybytes", "varsig", "cid", "capability", "json", "request", "name" }

VARIABLES vals,      \* type of every value there ever was; "dead" if the call that should have given it failed
          pending    \* the call in progress, or <<>>
vars == <<vals, pending>>
Init == vals = <<>> /\ pending = <<>>
Make(ty) == pending = <<>> /\ vals' = Append(vals, ty) /\ UNCHANGED pending
Call(o, k) == pending = <<>> /\ k \in DOMAIN vals /\ vals[k] = Op[o][1] /\ pending' = <<o, k>> /\ UNCHANGED vals
Return(r) == /\ pending # <<>> /\ r \in {"ok", "err"} /\ pending' = <<>>
             /\ vals' = IF Op[pending[1]][2] = "none" THEN vals
                        ELSE Append(vals, IF r = "ok" THEN Op[pending[1]][2] ELSE "dead")

-----------------------------------------------------------------------------
(* Shapes of data: for each source, the aspects in which it can be hostile   *)
(* and the forms of each; the first form of an aspect is the ordinary one.   *)
Shapes == [
  did |-> [ pre   |-> << "did:key:z", "did:key:", "did:", "none", "did:key:zz", "DID:KEY:Z", "space", "did:web:", "cut" >>,
            body  |-> << "b58", "raw", "bad58", "unicode", "empty", "long", "ones", "nul" >>,
            magic |-> << "ed", "rsa", "p256", "none", "half", "bls", "secp", "mark", "zero" >>,
            key   |-> << "good", "empty", "one", "short", "long", "zero", "ff", "rand",
                         "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12" >> ],
  keybytes |-> [ alg |-> << "ed", "rsa", "p256" >>,
            key   |-> << "good", "empty", "one", "short", "long", "zero", "ff", "rand",
                         "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12" >> ],
  text |-> [ iss  |-> << "ed", "rsa", "p256", "badkey", "nodid", "empty", "web", "unicode", "short" >>,
            alg   |-> << "good", "other", "none", "empty", "unicode", "long" >>,
            sig   |-> << "good", "empty", "one", "short", "long", "zero", "ff", "rand", "huge", "rzero", "sbig" >>,
            time  |-> << "open", "zero", "max", "past", "crossed", "future", "imax" >>,
            prf   |-> << "none", "empty", "good", "garbage", "blank", "v0", "identity", "codec", "missing", "many", "notoken",
                         "badutf8", "unicode", "twice", "truncated", "hugedigest" >>,
            cap   |-> << "good", "none", "prf0", "prfall", "prfhuge", "prfbad", "prftext", "mybare", "asbare", "asodd", "unicode",
                         "blank", "emptylist", "manycav", "deepcav", "slash", "long", "percent" >>,
            fct   |-> << "none", "flat", "deep", "wide", "slash", "numbers", "deeper", "nul" >>,
            frame |-> << "ok", "cut", "unicode", "nul", "dots", "nodots", "padded", "huge", "hdrdeep", "hdrdup", "notutf8", "empty", "wall" >> ],
  cbor |-> [ base |-> << "good", "nulls", "full" >>,
            edit  |-> << "none", "flip", "cut", "append", "type", "length", "tag", "deep", "empty", "rand", "cid", "sig", "prin", "cap", "time",
                         "text", "keydup", "float", "undef" >> ],
  varsig |-> [ code |-> << "EdDSA", "RS256", "ES256", "ES384", "ES512", "ES256K", "bls", "eip", "nonstd", "zero", "max", "overlong", "cut", "empty" >>,
            len   |-> << "exact", "zero", "less", "plus1", "more", "max", "overlong", "cut", "none" >>,
            body  |-> << "64", "0", "1", "ff", "256", "70000" >> ],
  cid |-> [ form  |-> << "token", "missing", "garbage", "text16", "notoken", "badutf8", "codec", "v0", "identity", "empty", "hugedigest", "chain", "deep40", "doubled5" >> ],
  capability |-> [ res |-> << "good", "wild", "star", "my", "mystar", "as", "asstar", "asnokey", "asdots", "asblank", "prf", "prfstar", "prfhuge",
                              "blank", "nourl", "unicode", "colons", "host", "long", "percent", "nested", "mixed" >>,
            abil  |-> << "good", "star", "blank", "delegate", "unicode", "long", "nul" >>,
            cav   |-> << "none", "empty", "some", "null", "list", "text", "number", "deep", "slash" >> ],
  json |-> [ form |-> << "good", "null", "text", "number", "list", "empty", "reslist", "abnull", "abtext", "cavnull", "cavtext", "cavmap", "emptyab",
                         "emptycav", "deep", "wide", "mixed", "unicode", "slash" >> ],
  request |-> [ key |-> << "private", "public", "nodid", "badsign", "none" >>,
            aud   |-> << "did", "none", "blank", "unicode", "long" >>,
            life  |-> << "none", "zero", "max", "nearmax", "exp", "expmax", "both" >>,
            nbf   |-> << "none", "zero", "max" >>,
            fct   |-> << "none", "null", "deep", "nan", "slash", "bytes", "map", "fails", "wide" >>,
            cap   |-> << "none", "good", "null", "text", "list", "number", "deep", "slash" >>,
            prf   |-> << "none", "good", "foreign", "delegate", "many", "broken" >> ],
  name |-> [ form |-> << "EdDSA", "ES256K", "eddsa", "empty", "unicode", "long", "null", "number" >> ] ]

Aspects(src) == DOMAIN Shapes[src]
Forms(src, a) == { Shapes[src][a][i] : i \in DOMAIN Shapes[src][a] }
Plain(src) == [ a \in Aspects(src) |-> Shapes[src][a][1] ]
=============================================================================
