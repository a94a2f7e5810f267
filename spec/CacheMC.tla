------------------------------ MODULE CacheMC -------------------------------
(***************************************************************************)
(* Construction through a cache of intermediate files (C23).               *)
(*                                                                         *)
(* A cache (a directory, an id and a file map) holds for every key no      *)
(* file, the right array, or a wrong one (made from a missing or wrong     *)
(* source).  Building an index of a given kind runs the library's steps:   *)
(* a step whose file exists is skipped, another one makes its file from    *)
(* its sources and registers it; the index is read from the files it       *)
(* needs; with del the registered files are removed.  Between builds the   *)
(* user drops files, starts over with an empty file map, or with a new id. *)
(*                                                                         *)
(* Checked from every subset of cached files: no wrong file is ever made,  *)
(* every index is right, a build that deletes leaves no new file, one that *)
(* keeps registers every new file, and every registered file exists.       *)
(* Refill = FALSE is the construction of suffix trees as it was: with the  *)
(* csa cached, the files it was made of were not made again - then the     *)
(* invariants fail (cached csa, missing sa).                               *)
(* With Gen, TLC generates histories replayed on the library.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Refill, Gen, K, Fresh
VARIABLES have, reg, out, new, lost, hist
vars == <<have, reg, out, new, lost, hist>>
TextK == 1  SaK == 2  BwtK == 3  IsaK == 4  PsiK == 5  CsaK == 6  LcpK == 7
Keys == 1 .. 7
CsaWt == 1  CsaSada == 2  CsaBit == 3  Lcp == 4  CstTree == 5  CstSada == 6  CstTree2 == 7  Wt == 8
Kinds == 1 .. 8
None == 0  Right == 1  Wrong == 2
\* a construction in progress: files h, registered keys r
Ok(s, D) == \A d \in D : s.h[d] = Right
Make(s, k, D) == [h |-> IF s.h[k] # None THEN s.h ELSE [s.h EXCEPT ![k] = IF Ok(s, D) THEN Right ELSE Wrong], r |-> s.r \cup {k}]
Reg(s, D) == [s EXCEPT !.r = @ \cup {k \in D : s.h[k] # None}]
Base(s) == Make(Make(Make(s, TextK, {}), SaK, {TextK}), BwtK, {TextK, SaK})
WithIsa(s) == IF s.h[IsaK] # None THEN s ELSE Make(s, IsaK, {SaK})
Lcps(s) == Make(s, LcpK, {TextK, SaK})
Csa(s) == IF s.h[CsaK] # None /\ ~Refill THEN Make(s, CsaK, {})
          ELSE IF s.h[CsaK] # None THEN Make(Base(s), CsaK, {}) ELSE LET b == Base(s) IN Make(b, CsaK, {SaK, BwtK})
Steps(s, kind) ==
  CASE kind = CsaWt   -> Base(s)
    [] kind = CsaSada -> Make(Base(s), PsiK, {BwtK})
    [] kind = CsaBit  -> WithIsa(Base(s))
    [] kind = Lcp     -> IF s.h[LcpK] # None THEN Reg(s, {LcpK}) ELSE Lcps(Make(Make(s, TextK, {}), SaK, {TextK}))
    [] kind = CstSada -> WithIsa(Lcps(Reg(Csa(s), {TextK, BwtK, SaK})))
    [] kind \in {CstTree, CstTree2} -> Lcps(Reg(Csa(s), {TextK, BwtK, SaK}))
    [] OTHER -> s
Needs(kind) ==
  CASE kind \in {CsaWt} -> {SaK, BwtK} [] kind = CsaSada -> {SaK, BwtK} [] kind = CsaBit -> {TextK, SaK, IsaK}
    [] kind = Lcp -> {LcpK} [] kind = CstTree -> {CsaK, LcpK} [] kind = CstSada -> {CsaK, LcpK, IsaK}
    [] kind = CstTree2 -> {CsaK, LcpK, BwtK} [] OTHER -> {}
Go(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
Build(kind, del) ==
  LET s == Steps([h |-> have, r |-> reg], kind)
      h2 == IF del = 1 THEN [k \in Keys |-> IF k \in s.r THEN None ELSE s.h[k]] ELSE s.h
  IN /\ out' = IF Ok(s, Needs(kind)) THEN Right ELSE Wrong
     /\ have' = h2 /\ reg' = IF del = 1 THEN {} ELSE s.r
     /\ new' = {k \in Keys : h2[k] # None /\ have[k] = None} \ (IF del = 1 THEN {} ELSE s.r)
     /\ lost' = IF del = 1 THEN {} ELSE {k \in s.r : h2[k] = None}
     /\ Go(<<1, kind, del>>)
Drop(k) == /\ have[k] # None /\ have' = [have EXCEPT ![k] = None] /\ reg' = reg \ {k} /\ UNCHANGED <<out, new, lost>> /\ Go(<<2, k, 0>>)
Forget == reg # {} /\ reg' = {} /\ UNCHANGED <<have, out, new, lost>> /\ Go(<<3, 0, 0>>)
Restart == have' = [k \in Keys |-> None] /\ reg' = {} /\ UNCHANGED <<out, new, lost>> /\ Go(<<4, 0, 0>>)
Init == /\ have \in [Keys -> {None, Right}] /\ (Fresh => have = [k \in Keys |-> None])
        /\ reg \in SUBSET {k \in Keys : have[k] # None} /\ (Fresh => reg = {})
        /\ out = Right /\ new = {} /\ lost = {} /\ hist = <<>>
Next == /\ ~Gen \/ Len(hist) < K
        /\ \/ \E kind \in Kinds : \E del \in {0, 1} : (Gen => (del = 0 \/ Len(hist) % 3 = 2)) /\ Build(kind, del)
           \/ \E k \in Keys : Drop(k)
           \/ Forget
           \/ Restart /\ (Gen => Len(hist) % 7 = 6)
Spec == Init /\ [][Next]_vars
NoWrong == out = Right /\ \A k \in Keys : have[k] # Wrong
Clean == new = {} /\ lost = {}
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
