------------------------------- MODULE LifeMC -------------------------------
(***************************************************************************)
(* Mechanism model for C10/C11: an object owns a vector and a support that *)
(* points to a vector.  Copying copies the pointer too and has to set it   *)
(* to the own vector; swapping exchanges the supports and has to set both; *)
(* loading reads the support and attaches it.  A stream holds components.  *)
(* The invariant: whatever was done, a support points to the vector of its *)
(* own object and was built for what that vector holds (Attached), which   *)
(* is the content the abstract history gives (Refines).                    *)
(* The same module generates the histories that are replayed.              *)
(***************************************************************************)
EXTENDS Life, FiniteSets, TLC
CONSTANTS S, V, F, MaxStream, Ops, Gen, K
VARIABLES st, vec, sup, bytes, rd, disk, hist
vars == <<st, vec, sup, bytes, rd, disk, hist>>
Null == [at |-> 0, of |-> 0]
Init == /\ st = Fresh(S, F) /\ vec = [s \in 1 .. S |-> Dead] /\ sup = [s \in 1 .. S |-> Null]
        /\ bytes = <<>> /\ rd = 0 /\ disk = [f \in 1 .. F |-> <<>>] /\ hist = <<>>
\* what a load leaves in slot a when it reads <<component 1, component 2>>
Attach(a, of) == [at |-> a, of |-> of]
Mech(o) ==
  LET c == o[1] a == o[2] b == o[3] IN
  CASE c = 1 -> vec' = [vec EXCEPT ![a] = 0] /\ sup' = [sup EXCEPT ![a] = Attach(a, 0)] /\ UNCHANGED <<bytes, rd, disk>>
    [] c = 2 -> vec' = [vec EXCEPT ![a] = b] /\ sup' = [sup EXCEPT ![a] = Attach(a, b)] /\ UNCHANGED <<bytes, rd, disk>>
    [] c \in {3, 5} -> (IF a = b THEN UNCHANGED <<vec, sup>> ELSE vec' = [vec EXCEPT ![a] = vec[b]] /\ sup' = [sup EXCEPT ![a] = Attach(a, sup[b].of)]) /\ UNCHANGED <<bytes, rd, disk>>
    [] c \in {4, 6} -> (IF a = b THEN UNCHANGED <<vec, sup>> ELSE vec' = [vec EXCEPT ![a] = vec[b], ![b] = Moved] /\ sup' = [sup EXCEPT ![a] = Attach(a, sup[b].of), ![b] = Null]) /\ UNCHANGED <<bytes, rd, disk>>
    [] c = 7 -> vec' = [vec EXCEPT ![a] = vec[b], ![b] = vec[a]] /\ sup' = [sup EXCEPT ![a] = Attach(a, sup[b].of), ![b] = Attach(b, sup[a].of)] /\ UNCHANGED <<bytes, rd, disk>>
    [] c = 8 -> vec' = [vec EXCEPT ![a] = Dead] /\ sup' = [sup EXCEPT ![a] = Null] /\ UNCHANGED <<bytes, rd, disk>>
    [] c = 9 -> bytes' = bytes \o <<vec[a], sup[a].of>> /\ UNCHANGED <<vec, sup, rd, disk>>
    [] c = 10 -> rd' = 0 /\ UNCHANGED <<vec, sup, bytes, disk>>
    [] c = 11 -> vec' = [vec EXCEPT ![a] = bytes[rd + 1]] /\ sup' = [sup EXCEPT ![a] = Attach(a, bytes[rd + 2])] /\ rd' = rd + 2 /\ UNCHANGED <<bytes, disk>>
    [] c = 12 -> bytes' = <<>> /\ rd' = 0 /\ UNCHANGED <<vec, sup, disk>>
    [] c = 13 -> disk' = [disk EXCEPT ![b] = <<vec[a], sup[a].of>>] /\ UNCHANGED <<vec, sup, bytes, rd>>
    [] c = 14 -> (IF Loads(st, b, o[4]) THEN vec' = [vec EXCEPT ![a] = disk[b][1]] /\ sup' = [sup EXCEPT ![a] = Attach(a, disk[b][2])] ELSE UNCHANGED <<vec, sup>>) /\ UNCHANGED <<bytes, rd, disk>>
    [] OTHER -> UNCHANGED <<vec, sup, bytes, rd, disk>>
Cand == UNION {CASE c = 1 -> {<<1, a, 0, 0>> : a \in 1 .. S}
                 [] c = 2 -> {<<2, a, v, 0>> : a \in 1 .. S, v \in 1 .. V}
                 [] c \in {3, 4, 5, 6, 7} -> {<<c, a, b, 0>> : a \in 1 .. S, b \in 1 .. S}
                 [] c \in {8, 9, 11} -> {<<c, a, 0, 0>> : a \in 1 .. S}
                 [] c \in {10, 12} -> {<<c, 0, 0, 0>>}
                 [] c \in {13, 14} -> {<<c, a, f, k>> : a \in 1 .. S, f \in 1 .. F, k \in 0 .. 1}
                 [] c = 15 -> {<<15, 0, f, 0>> : f \in 1 .. F} : c \in Ops}
\* generated histories: not too many restarts, and most moves are between different slots
Useful(o) == \/ ~Gen
             \/ /\ o[1] = 1 => Len(hist) % 3 = 0
                /\ o[1] \in {8, 12} => Len(hist) % 4 = 3
                /\ o[1] \in {5, 6, 7} /\ o[2] = o[3] => Len(hist) % 5 = 0
                /\ o[1] = 10 => st.cur > 0
                /\ o[1] = 15 => Len(hist) % 9 = 8
                /\ o[1] = 2 => Len(hist) % 4 # 1
Next == /\ ~Gen \/ Len(hist) < K
        /\ \E o \in Cand : /\ Pre(st, o) /\ (o[1] = 9 => Len(st.strm) < MaxStream) /\ Useful(o)
                           /\ st' = Eff(st, o) /\ Mech(o)
                           /\ hist' = IF Gen THEN Append(hist, o) ELSE hist
Spec == Init /\ [][Next]_vars
Refines == /\ vec = st.val
           /\ bytes = [i \in 1 .. 2 * Len(st.strm) |-> st.strm[(i + 1) \div 2]] /\ rd = 2 * st.cur
           /\ \A f \in 1 .. F : st.file[f].v # Dead => disk[f] = <<st.file[f].v, st.file[f].v>>
Attached == \A s \in 1 .. S : Has2(st, s) => sup[s] = [at |-> s, of |-> vec[s]]
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
