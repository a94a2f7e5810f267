------------------------------ MODULE MapperMC ------------------------------
(***************************************************************************)
(* Mechanism model of int_vector_mapper (C08): two mapper objects and two  *)
(* files.  A file is a stored size (header) and a data area of whole words *)
(* of U elements; an open mapper sees the data area directly, keeps the    *)
(* size in the object only, grows the file in blocks when appending and    *)
(* writes the size back and cuts the file when it is closed.  abs[f] is    *)
(* the sequence a user of file f sees.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS U, Block, MaxLen, Vals, Gen, K
Obj == {1, 2}
File == {1, 2}
VARIABLES hdr, data, m, abs, del, hist
vars == <<hdr, data, m, abs, del, hist>>
NoMap == [f |-> 0, size |-> 0]
Words(n) == U * ((n + U - 1) \div U)
Cut(s, n) == [i \in 1 .. n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Rec(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
Init == /\ hdr = [f \in File |-> 0] /\ data = [f \in File |-> <<>>] /\ m = [o \in Obj |-> NoMap]
        /\ abs = [f \in File |-> <<>>] /\ del = [f \in File |-> FALSE] /\ hist = <<>>
InUse(f) == \E o \in Obj : m[o].f = f
Open(o, f) == m[o].f = 0 /\ ~InUse(f) /\ m' = [m EXCEPT ![o] = [f |-> f, size |-> hdr[f]]] /\ UNCHANGED <<hdr, data, abs, del>>
Set(o, i, v) == LET f == m[o].f IN f # 0 /\ i < m[o].size
  /\ data' = [data EXCEPT ![f][i + 1] = v] /\ abs' = [abs EXCEPT ![f][i + 1] = v] /\ UNCHANGED <<hdr, m, del>>
Push(o, v) == LET f == m[o].f s == m[o].size IN f # 0 /\ s < MaxLen
  /\ data' = [data EXCEPT ![f] = [(IF Len(data[f]) < s + 1 THEN Cut(data[f], Words(s + Block)) ELSE data[f]) EXCEPT ![s + 1] = v]]
  /\ m' = [m EXCEPT ![o].size = s + 1] /\ abs' = [abs EXCEPT ![f] = Append(abs[f], v)] /\ UNCHANGED <<hdr, del>>
\* the contents of new elements are not specified: they are what the data area holds
Resize(o, n) == LET f == m[o].f IN f # 0
  /\ data' = [data EXCEPT ![f] = IF Len(data[f]) # Words(n) THEN Cut(data[f], Words(n)) ELSE data[f]]
  /\ m' = [m EXCEPT ![o].size = n]
  /\ abs' = [abs EXCEPT ![f] = [i \in 1 .. n |-> IF i <= Len(abs[f]) THEN abs[f][i] ELSE data'[f][i]]] /\ UNCHANGED <<hdr, del>>
CloseEff(o, h, d) == LET f == m[o].f IN
  /\ h = (IF f = 0 THEN hdr ELSE [hdr EXCEPT ![f] = m[o].size])
  /\ d = (IF f = 0 THEN data ELSE [data EXCEPT ![f] = Cut(data[f], Words(m[o].size))])
Close(o) == m[o].f # 0 /\ CloseEff(o, hdr', data') /\ m' = [m EXCEPT ![o] = NoMap] /\ UNCHANGED <<abs, del>>
\* moving o to p closes what p had
Move(o, p) == o # p /\ CloseEff(p, hdr', data') /\ m' = [m EXCEPT ![p] = m[o], ![o] = NoMap] /\ UNCHANGED <<abs, del>>
Next == /\ ~Gen \/ Len(hist) < K
        /\ \/ \E o \in Obj, f \in File : Open(o, f) /\ Rec(<<1, o, f, 0>>)
           \/ \E o \in Obj : \E i \in 0 .. m[o].size - 1, v \in Vals : Set(o, i, v) /\ Rec(<<2, o, i, v>>)
           \/ \E o \in Obj, v \in Vals : Push(o, v) /\ Rec(<<3, o, v, 0>>)
           \/ \E o \in Obj, n \in 0 .. MaxLen : (~Gen \/ n % 2 = Len(hist) % 2) /\ Resize(o, n) /\ Rec(<<4, o, n, 0>>)
           \/ \E o \in Obj : Close(o) /\ Rec(<<5, o, 0, 0>>)
           \/ \E o, p \in Obj : Move(o, p) /\ Rec(<<6, o, p, 0>>)
Spec == Init /\ [][Next]_vars
Seen(f) == IF InUse(f) THEN LET o == CHOOSE o \in Obj : m[o].f = f IN SubSeq(data[f], 1, m[o].size) ELSE SubSeq(data[f], 1, hdr[f])
Refines == \A f \in File : Seen(f) = abs[f]
NoLeftover == \A f \in File : ~InUse(f) => Len(data[f]) = Words(hdr[f])
OneOwner == \A o, p \in Obj : m[o].f = m[p].f /\ m[o].f # 0 => o = p
Room == \A o \in Obj : m[o].f # 0 => m[o].size <= Len(data[m[o].f])
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
