-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Life cycles of library objects (C10, C11).  Slots hold objects; a       *)
(* content is a number 1..V (0: what the default constructor gives).       *)
(*   val[s] = Dead     no object         val[s] = Moved   moved-from object *)
(* strm is the sequence of contents stored to one stream, cur the number   *)
(* of them already read again; file[f] is a stored file.                   *)
(* An operation is a tuple <<code, a, b, c>>.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
Dead == -2
Moved == -1
NoFile == [v |-> Dead, chk |-> FALSE]
Fresh(S, F) == [val |-> [s \in 1 .. S |-> Dead], strm |-> <<>>, cur |-> 0, file |-> [f \in 1 .. F |-> NoFile]]
OpNames == <<"new", "make", "copyctor", "movector", "copyassign", "moveassign", "swap", "destroy", "store", "rewind", "load", "clear", "fstore", "fload", "alien">>
Has2(st, s) == st.val[s] >= 0
Pre(st, o) ==
  LET c == o[1] a == o[2] b == o[3] IN
  CASE c = 1 -> st.val[a] = Dead
    [] c = 2 -> st.val[a] # Dead
    [] c \in {3, 4} -> st.val[a] = Dead /\ Has2(st, b)
    [] c \in {5, 6} -> st.val[a] # Dead /\ Has2(st, b)
    [] c = 7 -> Has2(st, a) /\ Has2(st, b)
    [] c = 8 -> st.val[a] # Dead
    [] c = 9 -> Has2(st, a)
    [] c = 10 -> TRUE
    [] c = 11 -> st.val[a] # Dead /\ st.cur < Len(st.strm)
    [] c = 12 -> TRUE
    [] c = 13 -> Has2(st, a)                     \* o = <<13, a, f, checked>>
    [] c = 14 -> st.val[a] # Dead                \* o = <<14, a, f, checked>>
    [] c = 15 -> TRUE                            \* o = <<15, 0, f, 0>>: checked load by an object of another class
\* does a load from file f succeed
Loads(st, f, chk) == st.file[f].v # Dead /\ (chk = 1 => st.file[f].chk)
Eff(st, o) ==
  LET c == o[1] a == o[2] b == o[3] x == st.val IN
  CASE c = 1 -> [st EXCEPT !.val[a] = 0]
    [] c = 2 -> [st EXCEPT !.val[a] = b]
    [] c = 3 \/ c = 5 -> [st EXCEPT !.val[a] = x[b]]
    [] c = 4 \/ (c = 6 /\ a # b) -> [st EXCEPT !.val = [x EXCEPT ![a] = x[b], ![b] = Moved]]
    [] c = 6 /\ a = b -> st
    [] c = 7 -> [st EXCEPT !.val = [x EXCEPT ![a] = x[b], ![b] = x[a]]]
    [] c = 8 -> [st EXCEPT !.val[a] = Dead]
    [] c = 9 -> [st EXCEPT !.strm = Append(st.strm, x[a])]
    [] c = 10 -> [st EXCEPT !.cur = 0]
    [] c = 11 -> [st EXCEPT !.val[a] = st.strm[st.cur + 1], !.cur = st.cur + 1]
    [] c = 12 -> [st EXCEPT !.strm = <<>>, !.cur = 0]
    [] c = 13 -> [st EXCEPT !.file[b] = [v |-> x[a], chk |-> st.file[b].chk \/ o[4] = 1]]
    [] c = 14 -> IF Loads(st, b, o[4]) THEN [st EXCEPT !.val[a] = st.file[b].v] ELSE st
    [] OTHER -> st
=============================================================================
