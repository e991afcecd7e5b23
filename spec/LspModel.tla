------------------------------ MODULE LspModel ------------------------------
(* The relay as a system of two byte streams: each stream is a sequence of     *)
(* symbols (a length line, another header line, the empty line, body bytes)    *)
(* that arrives in chunks of any size; the relay's readers collect frames from *)
(* it and pass them on.  Checked: whatever the chunks and the interleaving,    *)
(* the delivered messages are the sent ones, in order, and once a side closes  *)
(* the session ends with nothing left behind.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Bodies, Count, Chunk, Polite
D == {"out", "in"}
(* frames: header lines in any order with one length line, then the body *)
Heads(n) == {<<<<"len", n>>>>, <<<<"len", n>>, <<"other">>>>, <<<<"other">>, <<"len", n>>>>}
BodyOf(i, n) == [k \in 1 .. n |-> <<"byte", i>>]
Frame(i, n, hd) == hd \o <<<<"blank">>>> \o BodyOf(i, n)
VARIABLES next, pipe, reader, under, got, lens, shut, kill, over
(* next[d]: messages started; pipe[d]: symbols on their way to the relay;      *)
(* reader[d]: what the relay's reader has collected; under[d]: messages handed *)
(* to the receiver's pipe; got[d]: messages received; lens[d]: sent lengths    *)
vars == <<next, pipe, reader, under, got, lens, shut, kill, over>>
NewReader == [len |-> -1, body |-> <<>>, head |-> TRUE]
MInit == /\ next = [d \in D |-> 0] /\ pipe = [d \in D |-> <<>>] /\ reader = [d \in D |-> NewReader]
         /\ under = [d \in D |-> <<>>] /\ got = [d \in D |-> <<>>] /\ lens = [d \in D |-> <<>>]
         /\ shut = {} /\ kill = FALSE /\ over = FALSE
Src(d) == IF d = "out" THEN "editor" ELSE "server"
Put(d) == /\ next[d] < Count /\ Src(d) \notin shut /\ Len(pipe[d]) < 4 /\ ~over /\ ~kill
          /\ \E n \in Bodies : \E hd \in Heads(n) :
               /\ pipe' = [pipe EXCEPT ![d] = @ \o Frame(next[d] + 1, n, hd)]
               /\ lens' = [lens EXCEPT ![d] = Append(@, <<next[d] + 1, n>>)]
          /\ next' = [next EXCEPT ![d] = @ + 1]
          /\ UNCHANGED <<reader, under, got, shut, kill, over>>
(* the reader takes one symbol *)
Take(r, x) == CASE r.head /\ x[1] = "len" -> [r |-> [r EXCEPT !.len = x[2]], out |-> <<>>]
                [] r.head /\ x[1] = "other" -> [r |-> r, out |-> <<>>]
                [] r.head /\ x[1] = "blank" -> (IF r.len = 0 THEN [r |-> NewReader, out |-> <<<<>>>>] ELSE [r |-> [r EXCEPT !.head = FALSE], out |-> <<>>])
                [] OTHER -> (LET b == Append(r.body, x) IN IF Len(b) = r.len THEN [r |-> NewReader, out |-> <<b>>] ELSE [r |-> [r EXCEPT !.body = b], out |-> <<>>])
RECURSIVE TakeAll(_, _, _)
TakeAll(r, xs, out) == IF xs = <<>> THEN [r |-> r, out |-> out] ELSE LET t == Take(r, xs[1]) IN TakeAll(t.r, Tail(xs), out \o t.out)
Relay(d) == /\ pipe[d] # <<>> /\ ~over
            /\ \E c \in 1 .. Chunk : c <= Len(pipe[d]) /\
                 LET t == TakeAll(reader[d], SubSeq(pipe[d], 1, c), <<>>) IN
                 /\ pipe' = [pipe EXCEPT ![d] = SubSeq(@, c + 1, Len(@))]
                 /\ reader' = [reader EXCEPT ![d] = t.r]
                 /\ under' = [under EXCEPT ![d] = @ \o t.out]
            /\ UNCHANGED <<next, got, lens, shut, kill, over>>
Receive(d) == /\ under[d] # <<>> /\ (d = "out" => ~kill)
              /\ got' = [got EXCEPT ![d] = Append(@, Head(under[d]))] /\ under' = [under EXCEPT ![d] = Tail(@)]
              /\ UNCHANGED <<next, pipe, reader, lens, shut, kill, over>>
Drained(d) == pipe[d] = <<>>
EditorCloses == "editor" \notin shut /\ ~over /\ shut' = shut \union {"editor"} /\ UNCHANGED <<next, pipe, reader, under, got, lens, kill, over>>
(* a polite server reads what it was sent and answers before it goes *)
ServerCloses == /\ "server" \notin shut /\ ~kill /\ ~over
                /\ ("editor" \in shut => Polite /\ Drained("out") /\ under["out"] = <<>>)
                /\ shut' = shut \union {"server"} /\ UNCHANGED <<next, pipe, reader, under, got, lens, kill, over>>
(* the server that does not go by itself is ended, once it has been given time *)
Kill == /\ ~Polite /\ "editor" \in shut /\ "server" \notin shut /\ Drained("out") /\ under["out"] = <<>> /\ ~kill
        /\ kill' = TRUE /\ UNCHANGED <<next, pipe, reader, under, got, lens, shut, over>>
End == /\ ~over /\ Drained("in") /\ ("server" \in shut \/ kill) /\ over' = TRUE /\ UNCHANGED <<next, pipe, reader, under, got, lens, shut, kill>>
MNext == (\E d \in D : Put(d) \/ Relay(d) \/ Receive(d)) \/ EditorCloses \/ ServerCloses \/ Kill \/ End
MSpec == MInit /\ [][MNext]_vars
         /\ \A d \in D : WF_vars(Relay(d)) /\ WF_vars(Receive(d))
         /\ WF_vars(ServerCloses /\ "editor" \in shut) /\ WF_vars(Kill) /\ WF_vars(End)
Sent(d, k) == BodyOf(lens[d][k][1], lens[d][k][2])
InOrder == \A d \in D : LET all == got[d] \o under[d] IN Len(all) <= Len(lens[d]) /\ \A k \in 1 .. Len(all) : all[k] = Sent(d, k)
(* at a quiet moment, nothing is held back *)
NothingHeld == \A d \in D : (pipe[d] = <<>> => Len(got[d]) + Len(under[d]) = Len(lens[d]))
(* the session ends with every server message handed over, and - unless the    *)
(* server has gone - every editor message too                                  *)
CleanEnd == over => /\ Len(got["in"]) + Len(under["in"]) = Len(lens["in"])
                    /\ ("editor" \in shut /\ shut # {"editor", "server"}) => Len(got["out"]) = Len(lens["out"])
Ends == (shut # {}) ~> over
Arrives == \A d \in D : \A k \in 1 .. Count : (Len(lens[d]) >= k) ~> (Len(got[d]) >= k \/ "server" \in shut)
=============================================================================
