--------------------------------- MODULE Lsp --------------------------------
(* The relay between an editor and a language server.                          *)
(*                                                                             *)
(* Directions: "out" (editor to server) and "in" (server to editor).  A        *)
(* message is [h, units, leaves]: h identifies its body (length and digest),   *)
(* units tells whether it describes unit types, leaves its JSON parts          *)
(* [p |-> place, v |-> value, t |-> free], free: the part may be rewritten     *)
(* (hover texts, labels and the text of edits that describe unit types).       *)
(*                                                                             *)
(* The relay's state: per direction the messages that are under way, which     *)
(* ends have been closed, and whether the session is over.                     *)
EXTENDS Naturals, Sequences, FiniteSets

Dirs == {"out", "in"}
(* what a rewritten message keeps: every part that is not free; a free part    *)
(* may change its value, but the places of a hover stay                        *)
Fixed(m) == {x \in 1 .. Len(m.leaves) : ~m.leaves[x].t}
LeafSet(m) == {[p |-> m.leaves[x].p, v |-> m.leaves[x].v] : x \in Fixed(m)}
FreePlaces(m) == {m.leaves[x].p : x \in {y \in 1 .. Len(m.leaves) : m.leaves[y].t /\ m.leaves[y].stay}}
AnyPlaces(m) == {m.leaves[x].p : x \in 1 .. Len(m.leaves)}
Kept(sent, got) == /\ got.json
                   /\ LeafSet(sent) = LeafSet(got)
                   /\ FreePlaces(sent) \subseteq AnyPlaces(got)
(* is the delivered message the one that was sent? *)
Carries(d, sent, got) == \/ got.h = sent.h
                         \/ d = "in" /\ sent.units /\ Kept(sent, got)

Start == [way |-> [d \in Dirs |-> <<>>], shut |-> {}, ended |-> {}, over |-> FALSE, raw |-> [d \in Dirs |-> "-"]]
(* shut: sides that have closed ("editor", "server"); ended: directions whose  *)
(* receiver has seen the end of the stream                                     *)
Sender(d) == IF d = "out" THEN "editor" ELSE "server"
Step(s, e) ==
    CASE e.k = "send" -> [s EXCEPT !.way[e.d] = Append(@, e.m)]
      [] e.k = "sendraw" -> [s EXCEPT !.raw[e.d] = e.h]
      [] e.k = "recv" -> [s EXCEPT !.way[e.d] = IF @ = <<>> THEN @ ELSE Tail(@)]
      [] e.k = "shut" -> [s EXCEPT !.shut = @ \union {e.side}]
      [] e.k = "end" -> [s EXCEPT !.ended = @ \union {e.d}]
      [] e.k = "exit" -> [s EXCEPT !.over = TRUE]
      [] OTHER -> s
(* deaf: the receiver of a direction has stopped reading, so nothing is due *)
Deaf(s, d) == IF d = "in" THEN "editor-reading" \in s.shut ELSE "server" \in s.shut
StepOK(s, e) ==
    CASE e.k = "recv" ->
           (IF s.way[e.d] = <<>> THEN "a message is delivered that nobody sent, or twice, or before it was sent"
            ELSE IF Carries(e.d, Head(s.way[e.d]), e.m) THEN (IF e.hdr THEN "" ELSE "a delivered message is not framed correctly")
            ELSE IF \E i \in 2 .. Len(s.way[e.d]) : e.m.h = s.way[e.d][i].h THEN "a message is dropped or overtaken"
            ELSE IF e.d = "in" /\ Head(s.way[e.d]).units THEN "a rewritten message loses or changes parts" ELSE "the body of a message is changed")
      [] e.k = "junk" -> "bytes are delivered that are no message"
      [] e.k = "raw" -> (IF s.raw[e.d] = e.h \/ Sender(e.d) \notin s.shut THEN "" ELSE "malformed content is not relayed as it came")
      [] e.k = "late" -> "a message is not delivered"
      [] e.k = "hang" -> "the session does not end after a side has closed"
      [] e.k = "end" -> (IF s.way[e.d] # <<>> /\ ~Deaf(s, e.d) THEN "the stream ends before all messages are delivered"
                         ELSE IF s.shut = {} THEN "the stream ends although both sides are open" ELSE "")
      [] e.k = "exit" -> (IF s.shut = {} THEN "the session ends although both sides are open"
                          ELSE IF ~e.clean THEN "the relay fails"
                          ELSE IF ~e.gone THEN "the server outlives the session"
                          ELSE IF \E d \in Dirs : s.way[d] # <<>> /\ ~Deaf(s, d) THEN "the session ends before all messages are delivered" ELSE "")
      [] OTHER -> ""
=============================================================================
