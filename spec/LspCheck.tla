------------------------------ MODULE LspCheck ------------------------------
(* Checks recorded sessions of the relay, event by event.                      *)
EXTENDS Lsp, TLC, Json, IOUtils
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES zT, zL, zS
Init == zT \in 1 .. Len(Trace) /\ zL = 0 /\ zS = Start
Next == /\ zL < Len(Trace[zT].ev)
        /\ zL' = zL + 1 /\ zT' = zT
        /\ LET e == Trace[zT].ev[zL']  w == StepOK(zS, e) IN
           /\ zS' = Step(zS, e)
           /\ (w = "" \/ PrintT("@@" \o ToJson([t |-> zT, l |-> zL', why |-> w])))
=============================================================================
