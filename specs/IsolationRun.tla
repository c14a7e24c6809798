---------------------------- MODULE IsolationRun ----------------------------
(***************************************************************************)
(* Random long behaviours of Isolation, printed when they have reached      *)
(* their length.                                                           *)
(***************************************************************************)
EXTENDS Isolation

CONSTANT Length
VARIABLE hist

RunInit == Init /\ hist = <<[o |-> last.op, r |-> last.out, t |-> st]>>
RunNext == \/ Len(hist) < Length /\ Next /\ hist' = Append(hist, [o |-> last'.op, r |-> last'.out, t |-> st'])
           \/ Len(hist) = Length /\ last.op.name # "stop" /\ last' = [op |-> [name |-> "stop"], out |-> "ok"] /\ UNCHANGED <<st, hist>>
RunSpec == RunInit /\ [][RunNext]_<<st, last, hist>>

Trail == last.op.name = "stop" => PrintT("@@" \o ToJson(hist))
=============================================================================
