------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Traces recorded from the implementation: one JSON object per line of    *)
(* the file named by the environment variable TRACE. Every trace is one    *)
(* behaviour; a trace specification walks along it and collects in `bad'   *)
(* the names of the clauses that the implementation broke.                 *)
(***************************************************************************)
EXTENDS HPReal, TLC, Json, IOUtils
Traces  == ndJsonDeserialize(IOEnv.TRACE)
NTraces == Len(Traces)

(* The names of the clauses that do not hold.                              *)
Failed(clauses) == {c \in DOMAIN clauses : ~clauses[c]}
At(name, k)     == name \o "@" \o ToString(k)

Verdict(tr, steps, bad) ==
  PrintT("VERDICT " \o ToJson([tr |-> tr, steps |-> steps, bad |-> bad]))
=============================================================================
