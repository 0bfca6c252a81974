---- MODULE TraceLog ----
(* The recorded sessions: one JSON object per line, {"sid", "wb" (word bytes), "ev": <<events>>}. *)
EXTENDS Json, IOUtils, TLC
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
====
