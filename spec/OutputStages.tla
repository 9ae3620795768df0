---------------------------- MODULE OutputStages ----------------------------
(***************************************************************************)
(* C02: the output stages as integer functions.  A stage is a tuple whose   *)
(* first element names it and whose other elements are its parameters for   *)
(* the entry at hand (per-channel stages: those of its row or column).       *)
(***************************************************************************)
EXTENDS FixedPointOps, TanhTable

(* tanh: see TanhTable; the output is exact at the ends and within tolerance *)
(* of zero + amp*tanh((x-zero)/amp) in between.                                *)

Stage(s, x) ==
  CASE s[1] = "qd"    -> RDPOT((x + s[2]) * s[3], s[4])
    [] s[1] = "fp"    -> RDPOT(SRDHM(x, s[2]), s[3]) + s[4]
    [] s[1] = "fpe"   -> RDPOT(SRDHM(x * 2^(MaxI(s[3], 0)), s[2]), MaxI(-s[3], 0)) + s[4]
    [] s[1] = "bias"  -> x + s[2]
    [] s[1] = "clamp" -> ClampI(x, s[2], s[3])
    [] s[1] = "su8"   -> ClampI(x, 0, 255)
    [] s[1] = "si8"   -> ClampI(x, -128, 127)
    [] s[1] = "si16"  -> ClampI(x, -32768, 32767)
    [] s[1] = "tu8"   -> x % 256

RECURSIVE Pipeline(_, _, _)
Pipeline(stages, i, x) ==
  IF i > Len(stages) THEN x ELSE Pipeline(stages, i + 1, Stage(stages[i], x))

(* Is v an acceptable output of the pipeline applied to accumulator x?  All   *)
(* stages but tanh are functions; tanh (only ever last here) has a tolerance. *)
PipelineOK(stages, x, v) ==
  IF Len(stages) > 0 /\ stages[Len(stages)][1] = "tanh"
  THEN LET t == stages[Len(stages)]
           y == Pipeline(SubSeq(stages, 1, Len(stages) - 1), 1, x)
       IN TanhStageOK(t[2], t[3], y, v)
  ELSE v = Pipeline(stages, 1, x)
=============================================================================
