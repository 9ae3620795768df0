------------------------------ MODULE GemmGen ------------------------------
(***************************************************************************)
(* The behaviours of a GEMM context as a user drives it, generated by TLC    *)
(* (-simulate) and replayed on the real library: setting the thread limit    *)
(* and cache sizes, replacing the context, new calls, and calls repeated      *)
(* under other settings.  Profile selects the distribution of the calls.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.HLEN)
Big == atoi(IOEnv.BIG)

VARIABLES hist,   \* operations so far
          calls,  \* distinct calls made so far, as sequences of call parameters
          phase   \* "gen" | "emitted"
vars == <<hist, calls, phase>>

Pick(S) == RandomElement(S)
(* z: the state, so that TLC does not treat the choices below as constants *)
Chance(p) == RandomElement(1..100) <= p

(* sizes: small ones, around multiples of the kernels' dimensions, larger ones *)
Tiny == 1..9
Near == {11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 35, 36, 37, 47, 48, 49, 63, 64, 65}
Mid == 66..130
Wide == 131..330
Size(z) == LET w == Pick(1..20) IN
  IF w <= 7 THEN Pick(Tiny) ELSE IF w <= 14 THEN Pick(Near) ELSE IF w <= 18 THEN Pick(Mid) ELSE IF Big = 1 THEN Pick(Wide) ELSE Pick(Near)
DepthSize(z) == LET w == Pick(1..20) IN
  IF w <= 6 THEN Pick(Tiny) ELSE IF w <= 13 THEN Pick(Near) ELSE IF w <= 16 THEN Pick(Mid) ELSE IF w <= 18 THEN Pick(Wide)
  ELSE IF Big = 1 THEN Pick({512, 1000, 1024, 1025, 2047, 2100}) ELSE Pick(Wide)
Zeros(z) == LET w == Pick(1..3) IN IF w = 1 THEN <<0, Size(z)>> ELSE IF w = 2 THEN <<Size(z), 0>> ELSE <<0, 0>>

(* a shape large enough to be split over threads *)
ThreadShape(z) == <<Pick({48, 64, 70, 96, 100, 131, 192, 193, 260}), Pick({64, 65, 100, 128, 200}), Pick({32, 50, 64, 65, 100})>>
Pad(z) == IF Chance(50) THEN 0 ELSE Pick({1, 2, 3, 7, 8, 16, 61})
Bit(z) == Pick({0, 1})

(* m k n lo ro so lpad rpad spad bd offk pipe pat seed at_end *)
CallOf(m, k, n, pat, pipe, z) ==
  <<m, k, n, Bit(z), Bit(z), Bit(z), Pad(z), Pad(z), Pad(z), Bit(z), Bit(z), pipe, pat, Pick(1..1000000), Bit(z)>>
(* long and thin, either way round *)
Thin(pat, pipe, z) ==
  IF Chance(65) THEN CallOf(Pick({400, 600, 1000, 1500, 2049, 4100, 5003}), Pick({1, 7, 16, 33, 64, 64}), Pick(1..9), pat, pipe, z)
  ELSE CallOf(Pick(1..9), Pick({1, 7, 16, 33, 64, 64}), Pick({400, 600, 1000, 1500, 2049, 4100, 5003}), pat, pipe, z)
Steered(pipe, z) == <<Size(z), 1, Size(z), Bit(z), Bit(z), Bit(z), 0, 0, Pad(z), Bit(z), 1, pipe, Pick({6, 7}), Pick(1..1000000), Bit(z)>>

NewCall(z) ==
  LET pipe == Pick(0..29)
      pat == Pick({0, 1, 2, 3, 4, 5, 8, 9})
      w == Pick(1..100)
  IN IF Big = 1 /\ Profile \in {"threads", "memory", "products", "partition"} /\ Chance(5) THEN Thin(pat, pipe, z)
     ELSE IF Profile = "stages" THEN (IF w <= 70 THEN Steered(pipe, z) ELSE CallOf(Size(z), DepthSize(z), Size(z), pat, pipe, z))
     ELSE IF Profile = "threads" THEN
       (IF w <= 60 THEN LET s == ThreadShape(z) IN (IF Chance(30) THEN CallOf(s[3], s[2], s[1], pat, pipe, z) ELSE CallOf(s[1], s[2], s[3], pat, pipe, z))
        ELSE CallOf(Size(z), DepthSize(z), Size(z), pat, pipe, z))
     ELSE IF Profile = "partition" THEN
       (LET m == Pick(17..420)  n == Pick(16..90)  k == Pick({64, 100, 150, 300})
        IN IF Chance(25) THEN CallOf(n, k, m, pat, pipe, z) ELSE CallOf(m, k, n, pat, pipe, z))
     ELSE IF Profile = "deep" THEN   \* long sums: up to the largest depth whose extreme values still fit in 32 bits
       CallOf(Pick({1, 2, 3, 5, 9, 13, 17}), Pick({4095, 4096, 5000, 8191, 8200, 10000, 16384, 20001, 32000, 32767, 33025}), Pick({1, 2, 4, 5, 9}), IF Chance(60) THEN Pick({1, 2}) ELSE pat, pipe, z)
     ELSE IF Profile = "memory" THEN
       (IF w <= 8 THEN LET q == Zeros(z) IN CallOf(q[1], Size(z), q[2], pat, pipe, z)
        ELSE IF w <= 25 THEN LET s == ThreadShape(z) IN CallOf(s[1], s[2], s[3], pat, pipe, z)
        ELSE CallOf(Size(z), DepthSize(z), Size(z), pat, pipe, z))
     ELSE
       (IF w <= 25 THEN CallOf(Pick(1..4), Pick(1..8), Pick(1..4), pat, pipe, z)
        ELSE IF w <= 55 THEN LET s == ThreadShape(z) IN CallOf(s[1], s[2], s[3], pat, pipe, z)
        ELSE CallOf(Size(z), DepthSize(z), Size(z), pat, pipe, z))

Threads == {0, 1, 2, 3, 4, 5, 7, 8, 16}
CacheSettings(z) ==
  <<Pick({1, 64, 500, 1000, 2000, 4096, 16384, 32768, 1000000}), Pick({1, 100, 1000, 5000, 20000, 100000, 262144, 4000000}), Pick({1, 10, 25, 50, 75, 99, 100})>>

Init == hist = <<>> /\ calls = <<>> /\ phase = "gen"

LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]
CanSet(op) == LastOp # op /\ Len(hist) < Depth - 1

SetThreads == CanSet("T") /\ hist' = Append(hist, <<"T", Pick(IF Profile = "partition" THEN 0..8 ELSE Threads)>>) /\ UNCHANGED <<calls, phase>>
SetCache == CanSet("C") /\ hist' = Append(hist, <<"C">> \o CacheSettings(Len(hist))) /\ UNCHANGED <<calls, phase>>
NewContext == LastOp \notin {"", "T", "C"} /\ CanSet("N") /\ hist' = Append(hist, <<"N">>) /\ UNCHANGED <<calls, phase>>
(* histories that start by asking for several threads and small caches: calls are cut into many blocks *)
SetBoth == hist = <<>> /\ hist' = <<<<"T", Pick({2, 3, 4, 5, 8})>>, <<"C", Pick({1, 500, 1000, 2000, 8000}), Pick({1, 5000, 20000, 60000}), Pick({10, 50, 75, 100})>>>> /\ UNCHANGED <<calls, phase>>
SetBoth2 == SetBoth
SetBoth3 == SetBoth
SetBoth4 == SetBoth
Call == \E c \in {NewCall(Len(hist))} : hist' = Append(hist, <<"G">> \o c) /\ calls' = Append(calls, c) /\ UNCHANGED phase
Call2 == Call
Call3 == Call
Repeat == calls # <<>> /\ hist' = Append(hist, <<"G">> \o Pick({calls[i] : i \in DOMAIN calls})) /\ UNCHANGED <<calls, phase>>
(* the same call under a sweep of cache sizes and thread limits *)
SmallCache(z) == <<Pick({1, 64, 300, 700, 1500, 3000, 6000, 16384}), Pick({1, 100, 300, 700, 1500, 3000, 6000, 12000, 25000, 100000}), Pick({1, 10, 25, 50, 75, 99, 100})>>
Sweep == Profile = "caches" /\ LET z == Len(hist) IN \E m \in {Size(z)}, k \in {DepthSize(z)}, n \in {Size(z)} :
  \E c \in {CallOf(m, k, n, Pick({0, 1, 4, 9}), Pick(0..29), z)} :
    /\ hist' = hist \o << <<"G">> \o c, <<"C">> \o SmallCache(z), <<"G">> \o c, <<"C">> \o SmallCache(z), <<"T", Pick(1..4)>>, <<"G">> \o c,
                          <<"C">> \o SmallCache(z), <<"G">> \o c >>
    /\ calls' = Append(calls, c) /\ UNCHANGED phase
(* in the settings profile most calls are repeats *)
Repeat2 == Profile = "threads" /\ Len(calls) >= 2 /\ Repeat
Repeat3 == Profile = "threads" /\ Len(calls) >= 2 /\ Repeat

Next ==
  \/ /\ phase = "gen" /\ Len(hist) < Depth
     /\ Profile # "caches"
     /\ (SetBoth \/ SetBoth2 \/ SetBoth3 \/ SetBoth4 \/ SetThreads \/ SetCache \/ NewContext \/ Call \/ Call2 \/ (Call3 /\ Profile # "threads") \/ Repeat \/ Repeat2 \/ Repeat3)
  \/ /\ phase = "gen" /\ Len(hist) < Depth /\ Sweep
  \/ /\ phase = "gen" /\ Len(hist) >= Depth
     /\ phase' = "emitted" /\ UNCHANGED <<hist, calls>>
     /\ PrintT("HIST " \o ToJson(hist))

Spec == Init /\ [][Next]_vars
=============================================================================
