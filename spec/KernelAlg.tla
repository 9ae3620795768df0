----------------------------- MODULE KernelAlg -----------------------------
(***************************************************************************)
(* The packing algorithm: a panel is filled register-size chunk by chunk and  *)
(* cell by cell from a source of `depth` levels, zero-extended; checked for    *)
(* every small format, source width and depth to put slot (x, k) at Pos, to    *)
(* fill every byte of the panel exactly once, and to leave in `sums` the sum   *)
(* of each slice; then two runs (split anywhere at a cell boundary) give the   *)
(* exact product.                                                             *)
(***************************************************************************)
EXTENDS Kernel, FiniteSets, TLC
CONSTANTS RS,        \* register size: levels packed at a time
          MaxDepth
Formats == {f \in {1, 2, 3} \X {1, 2, 4} \X {1, 2} \X {0, 1, 2} : f[4] = 2 => f[1] = f[2]}
VARIABLES f, width, depth, chunk, cd, cw, panel, sums, writes, pc
vars == <<f, width, depth, chunk, cd, cw, panel, sums, writes, pc>>
Zero == 0
Src(x, k) == IF x < width /\ k < depth THEN 1 + x * 7 + k * 3 ELSE Zero
Levels == ((depth + RS - 1) \div RS) * RS
Size == Width(f) * Levels
Init ==
  /\ f \in Formats /\ depth \in 1..MaxDepth /\ width \in 1..Width(f)
  /\ chunk = 0 /\ cd = 0 /\ cw = 0
  /\ panel = [i \in 0..(Size - 1) |-> -1]
  /\ sums = [x \in 0..(Width(f) - 1) |-> 0]
  /\ writes = 0 /\ pc = "pack"
(* one cell: written at `writes` onwards *)
CellStep ==
  /\ pc = "pack"
  /\ LET k0 == chunk * RS + cd  x0 == cw
         cells == {<<x, k>> : x \in 0..(f[1] - 1), k \in 0..(f[2] - 1)}
     IN /\ panel' = [i \in DOMAIN panel |->
              IF i >= writes /\ i < writes + f[1] * f[2]
              THEN LET c == CHOOSE c \in cells : InCell(f, c[1], c[2]) = i - writes IN Src(x0 + c[1], k0 + c[2])
              ELSE panel[i]]
        /\ sums' = [x \in DOMAIN sums |->
              IF x >= x0 /\ x < x0 + f[1] THEN sums[x] + FoldLeftDomain(LAMBDA acc, i : acc + Src(x, k0 + i - 1), 0, [i \in 1..f[2] |-> 0]) ELSE sums[x]]
  /\ writes' = writes + f[1] * f[2]
  /\ IF cw + f[1] < Width(f) THEN cw' = cw + f[1] /\ UNCHANGED <<cd, chunk, pc>>
     ELSE /\ cw' = 0
          /\ IF cd + f[2] < RS THEN cd' = cd + f[2] /\ UNCHANGED <<chunk, pc>>
             ELSE /\ cd' = 0 /\ chunk' = chunk + 1
                  /\ pc' = IF (chunk + 1) * RS >= depth THEN "packed" ELSE "pack"
  /\ UNCHANGED <<f, width, depth>>
Next == CellStep \/ (pc = "packed" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bijective == writes = 0 =>
  /\ Cardinality({Pos(f, x, k) : x \in 0..(Width(f) - 1), k \in 0..(Levels - 1)}) = Size
  /\ \A x \in 0..(Width(f) - 1), k \in 0..(Levels - 1) : Pos(f, x, k) \in 0..(Size - 1)
Placed == pc = "packed" =>
  /\ writes = Size
  /\ \A x \in 0..(Width(f) - 1), k \in 0..(Levels - 1) : panel[Pos(f, x, k)] = Src(x, k)
SumsRight == pc = "packed" =>
  \A x \in 0..(Width(f) - 1) : sums[x] = FoldLeftDomain(LAMBDA acc, i : acc + Src(x, i - 1), 0, [i \in 1..depth |-> 0])
AsSeq == [i \in 1..Size |-> panel[i - 1]]
(* a run over the first s levels and one over the rest, against the plain product with itself *)
SplitRuns == pc = "packed" =>
  \A x \in 0..(width - 1), y \in 0..(width - 1) :
    \A s \in {j \in 0..Levels : j % f[2] = 0} :
      LET head == Sum(AsSeq, AsSeq, f, f, x, y, s)
          rest == [i \in 1..(Size - s * Width(f)) |-> AsSeq[i + s * Width(f)]]
      IN head + Sum(rest, rest, f, f, x, y, Levels - s) = FoldLeftDomain(LAMBDA acc, i : acc + Src(x, i - 1) * Src(y, i - 1), 0, [i \in 1..depth |-> 0])
Done == <>(pc = "packed")
=============================================================================
