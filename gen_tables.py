#!/usr/bin/env python3-vt
"""Generates the committed TLA+ tables of real functions (exact rounding via mpmath)."""
import os
from mpmath import mp, mpf, tanh, floor
mp.prec = 200
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")


def seq(xs, per=8):
    rows = [", ".join(str(int(x)) for x in xs[i:i + per]) for i in range(0, len(xs), per)]
    return "<<\n  " + ",\n  ".join(rows) + "\n>>"


def rnd(x):
    return int(floor(x + mpf(1) / 2))


open(os.path.join(D, "TanhTable.tla"), "w").write("""----------------------------- MODULE TanhTable -----------------------------
(* Generated by gen_tables.py: tanh(j/64) in units of 2^-20, j = 0..512.      *)
EXTENDS Integers, Sequences
TanhQ == %s
TanhAt(j) == IF j >= 0 THEN TanhQ[j + 1] ELSE -TanhQ[-j + 1]

(* floor(a * t / 2^20) for 0 <= a <= 2^18, |t| <= 2^20 *)
ScaleQ(a, t) ==
  LET e == a * (t \\div 1024) IN (e \\div 1024) + (((e %% 1024) * 1024 + a * (t %% 1024)) \\div 1048576)

(* The tanh stage with zero z and amplitude a maps x to z + a*tanh((x-z)/a):  *)
(* never outside [z-a, z+a], exactly z-a / z+a beyond 8 amplitudes, and within *)
(* 3 of the exact value otherwise; the exact value is bracketed by the table.  *)
TanhStageOK(z, a, x, v) ==
  IF x >= z + 8 * a THEN v = z + a
  ELSE IF x <= z - 8 * a THEN v = z - a
  ELSE LET d == (x - z) * 64
           j == d \\div a
           j2 == IF d %% a = 0 THEN j ELSE j + 1
       IN /\\ v >= z - a /\\ v <= z + a
          /\\ v - z >= ScaleQ(a, TanhAt(j)) - 3
          /\\ v - z <= ScaleQ(a, TanhAt(j2)) + 4
=============================================================================
""" % seq([rnd(tanh(mpf(j) / 64) * 2**20) for j in range(513)]))

from mpmath import exp
open(os.path.join(D, "ExpTable.tla"), "w").write("""----------------------------- MODULE ExpTable ------------------------------
(* Generated by gen_tables.py: exp(-2^j) in units of 2^-31, j = -15..4.       *)
EXTENDS Integers, Sequences
ExpQ == %s
ExpC(j) == ExpQ[j + 16]
=============================================================================
""" % seq([rnd(exp(-mpf(2) ** j) * 2**31) for j in range(-15, 5)]))
