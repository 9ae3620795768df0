----------------------------- MODULE ExpTable ------------------------------
(* Generated by gen_tables.py: exp(-2^j) in units of 2^-31, j = -15..4.       *)
EXTENDS Integers, Sequences
ExpQ == <<
  2147418113, 2147352580, 2147221520, 2146959424, 2146435328, 2145387520, 2143293437, 2139111403,
  2130771798, 2114190000, 2081412522, 2017374191, 1895147668, 1672461947, 1302514674, 790015084,
  290630308, 39332535, 720401, 242
>>
ExpC(j) == ExpQ[j + 16]
=============================================================================
