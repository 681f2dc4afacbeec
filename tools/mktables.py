"""Writes spec/FixTables.tla: the numeric tables of the fixed-point arithmetic."""
import math, os
U = 100000


def seq(xs, per=12):
    out, row = [], []
    for x in xs:
        row.append(str(x))
        if len(row) == per:
            out.append(', '.join(row))
            row = []
    if row:
        out.append(', '.join(row))
    return '<<' + ',\n  '.join(out) + '>>'


soft = [round(U * math.log10(1 + 10**(-k / 100))) for k in range(0, 602)]
pow10 = [round(1e6 * 10**(k / 500)) for k in range(0, 501)]
log10 = [round(U * math.log10(k / 100)) for k in range(100, 1001)]
erf = [round(1e6 * math.erf(k / 100)) for k in range(0, 402)]
txt = '''------------------------------ MODULE FixTables ------------------------------
(* Written by tools/mktables.py.                                              *)
(* SoftT[k+1]  = 10^5 log10(1 + 10^(-k/100))                                   *)
(* PowT[k+1]   = 10^6 10^(k/500)                                               *)
(* LogT[k-99]  = 10^5 log10(k/100), k = 100..1000                              *)
(* ErfT[k+1]   = 10^6 erf(k/100)                                               *)
SoftT == %s
PowT == %s
LogT == %s
ErfT == %s
==============================================================================
''' % tuple(map(seq, (soft, pow10, log10, erf)))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'FixTables.tla'), 'w').write(txt)
