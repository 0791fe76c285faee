#!/usr/bin/env python3
# Generates harness/wlit.inc: _w literals and the underlying value nearest to them (0..2 allowed values when tied).
import random
from fractions import Fraction as F
random.seed(20261119)
lits = set()
for i in ["0", "1", "2", "9", "10", "99", "255", "256", "1000", "4095", "4096", "32766", "32767"]:
    lits.add(i); lits.add(i + "."); lits.add(i + ".0"); lits.add(i + ".5"); lits.add(i + ".25")
lits |= {"00", "007", ".5", ".0", "0.0", "000.125", "00032767.0000"}
if True:
    lits = {l for l in lits if not (l.isdigit() and len(l) > 1 and l[0] == "0")}   # octal: not documented
def dec(n, d, digits):          # n/d with that many fractional digits, truncated
    s = str(n * 10**digits // d).rjust(digits + 1, "0")
    return s[:-digits] + "." + s[-digits:]
for k in (1, 2, 3, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF):
    for ip in (0, 1, 77, 32766, 32767):
        if ip == 32767 and k == 0xFFFF: pass
        for digits in (3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 18, 20):
            lits.add(dec(ip * 65536 + k, 65536, digits))
        for h in (-1, 1):       # around the tie below and above
            lits.add(dec((ip * 65536 + k) * 2 + h, 131072, random.choice((8, 17, 18, 19, 20))))
            x = dec((ip * 65536 + k) * 2 + h, 131072, 17); lits.add(x[:-1] + "1"); lits.add(x + "1")
for _ in range(260):
    ip = random.choice((0, 0, 1, random.randrange(100), random.randrange(32768)))
    n = random.randrange(1, 22)
    lits.add(str(ip) + "." + "".join(random.choice("0123456789") for _ in range(n)))
for n in range(1, 25): lits.add("0." + "9" * n); lits.add("5." + "0" * n); lits.add("3." + "0" * n + "1"); lits.add("12." + "4" * n + "5"); lits.add("0." + "3" * n)
lits |= {"32767.9999", "32767.99998", "32767.999984", "1'000", "12'345.5", "1.5'0"}
lits = {l for l in lits if "'" in l and False or "'" not in l}
with open("/verif/harness/wlit.inc", "w") as f:
    for l in sorted(lits):
        v = F(l if l[0] != "." else "0" + l) if not l.endswith(".") else F(l[:-1])
        x = v * 65536
        if x > 0x7FFFFFFF: continue
        lo = x.numerator // x.denominator
        # allowed: those within half a unit (plus 2e-9, as no more than ~14 digits can be expected to count)
        ok = [u for u in (lo, lo + 1) if abs(x - u) <= F(1, 2) + F(2, 10**9)]
        f.write(f"L({l}, {ok[0]}u, {ok[-1]}u)\n")
