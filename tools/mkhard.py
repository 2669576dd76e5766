#!/usr/bin/env python3
"""Writes harness/hardnums.h: numbers for which rounding is decided by the last bits of a long product.

Midpoint texts (C09): w * 10^q with 17 or 19 digits as close as possible to, but not at, the middle
between two neighbouring doubles (floats: 10 or 19 digits), on either side, for every q and every
binary exponent in reach. Doubles (C10): for every binary exponent the mantissas for which one of the
borders of the rounding interval, or the number itself, comes closest to a multiple of a power of ten.
"""
import os

def first(a, m, l, r):
    """smallest x >= 0 with l <= a*x mod m <= r (0 <= l <= r < m), or None"""
    if l == 0:
        return 0
    a %= m
    if a == 0:
        return None
    c = -(-l // a)
    if a * c <= r:
        return c
    y = first(m % a, a, -r % a, -l % a)
    if y is None:
        return None
    return -(-(l + m * y) // a)

def closest(P, M, lo, hi, t, side):
    """x in [lo,hi] with P*x mod M as little as possible above (side>0) or below (side<0) t, not equal"""
    def find(d):
        if side > 0:
            a, b = t + 1, t + d
        else:
            a, b = t - d, t - 1
        a, b = (a - P * lo) % M, (b - P * lo) % M
        if a > b:
            x = 0
        else:
            x = first(P, M, a, b)
        return None if x is None or x > hi - lo else x + lo
    if hi < lo:
        return None
    d = max(1, M // ((hi - lo + 1) << 8))
    if find(d) is not None:
        return find(d)
    while find(d) is None:
        d *= 2
        if d > M // 2 - 1:
            return None
    a, b = d // 2, d
    while b - a > max(1, d >> 6):
        c = (a + b) // 2
        if find(c) is None:
            a = c
        else:
            b = c
    return find(b)

def texts(bits, emin, emax, qs, ranges):
    out = []
    for q in qs:
        for A, B in ranges:
            # exponents e of the last place: A*10^q <= 2^bits * 2^e ...
            es = set()
            for w in (A, B - 1):
                n, d = (w * 10**q, 1) if q >= 0 else (w, 10**-q)
                e = n.bit_length() - d.bit_length() - bits
                es |= set(range(e - 1, e + 2))
            lo_e, hi_e = min(es), max(es)
            for e in sorted({max(e, emin) for e in range(lo_e, hi_e + 1)}):
                if e > emax:
                    continue
                h = e - 1  # half a place
                P = (10**q if q >= 0 else 1) * (2**-h if h < 0 else 1)
                S = (2**h if h >= 0 else 1) * (1 if q >= 0 else 10**-q)
                top = (2 << bits) * S // P
                bot = -(-(1 << bits) * S // P) if e > emin else 1
                lo, hi = max(A, bot), min(B - 1, top)
                for side in (1, -1):
                    w = closest(P, 2 * S, lo, hi, S, side)
                    if w is not None:
                        out.append((w, q))
    return out

def doubles(bits, emin, emax):
    """value m * 2^e, e = exponent of the last place"""
    out = []
    for e in range(emin, emax + 1):
        lo, hi = ((1 << (bits - 1)) if e > emin else 1), (1 << bits) - 1
        for off in (0, 2, -2):  # 4m, 4m+2, 4m-2: the number and its two borders, in quarters of a place
            h = e - 2
            # digits of the quotient by a power of ten such that about 17 (9) digits remain, and one more
            import math
            k0 = int(math.floor((e + bits) * math.log10(2))) - (16 if bits == 53 else 8)
            for k in (k0, k0 + 1):
                P = (2**h if h >= 0 else 1) * (10**-k if k < 0 else 1)
                S = (2**-h if h < 0 else 1) * (10**k if k >= 0 else 1)
                side = 1 if (k == k0) == (off >= 0) else -1
                m = closest(4 * P % S, S, lo, hi, (-off * P) % S, side)
                if m is not None:
                    out.append((m, e))
    return sorted(set(out), key=lambda x: (x[1], x[0]))

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r19, r17 = (10**18, 10**19), (10**16, 10**17)
    td = texts(53, -1074, 971, range(-342, 309 - 18), (r19, r17))
    tf = texts(24, -149, 104, range(-64, 38), (r19, (10**9, 10**10)))
    dd = doubles(53, -1074, 971)
    df = doubles(24, -149, 104)
    with open(os.path.join(here, "harness", "hardnums.h"), "w") as f:
        f.write("// Written by tools/mkhard.py: numbers whose rounding hangs on the last bits of a long product.\n#pragma once\n#include <stdint.h>\nnamespace hard\n{\n")
        for name, l in (("double_texts", td), ("float_texts", tf), ("doubles", dd), ("floats", df)):
            f.write("static const struct { uint64_t w; int q; } %s[] = {\n" % name)
            for i in range(0, len(l), 6):
                f.write("".join("{%d%s,%d}," % (a, "u" if a >= 2**63 else "", b) for a, b in l[i:i + 6]) + "\n")
            f.write("};\n")
        f.write("} // namespace hard\n")
    print(len(td), len(tf), len(dd), len(df))

main()
