#!/usr/bin/env python3
"""Writes spec/data/srgb.json: entry k (from 0) is the bit pattern of the smallest float32 x
in [0,1] whose sRGB encoding (IEC 61966-2-1) times 65535 is at least k."""
import json, os, struct
from decimal import Decimal, getcontext
getcontext().prec = 50
D = Decimal


def value(bits):
    return D(struct.unpack('<f', struct.pack('<I', bits))[0])


def inverse(k):
    y = D(k) / 65535
    if y <= D('12.92') * D('0.0031308'):
        return y / D('12.92')
    return ((y + D('0.055')) / D('1.055')) ** D('2.4')


out = []
for k in range(65536):
    x = inverse(k)
    bits = struct.unpack('<I', struct.pack('<f', float(x)))[0]
    while bits > 0 and value(bits - 1) >= x:
        bits -= 1
    while value(bits) < x:
        bits += 1
    out.append(bits)
assert out[0] == 0 and out[-1] == 0x3f800000 and all(a < b for a, b in zip(out, out[1:]))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'data', 'srgb.json')
with open(p, 'w') as f:
    f.write('[' + ',\n'.join(','.join(map(str, out[i:i + 16])) for i in range(0, 65536, 16)) + ']\n')
