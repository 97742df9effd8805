#!/usr/bin/env python3
"""Writes src/fields.rs: prime fields whose p-1 forces each possible exponent, in several sizes, and well-known fields."""
import random
from sympy import isprime, nextprime, primitive_root, factorint
R = random.Random(377)
CAND = [3, 5, 9, 7, 17, 15, 13, 11, 33, 27, 25, 23, 21, 19, 65, 51, 49, 45, 43, 41, 39, 37, 35, 31, 29]
PRIMES = [3, 5, 7, 17, 13, 11, 23, 19, 43, 41, 37, 31, 29]
out, seen = [], set()
def add(p):
    if p in seen or p < 3: return
    assert isprime(p)
    seen.add(p); out.append(p)
def prod(v):
    r = 1
    for x in v: r *= x
    return r
for k in range(len(PRIMES) + 1):
    d = 2 * prod(PRIMES[:k])
    # the smallest, and one per size
    c = d + 1
    while not (isprime(c) and (k == len(PRIMES) or (c - 1) % PRIMES[k])): c += d
    add(c)
    for bits in (31, 64, 99, 128, 195, 243, 255, 381):
        if d.bit_length() + 6 > bits: continue
        while True:
            c = R.getrandbits(bits) | (1 << (bits - 1))
            c = c // d * d + 1
            if c.bit_length() == bits and isprime(c) and (k == len(PRIMES) or (c - 1) % PRIMES[k]): break
        add(c)
for p in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 61, 257, 65537, 2**31 - 1, 2**61 - 1, 2**64 - 2**32 + 1, 2**89 - 1, 2**127 - 1, 2**255 - 19,
          2**256 - 2**32 - 977, 8444461749428370424248824938781546531375899335154063827935233455917409239041,
          0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
          0x30644e72e131a029b85045b68181585d2833e84879b97091e1a2b7a5d9f6c3a3 if False else 21888242871839275222246405745257275088548364400416034343698204186575808495617,
          21888242871839275222246405745257275088696311157297823662689037894645226208583,
          2111115437357092606062206234695386632838870926408408195193685246394721360383,
          258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177,
          4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787):
    add(p)
add(nextprime(2**752 + 12345))
add(nextprime(2**384 - 2**100))
with open("src/fields.rs", "w") as f:
    f.write("//! Written by fields.py.\n#![allow(non_upper_case_globals)]\nuse ark_ff::fields::{Fp, MontBackend, MontConfig};\n")
    for i, p in enumerate(out):
        n = (p.bit_length() + 63) // 64
        g = 2
        try:
            if p.bit_length() < 70: g = primitive_root(p)
        except Exception: pass
        f.write("#[derive(MontConfig)]\n#[modulus = \"%d\"]\n#[generator = \"%d\"]\npub struct C%d;\npub type F%d = Fp<MontBackend<C%d, %d>, %d>;\n" % (p, g, i, i, i, n, n))
    f.write("#[macro_export]\nmacro_rules! each_field {\n    ($m:ident) => {\n")
    for i in range(len(out)): f.write("        $m!(%d, $crate::fields::F%d);\n" % (i, i))
    f.write("    };\n}\npub const N: usize = %d;\n" % len(out))
    # the fields that round constants are generated for: compiling that for all of them would take long
    some = [i for i in range(len(out)) if i >= len(out) - 20 or i % 9 == 2]
    f.write("#[macro_export]\nmacro_rules! some_field {\n    ($m:ident) => {\n")
    for k, i in enumerate(some): f.write("        $m!(%d, %d, $crate::fields::F%d);\n" % (k, i, i))
    f.write("    };\n}\npub const SOME: usize = %d;\n" % len(some))
print(len(out), len(some))
