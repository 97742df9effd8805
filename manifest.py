#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
REF = "independent reference (own field arithmetic, Merlin/STROBE, Poseidon, linear algebra; self-checked against published vectors)"
TRUST = "Trusts the reference in harness/src, rustc, and decaf377's conversions between field elements and bytes."
CHECKS = {
    "C01": ("online oracle: every observed hash_n call compared with an " + REF,
            "Observed executions only. Inputs are hostile, structured, source-dictionary and targeted-internal-state; field is 2^253 so coverage is sampled. " + TRUST),
    "C03": ("differential monitor on both permutation paths of real instances, whole output state, plus overflow/debug-assertion build",
            "Sampled states incl. targeted internal states; compares the code with itself. " + TRUST),
    "C04": ("monitor inverting each observed output state with the reference inverse permutation; distinctness monitor over related-input families",
            "Bijectivity is confirmed pointwise on observed states, not proved. " + TRUST),
    "C05": ("history monitor: random operation histories over live instances, clones and one-shot hashes; every return value and output state checked against a fresh-instance model",
            "Histories up to 66,000 calls on one instance; mismatches are confirmed against a fresh process. " + TRUST),
    "C02": ("online oracle: both permutation paths under generated parameter sets compared word for word with an " + REF,
            "41 compiled shapes (widths 2-40, up to 300 rounds of a kind), exponents to 2^20+3 (the field's power routine is linear in the exponent) and the inverse S-box; matrices and constants sampled. " + TRUST),
    "C06": ("stress monitor over 2-16 threads with per-call oracle, repeated fresh processes, ThreadSanitizer build (standard library instrumented), Send/Sync witness",
            "Schedules are those the OS and injected yields/spins produced; TSan's happens-before detection widens them. " + TRUST),
    "C07": ("online oracle on random gadget programs: every gadget value compared with the native hash and the reference, every honest system checked for satisfaction",
            "Sampled programs and values; satisfaction is judged by ark-relations. " + TRUST),
    "C08": ("offline monitor over recorded constraint systems: constraint propagation and deviating-value search must force the output to the native hash",
            "Forced outputs are established per recorded system and input assignment, not for all inputs; the solver gives up (counted) on systems outside its rules. " + TRUST),
    "C09": ("offline monitor comparing recorded constraint matrices across values, synthesis modes, histories and prefixes", "Sampled allocation patterns and values."),
    "C10": ("online monitor of Groth16 proofs made and verified under the committed keys, honest and forged statements", "Sampled pre-images; soundness is observed only against the forgeries tried (altered outputs, false witnesses)."),
    "C11": ("monitor over the loaded constants against an independent derivation (own Merlin/STROBE transcript, round-number search, Cauchy matrix)",
            "Complete over the constants of all seven rates in the two builds observed. " + TRUST),
    "C12": ("monitor over the loaded optimised constants against recomputation from the same rate's base constants", "Complete over the tables of all seven rates in the two builds observed. " + TRUST),
    "C13": ("online oracle: observed inverses checked by multiplication and against reference elimination; singular families must be rejected", "Sizes 1-8, sampled entries from hostile families. " + TRUST),
    "C14": ("online oracle: determinants, minors, signs against reference elimination", "Sizes 1-8, sampled entries from hostile families. " + TRUST),
    "C15": ("online oracle: products, transposes and element-wise operations against entry-wise definitions", "A fixed list of compiled shapes, sampled entries. " + TRUST),
    "C16": ("history monitor: accessors after construction and updates compared with a plain list; wrong lengths must be rejected", "A fixed list of compiled shapes, sampled histories. " + TRUST),
    "C17": ("offline comparison of recorded result digests across eleven host builds, freestanding 32- and 64-bit programs and a big-endian target under Miri; feature combinations type-checked",
            "Sampled workloads; the big-endian target sees only small ones. Trusts rustc's code generation to be the same compiler users have."),
    "C18": ("counting allocator armed around every operation, strict seccomp from before the first use, and programs linked without std or libc",
            "Observed executions only; operations that panic are not included. Trusts the kernel's seccomp."),
    "C19": ("AddressSanitizer, MemorySanitizer, overflow- and precondition-checked builds and Miri over valid and refused operations; circuits under AddressSanitizer",
            "Observed executions only; Miri sees small workloads. Trusts the sanitizers."),
    "C20": ("online oracle: every choice of the round-number generators compared with an exhaustive search over the specification's inequalities",
            "Sampled levels, widths, moduli and exponents. Where two real numbers are too close to tell apart numerically, either answer is accepted. The generator's modules are "
            "built on their own (the crate as a whole does not compile)."),
    "C21": ("online oracle: the chosen exponent compared with a derivation from recomputed addition chains; the S-box undone on sample values",
            "149 fixed prime fields, chosen so that every prefix of the list of exponents is excluded by some field in several sizes."),
    "C22": ("online oracle: generated round constants compared with an independent transcript; both forms of the permutation run with plain and optimised constants",
            "35 fixed prime fields, sampled widths, levels, round numbers, exponents and matrices. " + TRUST),
    "C23": ("model-based monitor of descriptor encodings, conversions, equality and accessor histories", "Exponents below 2^16 complete, the rest sampled; round counts sampled."),
}
NA = {}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                          evidence_file="evidence/%s.json" % i, technique=CHECKS[i][0], level="exploration", level_note=CHECKS[i][1])
                     for i in ids if i in CHECKS],
             not_applicable=[dict(property=i, reason=NA.get(i, "check under construction")) for i in ids if i not in CHECKS],
             notes="No hooks in /repo: the public API exposes everything the monitors observe. See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
