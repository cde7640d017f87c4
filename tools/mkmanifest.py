#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ' Trusted: TLC, the recording driver (every call, result and changed number is logged), the ASan build. Executions that were not generated are not observed.'
POOL = 'TLA+ state machine (BigNum.tla, model-checked exhaustively in MCBigNum.tla); TLC-enumerated transitions of that model are replayed into the real code and TLC validates every recorded trace, obligations %s'
NOTES = {
 'C01': ('value', 'Every sum computed by the real code in enumerated small pairs, boundary tables, carry chains, aliases and long operands of 13 number types must be explained by the Add action with an exact digit-column oracle.'),
 'C02': ('value', 'As C01 for differences: both magnitudes orders, all signs, borrow chains, aliases.'),
 'C03': ('value', 'As C01 for products, with a sweep over all short length pairs of maximal digits and operands of thousands of digits (above 400000 limb products the exact column test is replaced by residues modulo four primes, which never rejects a right product).'),
 'C04': ('value, div0', 'Quotients are judged by q*d + r with 0 <= r < d; zero divisors by their sign table; hangs and traps are events without an action.'),
 'C05': ('cmp', 'All six operators on complete boundary tables (special values and redundant representations included), on numbers differing in one digit at every position and in histories.'),
 'C06': ('special', 'The complete table special x {special, zero, finite} x operator x form, and histories after special values appear.'),
 'C07': ('form', 'Representation obligation on every arithmetic result of tables, pairs and histories.'),
 'C08': ('frame, copy, law', 'Every event carries all numbers that changed, so the frame condition is checked on each call; forms of an operator and aliases are related by equality claims; moves must not allocate.'),
 'C09': ('edit', 'Sequence model of the editing interface; every operation at every position and random editing histories.'),
 'C10': ('text', 'The text is a function of the stored state; every boundary number, sampled digit values of all types.'),
 'C11': ('alloc', 'Each allocation of each call is made to fail in turn; exception, frame, left operand and leaked blocks are checked, then the numbers are used again.'),
 'C13': ('raw', 'The stand-alone magnitude routines as actions on the digits of pool members, in a normal and in a BN_DEBUG build: complete boundary tables, pairs, chains, leading zeros, empty sequences, in place.'),
 'C14': ('index, diag', 'Index action with a refused branch over sizes 0.. and indices in and out of range up to 2^64-1; diagnostics by severity with captured standard streams.'),
 'C16': ('all value obligations', 'Long mixed histories on pools of numbers and conversions between all pairs of the 13 number types.'),
}
EXTRA = {
 'C12': ('TLA+ state machine of machine words (IntType.tla, checked against integer arithmetic by MCIntType.tla); TLC validates traces of the real digit types',
         'Every operator of every digit type, with digit and built-in operands on either side; 8-bit operand pairs exhaustively, wider words on boundary and random values; text in and out.' + TRUST),
 'C15': ('TLA+ state machine of one transform table (Fourier.tla); the algorithm is model-checked exactly in a cyclotomic ring (MCFourier.tla); TLC validates traces of the real helpers',
         'Tables, transforms, inverses and convolutions of sequences from length 0 to 4096 in double and float; short spectra at every bin in fixed point, all spectra at the quarter bins to 1e-6, every spectrum through its inverse; power-of-two helpers for every 8 and 16-bit argument and the boundaries of 32 and 64-bit ones.' + TRUST),
 'C17': ('TLA+ model of calls whose memory accesses interleave (Threads.tla, refined to single accesses in MCThreads.tla: with no hidden mutable state every result is the one the call has alone; with any hidden state the model loses that); TLC enumerates the interleavings replayed and validates traces of real threads recorded under ThreadSanitizer',
         'Threads calling on numbers of their own and reading shared ones, free-running and in every interleaving TLC enumerates for two threads; every result is compared with the result of the same call alone and a race report is an event without an action.' + TRUST),
}
def main():
    checks = []
    for p in sorted(set(NOTES) | set(EXTRA)):
        if p in NOTES:
            o, n = NOTES[p]; tech = POOL % o; note = n + TRUST
        else: tech, note = EXTRA[p]
        checks.append({'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                       'technique': tech, 'level': 'model_checking', 'level_note': note})
    na = []
    claimed = {c['property'] for c in checks}
    for l in open(os.path.join(V, 'properties.jsonl')):
        i = json.loads(l)['id']
        if i not in claimed: na.append({'property': i, 'reason': 'check under construction'})
    m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the public interface already exposes the abstract state. Known findings: known_findings.txt.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
