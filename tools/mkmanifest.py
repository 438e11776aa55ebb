#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after editing)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(H + '/properties.jsonl')]
COMMON = ' Trusted: the specification of proc_macro2, quote and std in verus/prelude*.rs, derived Clone, the extraction rules, Verus and Z3; the falsifier samples these. '
N = {
 'C01': 'Unbounded proof: every consume_/parse_ function is proved to return a value whose printed form, prepended to what it left, is what it was given; printing is proved per ToTokens implementation.',
 'C02': 'Unbounded proof that the stream is split into the printed item and the untouched rest and that parse_item returns only if nothing is left; a second set of contracts proves, for every supported declaration, that exactly the tokens the grammar (verus/strict/grammar.rs) assigns to it are removed.',
 'C03': 'Unbounded proof: a decreases measure for every loop and every recursion (weight of the remaining tokens, nested groups included).',
 'C04': 'Unbounded proof of the slot predicates (wf_*, aspect 4) for every item kind and member; "filled exactly when present" follows from the peek contracts, sampled on generated declarations.',
 'C05': 'Unbounded proof that every part ends where the reference scan ends (wf_*, aspect 5; scan is a recursive specification of separators outside of angle brackets).',
 'C06': 'Unbounded proof of the attribute and visibility predicates (wf_*, aspect 6).',
 'C07': 'Unbounded proof of the value slot and that an error is returned only for a complex value; a second set of contracts proves, for every supported declaration, that a complex value anywhere gives the error; its location is sampled.',
 'C08': 'Unbounded proof against a sequence model for push, insert, items, punct, len, is_empty, printing.',
 'C09': 'Unbounded proof of the builders and constructors; one known finding.',
 'C10': 'Unbounded proof of the printed and owned argument lists.',
 'C11': 'Unbounded proof of every accessor, shared and mutable.',
 'C12': 'Unbounded proof that a returned path prints the tokens of the type and that its parts are well formed; completeness (every path accepted) is proved for plain paths and sampled for generic arguments; absence of panics is proved for tokens in which an identifier follows every apostrophe.',
 'C13': 'Unbounded proof of construction, combination, span and rendering; Display is dropped by the extraction and sampled.',
 'C14': 'Unbounded proof with a second set of contracts (verus/strict) under which every panic, unwrap and expect is an obligation: on the supported grammar each parsing function returns and consumes exactly its part; printing and editing functions do not panic on well-formed values. Termination is C03. The grammar itself is executed on generated and mutated declarations.',
 'C15': 'Unbounded proof that span() is the join of the printed tokens; joining itself is an uninterpreted function of the dependency.',
}
checks = []
for p in P:
    i = p['id']
    checks.append(dict(property=i, quick_cmd=f'python3 bin/check.py {i} quick', thorough_cmd=f'VERIF_TIER=thorough python3 bin/check.py {i} thorough',
        technique='contract-based deductive verification (Verus) of the code extracted from /repo on every run, with a falsifier that replays failures on the real crate',
        level='proof', level_note=N[i] + COMMON))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
    notes='No hooks in /repo: contracts live in /verif/verus and are attached to the functions of /repo/src by the extractor on every run. Known findings: known-findings.txt. Exit 0 also when a function cannot be brought into the verified subset after a change: it is then covered by the bounded falsifier only and the evidence says so (status).')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
