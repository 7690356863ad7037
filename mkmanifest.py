#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json
PROOF = 'P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P26'.split()
OTHER = {
    'P29': 'runs of up to 2 learning iterations, 3 self-play iterations, 3 passes and 2 games, any shuffle order and match result',
    'P30': 'every value of the learning and optimizer settings; searches of up to 4 simulations and rounds; noise concentration and temperature by native runs only',
    'P31': 'two runs with four stored directories of a sample each, up to 3 samples in a directory, every scope',
    'P32': 'every pairing of agents and models, matches of up to 3 games',
    'P12': 'arbitrary table games of three positions with up to two moves each (any results, successors and passes), up to 3 iterations',
    'P13': 'trees of up to 4 nodes of any shape with arbitrary statistics',
    'P14': 'trees of up to 4 nodes of any shape, path lengths up to 4',
    'P15': 'arbitrary table games of three positions with up to two moves each, round limits up to 3',
    'P16': 'arbitrary table positions with up to two moves, eight move numbers, batches of up to 3, arbitrary policies',
    'P17': 'search trees with up to 3 children under the root, batches of up to 3 roots, arbitrary visit counts',
    'P18': 'root nodes with up to 3 children, arbitrary priors, noise and epsilon',
    'P22': 'up to 4 samples, batch sizes up to 4',
    'P23': 'up to 3 samples per directory, two directories (up to 60 samples in the native runs)',
    'P25': 'matches of the 400 games the code plays, over a prepared game with four kinds of courses with any results and a single deviating one, up to 3 turns (one game that never ends)',
    'P27': 'up to 2 recorded games of up to 3 turns with any states, of the backgammon, tic-tac-toe and a prepared game',
    'P24': 'every combination of given, best and missing model files of the network of a table game, one training step',
    'P21': 'one game of four positions with up to two moves each (round limits up to 3), two such games with up to one move each, any network',
    'P20': 'batches of up to 3 table games of four positions, up to 2 moves each, up to 2 iterations, any network',
    'P19': 'arbitrary table games of three positions with up to two moves each, up to 3 iterations',
    'P28': 'every tree up to depth 3 with up to 2 children per node, depth 2 with up to 4, depth 5 with one, and lists of up to 3 trees, with arbitrary moves'}
REASON = {}
PNOTE = {
    'P05': 'Offered plays: for every position and roll. That de-duplication of an arbitrary list keeps the first play of each group is additionally checked for lists of 3 out of 13 plays (bounded, not counted as proved) and natively. ',
    'P26': 'The match is replaced by its contract (P25, bounded); five results at the thresholds are also checked through the body of the match. '}
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROOF:
        t = 'contract-based deductive verification: verification conditions generated from /repo source by dvc, discharged by z3'
        lv, note = 'proof', PNOTE.get(i, '') + 'All obligations of the contract harnesses of this property are discharged for all inputs the precondition admits; assumes the listed models of std/itertools/rand/tch and the correctness of dvc and z3.'
    elif i in OTHER:
        t = 'contract-based deductive verification with bounded data-structure sizes: verification conditions generated from /repo source by dvc, discharged by z3'
        lv, note = 'other', 'Bounded stand-in, not counted as proved: ' + OTHER[i] + '. Within the bound every obligation is discharged by z3.'
    else:
        na.append({'property': i, 'reason': REASON.get(i, 'contracts not written yet')})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': t, 'level': lv, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
