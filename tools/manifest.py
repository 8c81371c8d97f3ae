#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (tools/cNN.py)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = '5f75861'
TECH = {
    'C01': ('TLC model checking of Sweep.tla over all small problems (SweepMC); TLC trace checking of simulated runs of the real code against it', 'every recorded solve of schedule-controlled runs must be an enabled step of the sweep specification'),
    'C02': ('TLC model checking of Sweep.tla with symbolic values (SweepMC); TLC trace checking of simulated runs of the real code against it', 'inflow of every recorded solve compared with the specification state'),
    'C03': ('TLC model checking of the exchange protocols (deadlock, termination); replay of TLC schedules and random schedules in the real code', 'every explored schedule of the real code terminates; protocols exhaustively checked on small systems'),
    'C04': ('TLC trace checking of recorded messages against Net.tla', 'every message, send completion and collective of schedule-controlled runs'),
    'C05': ('TLC evaluation of the schedule specification on the schedules the code builds', 'schedules of random meshes, partitions and settings'),
    'C06': ('TLC model checking of confluence (SweepMC); TLC comparison of outputs of the real code over configurations', 'flux of random pairs of configurations equal'),
    'C07': ('TLC evaluation of the priority specification and trace checking of the execution order', 'priorities and order of solves on every thread'),
    'C08': ('TLC trace checking of block-Jacobi iterations; TLC model checking of the exchange', 'lagging, iteration counts and stopping; the exchange for all neighbour relations'),
    'C09': ('TLC trace checking of Krylov interface events', 'operators, right-hand sides and solutions'),
    'C10': ('TLC trace checking of source iteration', 'sources, counts and stopping'),
    'C11': ('TLC evaluation of the partition specification on files written by the code', 'random meshes and assignments'),
    'C12': ('TLC evaluation of the file format specification; TLC-generated corruptions replayed', 'random meshes, corrupted files'),
    'C13': ('TLC evaluation of the refinement specification on files written by the code', 'random small meshes'),
    'C14': ('TLC-generated decks replayed into the real reader', 'decks generated from the specification'),
    'C15': ('TLC evaluation of the output file specification on recorded solves', 'random meshes, partitions, pre-existing files'),
    'C16': ('TLC evaluation of the discrete transport equations on recorded solves', 'every recorded local solve'),
    'C17': ('TLC evaluation of the quadrature specification on the recorded quadrature', 'every order'),
    'C18': ('TLC comparison of all groups of recorded solves with one-group runs', 'random problems'),
    'C20': ('TLC trace checking of the printed lines, interleaved with the recorded run, against Report.tla', 'figures of random runs of all algorithms recomputed'),
    'C21': ('TLC model checking of file failures (FaultsMC); every file operation of recorded runs made to fail in turn, TLC trace checking against Faults.tla', 'every single failure of small runs; inputs cut at and disks full at every byte of small files'),
    'C19': ('TLC evaluation of the mesh specification on the loaded mesh', 'every cell, face and angle of random meshes'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'tools', 'c%s.py' % i[1:])
    if os.path.exists(f):
        lev = re.search(r"LEVEL = '(\w+)'", open(f).read()).group(1)
        checks.append({'property': i, 'quick_cmd': 'python3-vt tools/check.py %s quick' % i,
                       'thorough_cmd': 'python3-vt tools/check.py %s thorough' % i,
                       'technique': TECH[i][0], 'level': lev, 'level_note': TECH[i][1]})
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
hooks = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', HOOK], text=True).strip()
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'hooks': {'guard': 'TYCHO2_VERIF', 'enable': 'tools/build_sim.sh compiles the sources of /repo with -DTYCHO2_VERIF', 'source_commits': [hooks]},
     'checks': checks, 'not_applicable': na,
     'notes': 'Specifications: TLA+ (spec/), checked with TLC. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
