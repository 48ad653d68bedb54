#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from props import CHECKS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'C16': 'A statement about the value of a pure function of the input (output size); no schedule, fault, time or history can influence it, so simulation has nothing to decide beyond plain input sampling.',
}
NOTE = {
    'default': 'Seeded search over simulated executions of the real code; every violation is confirmed by running its seed twice and its minimised choice list twice in fresh processes. Evidence, not proof: holds for the runs explored. Trusts the simulator, the compilers and the CPU model. ',
}
m = dict(version=1, setup_cmd='python3 build.py ' + ' '.join(sorted({f for c in CHECKS.values() for f in c['flavours']})),
         hooks=dict(guard='none', enable='No hooks were added to /repo: the seams (CPUID/XGETBV/RDTSC instructions, libc calls, codec table, OpenCL API, basic-block and memory-access callbacks) are inserted at compile and link time by build.py.', source_commits=[]),
         checks=[dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                      technique='deterministic simulation with fault injection (seeded search, %s simulator)' % CHECKS[i]['sim'], level='exploration', level_note=NOTE['default'] + CHECKS[i].get('note', '')) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NA.get(i, 'Not built yet.')) for i in ids if i not in CHECKS])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
