"""Generate MANIFEST.json from the property modules that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'seeded input/configuration/stream-granularity schedules on a simulated file system, round trip against the input',
 'C02': 'seeded arrays, layouts and stream schedules on a simulated file system, round trip against the input array',
 'C03': 'seeded append histories on a simulated file system against an executable model of the archive',
 'C04': 'seeded operation histories with unacceptable requests, byte comparison of the archive',
 'C05': 'seeded rewrite histories, crash injected at raw writes (torn sectors), recovery reads',
 'C06': 'seeded media damage (bit, byte, range, cut) injected between write and read',
 'C07': 'crash and power-loss injection at raw writes of every compression, recovery reads',
 'C08': 'crash injection at raw writes during append histories, recovery reads and further appends against a model',
 'C09': 'seeded fault injection (EIO, ENOSPC, short input, open/close failure, MemoryError, interrupt) into every operation',
 'C10': 'seeded operations with faults, whole simulated file system compared before and after',
 'C11': 'seeded operations with faults, open-handle table of the simulated file system as invariant',
 'C12': 'deterministic thread scheduler (random, PCT, bytecode-level) over concurrent operations, results against solo runs',
 'C13': 'seeded operation histories against the same call in a fresh process; argument and process state snapshots',
 'C14': 'seeded operation histories, output parsed by an independent implementation of the format',
 'C15': 'seeded disagreeing archives, bounds monitor on the native codec seam and poisoned fresh memory',
 'C16': 'seeded command lines and file situations with faults, exit status/output/files against a model of the contract',
 'C17': 'I/O order monitor on the simulated file system during seeded runs',
 'C18': 'seeded damaged archives under step, event, memory and wall budgets',
 'C19': 'seeded damage before appends, append and re-read against the damage verdict before',
 'C20': 'archives from a seeded independent writer read by every surface',
}
NOTE = {
 'C05': 'crash states: every raw write boundary (sampled beyond a cap) plus torn writes at 512-byte sectors',
 'C07': 'crash states: every raw write boundary (sampled beyond a cap), torn writes, random subsets of lost sectors',
 'C08': 'crash states: every raw write boundary (sampled beyond a cap) plus torn writes; the 32-byte header write is atomic',
 'C12': 'switch points: every simulated I/O and codec call and every line or bytecode of bloscpack; the C code of blosc and numpy is atomic',
}
NA = {
 'C21': 'pure functions of their arguments: no schedule, I/O, clock or fault to simulate; their use in archives is covered by C14 and C20',
 'C22': 'pure arithmetic: nothing to simulate or to inject; its consequences in archives are covered by C01, C03 and C14',
 'C23': 'pure string and number conversion: nothing to simulate or to inject',
 'C24': 'the interleavings are those of the native C-Blosc thread pool, which this family can not put under a simulated scheduler from Python; set_nthreads is a recorded stub in every run',
}
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for p in props:
    if os.path.exists(H + '/sim/props/%s.py' % p.lower()):
        checks.append({'property': p, 'quick_cmd': './check %s' % p,
                       'thorough_cmd': './check %s --tier thorough' % p,
                       'technique': 'deterministic simulation with fault injection: ' + TECH[p],
                       'level': 'exploration',
                       'level_note': 'seeded search, no proof of absence; ' +
                       NOTE.get(p, 'bounds and coverage in evidence/%s.json' % p)})
    elif p not in NA:
        NA[p] = 'check not built yet'
json.dump({'version': 1, 'setup_cmd': './check selftest quick', 'checks': checks,
           'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA]},
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
