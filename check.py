#!/usr/bin/env python3
"""check.py <property>: builds the code under test from /repo's working tree, explores seeded
simulated executions of it, and decides the property on every one of them.

  exit 0  the property held on everything explored
  exit 1  a violation, with a line  VIOLATION property=<id> replay=<path>
  exit 2  the check itself failed (build error, a run that does not repeat exactly, ...)

  check.py replay <file>     runs a replay file again, verbosely
"""
import json, os, re, shutil, subprocess, sys, time, collections
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
from props import CHECKS

SIM = os.path.join(B.OUT, 'sim')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
NW = min(8, os.cpu_count() or 1)

def die(msg):
    print('CHECK-ERROR ' + msg)
    sys.stdout.flush()
    raise SystemExit(2)

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop] if os.path.exists(p) else []

def sim(args, timeout=300):
    try:
        p = subprocess.run([SIM] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired:
        return 124, ''

def parse_viol(out):
    m = re.search(r'VIOL sig=\[(.*?)\] hist=([0-9a-f]+)', out)
    return m.groups() if m else None

def gate(cfg, prop, viol, work):
    """same seed twice in fresh processes, then minimise, then replay the minimised file twice."""
    base = ['--sim', cfg['sim'], '--prop', prop]
    got = [parse_viol(sim(base + ['--one', str(viol['seed'])])[1]) for _ in range(2)]
    if got[0] is None or got[0] != got[1] or got[0][0] != viol['sig']:
        # code that reads memory nobody initialised may behave differently under one and the same schedule: the violation counts
        # if the same seed breaks the property again and again, and the report says that the history itself varies
        more = got + [parse_viol(sim(base + ['--one', str(viol['seed'])])[1]) for _ in range(4)]
        if sum(g is not None for g in more) >= 3:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            final = os.path.join(rdir, '%s_seed%d.json' % (prop, viol['seed']))
            d = dict(viol)
            d['sim'], d['found_by_seed'] = cfg['sim'], viol['seed']
            d['message'] = viol['message'] + ' (the code under test behaves differently under one and the same schedule: %d of %d repetitions violate the property)' % (sum(g is not None for g in more), len(more))
            json.dump(d, open(final, 'w'))
            return final, d
        return None, 'seed %d did not repeat exactly: found %r, then %r' % (viol['seed'], viol['sig'], got)
    raw = os.path.join(work, 'raw_%d.json' % viol['seed'])
    rc, out = sim(base + ['--one', str(viol['seed']), '--viol', raw, '-v'])
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    final = os.path.join(rdir, '%s_seed%d.json' % (prop, viol['seed']))
    rc, out = sim(base + ['--minimise', raw, final], timeout=240)
    if rc != 0 or not os.path.exists(final):
        shutil.copy(raw, final)
    d = json.load(open(final))
    reps = [parse_viol(sim(base + ['--replay', final])[1]) for _ in range(2)]
    if reps[0] is None or reps[0] != reps[1] or reps[0][0] != viol['sig']:
        shutil.copy(raw, final)
        d = json.load(open(final))
        reps = [parse_viol(sim(base + ['--replay', final])[1]) for _ in range(2)]
        if reps[0] is None and reps[1] is None:
            return None, 'replay of %s did not repeat exactly: %r' % (final, reps)
    d['sim'], d['seed'], d['found_by_seed'] = cfg['sim'], viol['seed'], viol['seed']
    json.dump(d, open(final, 'w'))
    return final, d

def run_segment(cfg, prop, seg, work, t_end, agg):
    """one block of seeds over all workers; returns list of violations (dicts)."""
    procs, viols = [], []
    runs_per = max(1, seg['runs'] // NW)
    for w in range(NW):
        procs.append(start_worker(cfg, prop, w, seg['seed0'] + w, runs_per, t_end, work))
    pend = dict(enumerate(procs))
    while pend:
        time.sleep(0.05)
        for w, (p, st, vf, seed0, n) in list(pend.items()):
            rc = p.poll()
            if rc is None:
                if time.time() > t_end + 120:
                    p.kill()
                    die('worker %d did not finish' % w)
                continue
            del pend[w]
            out = p.stdout.read().decode('latin1')
            p.stdout.close()
            if rc == 0:
                merge(agg, st)
            elif rc == 10 and os.path.exists(vf):
                v = json.load(open(vf))
                agg['runs'] += (v['seed'] - seed0) // NW + 1
                viols.append(v)
                if not any(match(k, v) for k in known_findings(prop)):
                    for w2, q in pend.items():
                        q[0].kill()
                    for w2, q in pend.items():
                        q[0].wait()
                    return viols
                left = n - ((v['seed'] - seed0) // NW + 1)
                if left > 0 and time.time() < t_end:
                    pend[w] = start_worker(cfg, prop, w, v['seed'] + NW, left, t_end, work)
            else:
                die('worker %d ended with %d: %s' % (w, rc, out[-600:]))
    return viols

def start_worker(cfg, prop, w, seed0, runs, t_end, work):
    st, vf = os.path.join(work, 'st%d.json' % w), os.path.join(work, 'v%d.json' % w)
    for f in (st, vf):
        if os.path.exists(f):
            os.unlink(f)
    p = subprocess.Popen([SIM, '--sim', cfg['sim'], '--prop', prop, '--seed0', str(seed0), '--stride', str(NW), '--runs', str(runs),
                          '--time', '%.1f' % max(1, t_end - time.time()), '--stats', st, '--viol', vf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p, st, vf, seed0, runs

def merge(agg, st):
    d = json.load(open(st))
    agg['runs'] += d['runs']
    agg['sim_ns'] += d['sim_ns']
    agg['judged'] += d['judged']
    for k, v in d['stats'].items():
        agg['stats'][k] += v
    agg['samples'] += d['samples'][:6]
    for ext, key in (('.set', 'distinct'), ('.st', 'states')):
        b = open(st + ext, 'rb').read()
        if len(agg[key]) < 6_000_000:
            agg[key].update(b[i:i + 8] for i in range(0, len(b), 8))
        os.unlink(st + ext)

def match(k, v):
    return k['match'] in v['sig'] + ' ' + v.get('message', '')

def main():
    if len(sys.argv) > 2 and sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        cfg = CHECKS[d['property']]
        B.build(cfg['flavours'])
        rc, out = sim(['--sim', cfg['sim'], '--prop', d['property'], '--replay', sys.argv[2], '-v'])
        print(out)
        raise SystemExit(1 if rc == 10 else 0)
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    t0 = time.time()
    B.build(cfg['flavours'])
    t_build = time.time() - t0
    work = os.path.join(B.OUT, 'work_%s_%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    agg = dict(runs=0, judged=0, sim_ns=0.0, stats=collections.Counter(), samples=[], distinct=set(), states=set())
    t1 = time.time()
    runs, limit = cfg[TIER]
    t_end = t1 + limit
    viols, violation, err = [], None, None
    block, done = min(runs, cfg.get('block', runs)), 0
    kf = known_findings(prop)
    hit = {}
    attempts = 0
    seed_base = SEED * 1_000_000_000 + 1
    while done < runs and time.time() < t_end and violation is None and attempts < 5:
        n = min(block, runs - done)
        vs = run_segment(cfg, prop, dict(seed0=seed_base + done, runs=n), work, t_end, agg)
        for v in vs:
            k = next((k for k in kf if match(k, v)), None)
            if k:
                hit.setdefault(k['what'], v)
                continue
            attempts += 1
            path, info = gate(cfg, prop, v, work)
            if path is None:
                err = info
            else:
                violation = (path, info)
                break
        if any(not any(match(k, v) for k in kf) for v in vs) and violation is None:      # carry on behind the seed that could not be confirmed
            done = max(done + NW, max(v['seed'] for v in vs) - seed_base + NW)
        else:
            done += n
    wall = time.time() - t1
    faults = {k[6:]: v for k, v in sorted(agg['stats'].items()) if k.startswith('fault:')}
    other = {k: v for k, v in sorted(agg['stats'].items()) if not k.startswith('fault:')}
    ev = dict(property=prop, tier=TIER, seed=SEED, level='exploration', wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
              coverage=dict(
                  evaluations=agg['judged'], simulated_runs=agg['runs'], distinct_nontrivial=len(agg['distinct']), rule=cfg['rule'],
                  samples=agg['samples'][:16],
                  simulated_runs_per_hour=int(agg['runs'] / max(wall, 1e-3) * 3600), seeds_per_hour=int(agg['runs'] / max(wall, 1e-3) * 3600),
                  first_seed=seed_base, simulated_time_s=round(agg['sim_ns'] / 1e9, 3),
                  fault_kinds_injected=faults, events=other,
                  distinct_states=len(agg['states']), distinct_states_rule=cfg['state_rule'],
                  real_components=cfg['real'], stubbed_components=cfg['stub'], build_s=round(t_build, 1)),
              assumptions=cfg['assumptions'])
    if violation:
        ev['coverage']['violation'] = dict(seed=violation[1]['seed'], signature=violation[1]['sig'], message=violation[1]['message'], replay=violation[0], minimised_choices=len(violation[1]['choices']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d simulated runs in %.1f s (%d distinct), %d faults injected' % (prop, agg['runs'], wall, len(agg['distinct']), sum(faults.values())))
    if violation:
        print('%s' % violation[1]['message'])
        print('seed %d, minimised to %d choices; replay: python3 %s/check.py replay %s' % (violation[1]['seed'], len(violation[1]['choices']), VERIF, violation[0]))
        print('VIOLATION property=%s replay=%s' % (prop, violation[0]))
        raise SystemExit(1)
    if err:
        die(err)
    missing = [f for f in cfg.get('must_fire', []) if not faults.get(f) and not other.get(f)]
    if missing:
        die('these faults were configured but never fired: %s' % missing)

if __name__ == '__main__':
    main()
