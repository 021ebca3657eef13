#!/usr/bin/env python3
"""run_check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] [--build-only]"""
import argparse, json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build as B
from checks import BINARIES, CHECKS

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int); ap.add_argument('--maxtime', type=float)
    ap.add_argument('--replay'); ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    binary, quick, thorough = CHECKS[a.id]
    tus, libs, san, backends = BINARIES[binary]
    exe = B.build(binary, tus, libs, san, backends)
    tb = time.time() - t0
    if a.build_only: print(exe); return 0
    ev = os.path.join(B.ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, 'replays'); os.makedirs(rep, exist_ok=True)
    out = os.path.join(B.BUILD, 'out-%s.json' % a.id)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:hard_rss_limit_mb=2500:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=171'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    if a.replay:
        return subprocess.call([exe, '--replay', a.replay], env=env)
    cases = a.cases or (thorough if a.tier == 'thorough' else quick)
    maxtime = a.maxtime or (3000 if a.tier == 'thorough' else 400)
    cmd = [exe, '--prop', a.id, '--seed', str(a.seed), '--cases', str(cases), '--jobs', '8', '--maxtime', str(maxtime),
           '--shrink', '40', '--out', out, '--replays', rep]
    rc = 0
    for attempt in range(2):
        rc = subprocess.call(cmd, env=env, stdout=subprocess.DEVNULL)
        if rc != 3: break
    if rc not in (0, 1, 3): print('check error: harness exit %d' % rc); return 2
    j = json.load(open(out))
    cov = dict(evaluations=j['evaluations'], distinct_nontrivial=j['distinct_nontrivial'], rule=j['rule'], samples=j['samples'] or ['none'],
               nontrivial=j['nontrivial'], discarded=j['discarded'], classes=j['labels'], cases_requested=cases, known_findings_present=j['known'])
    wall = time.time() - t0
    json.dump(dict(property=a.id, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed, level='exploration', coverage=cov,
                   assumptions=['clang++ -O1 with AddressSanitizer and libstdc++ assertions', 'build %.1fs, run %.1fs' % (tb, j['wall'])],
                   wall_s=round(wall, 2), violations=1 if rc else 0), open(os.path.join(ev, a.id + '.json'), 'w'), indent=1)
    for k in j['known']: print('KNOWN-FINDING: property=%s %s' % (a.id, k))
    print('%s: %d cases, %d distinct non-trivial, build %.1fs run %.1fs' % (a.id, j['evaluations'], j['distinct_nontrivial'], tb, j['wall']))
    if rc in (1, 3):   # 3: failed on both attempts, but not again when a case was run on its own
        print('%s' % j['message'][:1500])
        print('VIOLATION property=%s replay=%s' % (a.id, j['replay']))
        return 1
    return 0
sys.exit(main())
