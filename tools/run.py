#!/usr/bin/env python3
"""Decides one property:  run.py PROPERTY-ID

Builds the property's check binaries from /repo's working tree, runs every
generated-input target of the property, writes evidence/<id>.json and prints
VIOLATION / KNOWN-FINDING lines.
"""
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as b  # noqa: E402

VERIF = b.VERIF


def load_checks():
    """targets/CHECKS: property binary[,binary...] thorough-scale"""
    r = {}
    for line in open(os.path.join(VERIF, 'targets', 'CHECKS')):
        line = line.split('#')[0].strip()
        if line:
            p = line.split()
            r[p[0]] = (p[1].split(','), float(p[2]) if len(p) > 2 else 20.0,
                       float(p[3]) if len(p) > 3 else 1.0)
    return r


def load_known():
    listed = {}
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        line = line.strip()
        if line.startswith('finding:'):
            words = line.split()
            kv = dict(w.split('=', 1) for w in words[1:3])
            listed[(kv['property'], kv['id'])] = ' '.join(words[3:])
    return listed


def fuzz(prop, binaries, seconds, seed, replaydir):
    """Coverage-guided campaign (libFuzzer) over the same targets."""
    out = {'targets': {}, 'execs': 0}
    names = [n for n in binaries if 'solver' not in b.libs_for(n)]
    if not names:
        return out, None
    try:
        paths = b.build(names, 'fuzz')
    except SystemExit as e:
        out['skipped'] = 'fuzz flavour did not build: %s' % e
        return out, None
    jobs = []
    for n, fpath in zip(names, paths):
        plain = os.path.join(b.BUILD, b.BINARIES[n][2], n)
        for line in subprocess.run([plain, '--list'], stdout=subprocess.PIPE,
                                   text=True).stdout.splitlines():
            p, t, _ = line.split()
            if p == prop:
                jobs.append((n, fpath, plain, t))
    per = max(10, int(seconds / max(1, (len(jobs) + 7) // 8)))
    procs = []
    import tempfile
    import shutil
    work = tempfile.mkdtemp(prefix='pbtfuzz.')
    viol = None
    try:
        for i in range(0, len(jobs), 8):
            procs = []
            for (n, fpath, plain, t) in jobs[i:i + 8]:
                corpus = os.path.join(work, t)
                os.makedirs(corpus)
                rep = os.path.join(work, t + '.replay')
                env = dict(os.environ, PBT_TARGET=t, PBT_REPLAY_OUT=rep,
                           ASAN_OPTIONS='detect_leaks=0')
                log = open(os.path.join(work, t + '.log'), 'w')
                procs.append((n, plain, t, rep, log.name, subprocess.Popen(
                    [fpath, '-seed=%d' % (seed + 1), '-max_total_time=%d' % per,
                     '-max_len=600', '-len_control=20', '-timeout=60',
                     '-rss_limit_mb=3000',
                     '-artifact_prefix=%s/%s-' % (work, t), corpus],
                    env=env, stdout=log, stderr=log)))
            for (n, plain, t, rep, log, p) in procs:
                p.wait()
                text = open(log, errors='replace').read()
                execs = 0
                cov = 0
                for line in text.splitlines():
                    if line.startswith('#'):
                        w = line.split()
                        try:
                            execs = int(w[0][1:])
                        except ValueError:
                            pass
                        if 'cov:' in w:
                            cov = int(w[w.index('cov:') + 1])
                out['targets'][t] = {'execs': execs, 'coverage_edges': cov}
                out['execs'] += execs
                if os.path.exists(rep):
                    # only believe it if the plain binary fails three times
                    bad = all(subprocess.run(
                        [plain, '--replay', rep], stdout=subprocess.DEVNULL,
                        stderr=subprocess.DEVNULL).returncode == 1
                        for _ in range(3))
                    if bad:
                        dst = os.path.join(replaydir, '%s-%s-fuzz.replay' % (prop, t))
                        shutil.copy(rep, dst)
                        viol = dst
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out, viol


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    binaries, tscale, qscale = load_checks()[prop]
    known = load_known()
    t0 = time.time()
    os.chdir(VERIF)
    replaydir = os.path.join(VERIF, 'replays')
    os.makedirs(replaydir, exist_ok=True)
    os.makedirs('evidence', exist_ok=True)
    paths = b.build(binaries)
    build_s = time.time() - t0
    scale = tscale if tier == 'thorough' else qscale
    if os.environ.get('VERIF_SCALE'):
        scale *= float(os.environ['VERIF_SCALE'])
    targets = []
    knowns = []
    errors = []
    for name, path in zip(binaries, paths):
        out = os.path.join(b.BUILD, 'result-%s-%s.json' % (prop, name))
        cmd = [path, '--property', prop, '--seed', str(seed), '--scale',
               str(scale), '--out', out, '--replaydir', replaydir,
               '--time', '250' if tier == 'quick' else '3600',
               '--shrink', '30', '--jobs', str(os.cpu_count() or 8)]
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run(cmd)
        if not os.path.exists(out):
            errors.append('%s exited with %d and no result' % (name, r.returncode))
            continue
        d = json.load(open(out))
        targets += d['targets']
        knowns += d['known']
    violations = []
    for t in targets:
        if t['failed']:
            violations.append((t['replay'], t['name'], t['msg'], t['desc']))
    known_lines = []
    for k in knowns:
        key = (prop, k['id'])
        if k['fails']:
            if key in known:
                known_lines.append('KNOWN-FINDING: property=%s %s: %s' %
                                   (prop, k['id'], known[key]))
            else:
                rep = os.path.join(replaydir, '%s-%s.txt' % (prop, k['id']))
                with open(rep, 'w') as f:
                    f.write('probe %s\n%s\n' % (k['id'], k['msg']))
                violations.append((rep, k['id'], k['msg'], ''))
    fuzzinfo = None
    if tier == 'thorough' and not violations:
        fuzzinfo, v = fuzz(prop, binaries,
                           int(os.environ.get('VERIF_FUZZ_S', '300')), seed,
                           replaydir)
        if v:
            violations.append((v, 'libFuzzer', open(v).read()[-1500:], ''))
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(t['evaluations'] for t in targets),
            'distinct_nontrivial': sum(t['distinct_nontrivial'] for t in targets),
            'rule': ' || '.join('%s: %s' % (t['name'], t['rule']) for t in targets),
            'samples': [s for t in targets for s in t['samples'][:3]] or ['(none)'],
            'oracle_comparisons': sum(t['comparisons'] for t in targets),
            'targets': [{k: t[k] for k in ('name', 'planned', 'evaluations',
                                           'discards', 'nontrivial',
                                           'distinct_nontrivial', 'comparisons',
                                           'labels', 'wall_s')} for t in targets],
        },
        'assumptions': ['the harness oracle (own syntax trees and evaluators under '
                        '/verif/lib and /verif/targets) is correct',
                        'generated inputs are within the bounds stated in rule'],
        'violations': len(violations),
        'wall_s': round(time.time() - t0, 2),
    }
    ev['coverage']['build_s'] = round(build_s, 2)
    if fuzzinfo:
        ev['coverage']['libfuzzer'] = fuzzinfo
    with open(os.path.join('evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for line in known_lines:
        print(line)
    for t in targets:
        print('%s %-24s cases=%d nontrivial=%d comparisons=%d %.1fs%s' % (
            prop, t['name'], t['evaluations'], t['distinct_nontrivial'],
            t['comparisons'], t['wall_s'],
            ' INCONCLUSIVE: ' + t['msg'] if t['inconclusive'] else ''))
    for rep, name, msg, desc in violations:
        print('target %s\n  case: %s\n  failure: %s' % (name, desc, msg))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
    sys.stdout.flush()
    if violations:
        return 1
    if errors:
        print('\n'.join(errors))
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
