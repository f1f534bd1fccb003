"""Runs one property's check: laws in parallel worker processes, shrinking, evidence, verdict."""
import argparse
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PHASOR_REPO', '/repo')
CASE_SECONDS = 150
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def load(prop):
    for fn in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if fn.startswith(prop + '_') and fn.endswith('.py'):
            return importlib.import_module('checks.' + fn[:-3]).R
    raise SystemExit('no check module for %s' % prop)


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang('no answer within %d s' % CASE_SECONDS)


def blame(exc):
    """Is the exception one that phasor raised (or that came out of code phasor called)?"""
    tb = exc.__traceback__
    root = os.path.join(REPO, 'phasor') + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(law, case):
    """-> (status, detail): 'ok', 'trivial', 'broken', 'harness'"""
    from vlib.core import Broken
    import warnings
    import hypothesis.errors
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = law.check(case)
        return ('trivial' if r is False else 'ok'), (r if isinstance(r, dict) else None)
    except Broken as e:
        return 'broken', str(e)
    except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
        raise
    except Hang as e:
        return 'broken', 'hang: %s\n%s' % (e, traceback.format_exc()[-1500:])
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if blame(e):
            return 'broken', 'crash: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1800:])
        if isinstance(e, (KeyError, TypeError, AttributeError, IndexError, ValueError)):
            # the harness could not consume what phasor handed back (missing entry, wrong type or shape)
            return 'broken', 'unusable result: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1800:])
        return 'harness', traceback.format_exc()
    finally:
        signal.alarm(0)


class Fail(Exception):
    pass


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def worker(args):
    import numpy as np
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    np.seterr(all='ignore')
    reg = load(args.prop)
    law = [l for l in reg.laws if l.name == args.law][0]
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45
    n = law.thorough if args.tier == 'thorough' else law.n
    n = max(1, int(round(n * args.scale / law.shards)))
    t0 = time.time()
    out = dict(law=law.name, evaluations=0, trivial=0, nontrivial=[], samples=[], tags={},
               broken=None, harness=None, cut=False)
    seen = set()
    state = dict(fail=None)

    def body(case):
        if time.time() - t0 > args.budget and state['fail'] is None:
            out['cut'] = True
            return
        status, detail = run_case(law, case)
        if state['fail'] is None:
            out['evaluations'] += 1
        if status == 'harness':
            out['harness'] = dict(case=case, detail=detail)
            raise Fail('harness')
        if status == 'broken':
            state['fail'] = dict(case=case, detail=detail)
            raise Fail('broken')
        if state['fail'] is None:
            if status == 'trivial':
                out['trivial'] += 1
            else:
                d = digest(case)
                if d not in seen:
                    seen.add(d)
                    if len(out['samples']) < 2 or (len(out['samples']) < 3 and len(seen) > 25):
                        out['samples'].append(case)
                if detail:
                    for k, v in detail.items():
                        kk = '%s=%s' % (k, v)
                        out['tags'][kk] = out['tags'].get(kk, 0) + 1

    seedv = int(hashlib.sha1(('%d/%s/%s/%d' % (args.seed, args.prop, law.name, args.shard)).encode())
                .hexdigest()[:12], 16)
    test = given(law.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                    print_blob=False)(test)
    test = hypothesis.seed(seedv)(test)
    try:
        test()
    except BaseException as e:
        if state['fail'] is None and out['harness'] is None:
            out['harness'] = dict(case=None, detail=traceback.format_exc())
    if state['fail'] is not None:
        out['broken'] = state['fail']
        out['harness'] = None
    out['nontrivial'] = sorted(seen)
    out['wall'] = time.time() - t0
    with open(args.out, 'w') as f:
        json.dump(out, f, default=str)
    os.dup2(real_out, 1)
    return 0


def write_replay(prop, law, case, detail, seed, tier):
    d = os.path.join(HERE, 'replays', prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (law, digest(case)[:10]))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, law=law, case=case, detail=detail, seed=seed, tier=tier,
                       replay='./run.sh %s --replay %s' % (prop, p)), f, indent=1, default=str)
    return p


def replay(args):
    reg = load(args.prop)
    with open(args.replay) as f:
        rec = json.load(f)
    law = [l for l in reg.laws if l.name == rec['law']][0]
    status, detail = run_case(law, rec['case'])
    print('%s/%s: %s' % (args.prop, law.name, status))
    if detail:
        print(detail)
    if status == 'broken':
        print('VIOLATION property=%s replay=%s' % (args.prop, os.path.abspath(args.replay)))
        return 1
    return 0 if status in ('ok', 'trivial') else 2


def known_list(prop):
    """known-findings.txt: lines 'known: property=C00 key=<key> <what>' (and 'fixed: ...', ignored here)"""
    p = os.path.join(HERE, 'known-findings.txt')
    r = {}
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    key, what = line.split('key=', 1)[1].strip().split(' ', 1)
                    r[key] = dict(what=what)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--law')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--out')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if args.budget is None:
        args.budget = 240.0 if args.tier == 'quick' else 720.0
    if args.worker:
        return worker(args)
    if args.replay:
        return replay(args)

    t0 = time.time()
    reg = load(args.prop)
    tmp = os.environ.get('TMPDIR', '/tmp')
    jobs = []
    for law in reg.laws:
        if args.law and law.name != args.law:
            continue
        for s in range(law.shards):
            jobs.append((law, s))
    # the budget is for the whole check; each job gets its share of it
    waves = -(-len(jobs) // WORKERS)
    args.budget = max(20.0, args.budget / max(1, waves))
    pending = list(jobs)
    running = []
    results = []
    errors = []
    stop = False
    while pending or running:
        while pending and len(running) < WORKERS and not stop:
            law, s = pending.pop(0)
            out = os.path.join(tmp, 'res-%s-%d.json' % (law.name, s))
            err = open(out + '.err', 'w')
            cmd = [sys.executable, '-m', 'vlib.runner', args.prop, '--worker', '--law', law.name,
                   '--shard', str(s), '--out', out, '--tier', args.tier, '--seed', str(args.seed),
                   '--scale', str(args.scale), '--budget', str(args.budget)]
            running.append((subprocess.Popen(cmd, stdout=err, stderr=err, cwd=HERE), law, s, out))
        if stop and not running:
            break
        still = []
        for p, law, s, out in running:
            if p.poll() is None:
                still.append((p, law, s, out))
                continue
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
            else:
                with open(out + '.err') as f:
                    errors.append('%s[%d]: exit %s\n%s' % (law.name, s, p.returncode, f.read()[-3000:]))
        running = still
        time.sleep(0.05)

    evaluations = sum(r['evaluations'] for r in results)
    nontriv = set()
    perlaw = {}
    samples = []
    tags = {}
    broken = []
    for r in sorted(results, key=lambda r: r['law']):
        nontriv.update(r['law'] + '/' + d for d in r['nontrivial'])
        pl = perlaw.setdefault(r['law'], dict(evaluations=0, distinct_nontrivial=0, trivial=0, wall_s=0.0))
        pl['evaluations'] += r['evaluations']
        pl['distinct_nontrivial'] += len(r['nontrivial'])
        pl['trivial'] += r['trivial']
        pl['wall_s'] = round(pl['wall_s'] + r['wall'], 2)
        if r['cut']:
            pl['cut_by_time_budget'] = True
        for k, v in r['tags'].items():
            t = tags.setdefault(r['law'], {})
            t[k] = t.get(k, 0) + v
        for s in r['samples'][:2]:
            if sum(1 for x in samples if x['law'] == r['law']) < 2:
                samples.append(dict(law=r['law'], case=s))
        if r['broken']:
            broken.append(r)
        if r['harness']:
            errors.append('%s: harness error on %s\n%s' % (r['law'], r['harness']['case'], r['harness']['detail']))

    rules = '; '.join('%s: %s' % (l.name, l.rule or 'every generated case that reaches the comparison')
                      for l in reg.laws)
    ev = dict(property=args.prop, tier=args.tier, seed=args.seed, level='exploration',
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontriv),
                            rule=('Cases are generated by Hypothesis strategies (one per law). A case is '
                                  'non-trivial when it was not discarded by its law as degenerate and reached '
                                  'the oracle comparison; distinct by content. Per law -- ' + rules),
                            samples=samples, per_law=perlaw, tags=tags),
              wall_s=round(time.time() - t0, 2), violations=len(broken))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not args.law:
        with open(os.path.join(HERE, 'evidence', args.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)

    rc = 0
    known = known_list(args.prop)
    for key, fn in reg.findings:
        if key not in known:
            continue
        try:
            there = fn()
        except Exception:
            there = True
        if there:
            print('KNOWN-FINDING: property=%s %s: %s' % (args.prop, key, known[key]['what']))
    done = set()
    for r in broken:
        rc = 1
        if r['law'] in done:
            continue
        done.add(r['law'])
        p = write_replay(args.prop, r['law'], r['broken']['case'], r['broken']['detail'], args.seed, args.tier)
        print('%s/%s broken on %s' % (args.prop, r['law'], json.dumps(r['broken']['case'], default=str)[:2000]))
        print('   ' + str(r['broken']['detail'])[:2500])
        print('VIOLATION property=%s replay=%s' % (args.prop, p))
    if args.v or args.law:
        for k, v in perlaw.items():
            print('  %-40s %s %s' % (k, v, json.dumps(tags.get(k, {}))[:300]))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (
        args.prop, args.tier, args.seed, evaluations, len(nontriv), len(broken), time.time() - t0))
    if rc == 0 and errors:
        print('\n'.join(errors)[:6000])
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
