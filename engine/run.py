"""check driver:  run.py <property> [--tier quick|thorough] [--replay file]"""
import importlib
import json
import multiprocessing as mpx
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

threading.stack_size(256 * 1024 * 1024)

from engine import symex, native as nat, contract as ct, lemma as lm   # noqa
import contracts                                                        # noqa


def load_contracts():
    for f in sorted(os.listdir(os.path.join(ROOT, 'contracts'))):
        if f.endswith('.py') and f not in ('__init__.py',):
            importlib.import_module('contracts.' + f[:-3])


def in_thread(fn):
    box = {}

    def g():
        try:
            box['r'] = fn()
        except BaseException as e:
            box['e'] = (type(e).__name__, str(e), traceback.format_exc())
    t = threading.Thread(target=g)
    t.start()
    t.join()
    return box


def worker(task, prog, native, seed, tier, deadline, conn):
    kind, arg = task
    sys.setrecursionlimit(1000000)
    if kind == 'retry':
        kind = 'fn'
        ct.SCALE = 5.0

    # functions known by their calls only (no closed postcondition): evaluated by the real one of this tree
    def real(name):
        memo = {}

        def f(*a):
            k = tuple(float(x) for x in a)
            if k not in memo:
                con = ct.ALL[name]
                r = native.batch(con, [dict((p.name, v) for p, v in zip(con.params, k))])[0]
                if 'ret' not in r or r['ret'] != r['ret']:
                    raise ct.EvalError('no value of ' + name)
                memo[k] = ct.mp.mpf(r['ret'])
            return memo[k]
        return f
    for name in ct.BYCALL:
        ct.tm.UF_EVAL[name] = real(name)

    def go():
        if kind == 'fn':
            con = ct.ALL[arg]
            ver = getattr(con, 'verify', None)
            if ver is not None:
                rep = ver(prog, native, seed, tier, deadline)
            else:
                rep = ct.verify(con, prog, native, seed, tier, deadline=deadline)
            rep.__dict__.pop('_def', None)
            rep.__dict__.pop('_scr', None)
            return rep
        prop, idx = arg
        return lm.run_lemma(prop, idx, tier)
    box = in_thread(go)
    try:
        conn.send(box)
    except Exception as e:
        conn.send({'e': ('PickleError', str(e), traceback.format_exc())})
    conn.close()


def run_tasks(tasks, prog, native, seed, tier, deadline, on_result, nproc=8):
    """tasks: list (grows through on_result)"""
    ctx = mpx.get_context('fork')
    running = []
    while tasks or running:
        while tasks and len(running) < nproc:
            t = tasks.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(t, prog, native, seed, tier, deadline, w))
            p.start()
            w.close()
            running.append((t, p, r, time.time()))
        done = []
        for item in running:
            t, p, r, t0 = item
            if r.poll(0):
                try:
                    box = r.recv()
                except EOFError:
                    box = {'e': ('Died', 'worker ended without a result', '')}
                p.join()
                done.append((item, box))
            elif not p.is_alive():
                done.append((item, {'e': ('Died', 'worker ended (exit %s)' % p.exitcode, '')}))
            elif time.time() > deadline + 20:
                p.kill()
                p.join()
                done.append((item, {'e': ('Timeout', 'deadline', '')}))
        for item, box in done:
            running.remove(item)
            if on_result(item[0], box, tasks):
                # a violation shown on the real code: the rest cannot change the answer
                del tasks[:]
                for _, p, _, _ in running:
                    p.kill()
                    p.join()
                return
        if not done:
            time.sleep(0.01)


ASSUME = [
    'C float/double arithmetic is read as exact real arithmetic (rounding, overflow to inf and NaN inputs excluded)',
    'constants equal up to relative 1e-12 (double) / 3e-6 (float) are identified; the double/float nearest to pi is identified with pi where periodicity of sin/cos is used',
    'libm functions (sin cos sqrt atan2 fmod pow exp log ...) satisfy their mathematical definition (trusted contracts)',
    'clang -O0 -ffp-contract=off LLVM IR of /repo/src faithfully represents the code that g++ compiles',
    'pointer arguments are valid, and alias only as listed in the contract (aliasing variants are verified separately)',
]


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    load_contracts()
    from contracts.props import PROPS
    P = PROPS[prop]
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return check(prop, P, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, P, tier, seed, t0, work):
    src = symex.SRC
    total = P.get('budget', 600) if tier == 'quick' else 3000
    deadline = t0 + total
    prog = symex.Program(work, src)
    os.makedirs(os.path.join(work, 'n'))
    nb = {}

    def bn():
        try:
            nb['r'] = nat.build(src, os.path.join(work, 'n'))
        except Exception as e:
            nb['e'] = str(e)
    th = threading.Thread(target=bn)
    th.start()
    prog.loadmany(sorted(set(ct.ALL[f].fn for f in P['functions']) | {'slalib'}))
    th.join()
    if 'e' in nb:
        print('ERROR: the library does not build: %s' % nb['e'][-800:])
        return 2
    native = nat.Native(*nb['r'])
    reports = {}
    lemmas = []
    errors = []
    seen = set(P['functions'])
    tasks = [('fn', f) for f in P['functions']]
    tasks += [('lemma', (prop, i)) for i in range(len(lm.LEMMAS.get(prop, ())))]
    times = {'solver': 0.0, 'norm': 0.0, 'queries': 0}

    def on_result(t, box, tasks):
        if t[0] in ('fn', 'retry'):
            if 'r' in box:
                rep = box['r']
                reports[t[1]] = rep
                times['solver'] += rep.solver_s
                times['norm'] += rep.norm_s
                times['queries'] += rep.queries
                for u in rep.used:
                    if u not in seen:
                        seen.add(u)
                        if not ct.ALL[u].trusted:
                            tasks.append(('fn', u))
                return any(v.get('confirmed') and not match_known(known, v) for v in rep.violations)
            else:
                errors.append((t[1], box['e']))
        else:
            if 'r' in box:
                lemmas.extend(box['r'][0])
                times['solver'] += box['r'][1]
                times['norm'] += box['r'][2]
            else:
                errors.append(('lemma %s' % lm.LEMMAS[prop][t[1][1]][0], box['e']))
    known = load_known(prop)
    run_tasks(tasks, prog, native, seed, tier, deadline, on_result)
    # an obligation the provers gave up on: once more, with five times their budgets
    again = [f for f in sorted(reports) if open_obls(reports[f]) and not reports[f].violations]
    if again and not any(r.violations for r in reports.values()):
        run_tasks([('retry', f) for f in again], prog, native, seed, tier, max(deadline, time.time() + 60), on_result, nproc=4)
    for f in sorted(reports):
        oo = open_obls(reports[f])
        if oo and not reports[f].violations:
            for o in oo:
                reports[f].violations.append({'function': f, 'obligation': o.what, 'confirmed': False, 'prover': o.detail,
                                              'code_term': 'obligation not discharged (%s)' % o.by})
    # functions whose verification died: bounded stand-in on the real code
    for fn, e in list(errors):
        if fn in ct.ALL and 'vacuous' not in e[1]:
            con = ct.ALL[fn]
            rep = ct.Report(fn)
            rep.mode, rep.reason = 'bounded', '%s: %s' % e[:2]
            rep.obls.append(ct.Obl(fn, 'extraction', 'undischarged', 'none', rep.reason))
            if con.spec is not None:
                def go(con=con, rep=rep):
                    smp = ct.Sampler(con, seed)
                    paths = con.spec_num(smp.inp)
                    ct.native_check(con, native, rep, smp, paths, [()], tier)
                in_thread(go)
            reports[fn] = rep
            errors.remove((fn, e))
    obls = [o for f in sorted(reports) for o in reports[f].obls] + lemmas
    viol = [v for f in sorted(reports) for v in reports[f].violations]
    new = []
    for v in viol:
        k = match_known(known, v)
        if k:
            line = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
            if line not in known['printed']:
                known['printed'].append(line)
                print(line)
        else:
            new.append(v)
    nd = sum(1 for o in obls if o.status == 'discharged')
    by = {}
    for o in obls:
        if o.status == 'discharged':
            by[o.by] = by.get(o.by, 0) + 1
    bounded = {f: reports[f].reason for f in reports if reports[f].mode != 'proof'}
    for f in reports:
        if ct.ALL[f].bound and f not in bounded:
            bounded[f] = 'proved for every input at the stated bound: ' + ct.ALL[f].bound
    und = [o.as_dict() for o in obls if o.status == 'undischarged']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'),
        'coverage': {
            'obligations': len(obls), 'discharged': nd,
            'checker_cmd': './check %s (clang++ -O0 IR -> engine/symex.py -> engine/norm.py + z3)' % prop,
            'trusted_base': ['engine/ (IR parser, symbolic executor, equational normaliser)', 'z3', 'clang++ front end',
                             'libm contracts', 'contracts/ (the specifications)'] +
                            ['%s: assumed contract (%s)' % (u, ct.ALL[u].trusted) for u in sorted(seen) if ct.ALL[u].trusted],
            'discharged_by': by,
            'functions_under_contract': {f: {'paths': reports[f].paths, 'mode': reports[f].mode,
                                             'obligations': len(reports[f].obls),
                                             'discharged': sum(1 for o in reports[f].obls if o.status == 'discharged'),
                                             'canaries_refuted': reports[f].canaries,
                                             'inlined': [x for x in reports[f].inlined][:20],
                                             'callee_contracts': reports[f].used,
                                             'note': ct.ALL[f].note,
                                             'wall_s': round(reports[f].wall, 2)} for f in sorted(reports)},
            'lemmas': [o.as_dict() for o in lemmas],
            'undischarged': und[:40],
            'bounded_functions': bounded,
            'solver_s': round(times['solver'], 2), 'normaliser_s': round(times['norm'], 2), 'z3_queries': times['queries'],
            'evaluations': sum(reports[f].native_samples for f in reports),
            'distinct_nontrivial': sum(reports[f].distinct for f in reports),
            'rule': 'native differential runs of every function against its contract (bounded; validates extraction); distinct = distinct outputs',
            'samples': [s for f in sorted(reports) for s in reports[f].samples][:4],
            'errors': ['%s: %s' % (a, b[:2]) for a, b in errors],
        },
        'assumptions': ASSUME + P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged %s; %d functions, %d native runs; %.1fs' % (
        prop, len(obls), nd, by, len(reports), ev['coverage']['evaluations'], ev['wall_s']))
    for o in und[:8]:
        print('  undischarged: %s %s %s' % (o['function'], o['obligation'], o['detail'][:200]))
    for f, r in bounded.items():
        print('  bounded: %s (%s)' % (f, r))
    if new:
        new.sort(key=lambda v: not v.get('confirmed'))
        v = new[0]
        rp = os.path.join(ROOT, 'replays')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'violations': new[:20]}, f, indent=1, default=str)
        print('  failed obligation: %s: %s' % (v['function'], v['obligation']))
        if v.get('input') is not None:
            print('  input: %s' % str(v['input'])[:600])
        print('  contract: %s   native: %s' % (str(v.get('contract'))[:200], str(v.get('native', v.get('code_term')))[:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v.get('confirmed') else ' no-failing-input-found'))
        return 1
    if errors:
        for a, e in errors:
            print('ERROR %s: %s: %s\n%s' % (a, e[0], e[1], e[2][-1500:]))
        return 2
    if not obls:
        print('ERROR: no obligations generated')
        return 2
    return 0


def open_obls(rep):
    """undischarged obligations that the contract does not declare as tolerated"""
    if rep.mode != 'proof':
        return []
    tol = ct.ALL[rep.name].tolerate
    return [o for o in rep.obls if o.status == 'undischarged' and not any(x in o.what for x in tol)]


def load_known(prop):
    p = os.path.join(ROOT, 'known-findings.json')
    d = {'printed': [], 'list': []}
    if os.path.exists(p):
        d['list'] = [k for k in json.load(open(p)).get('findings', []) if k.get('property') == prop]
    return d


def match_known(known, v):
    for k in known['list']:
        if k.get('function') == v.get('function') and k.get('obligation') in str(v.get('obligation')) and \
                (k.get('input') is None or k['input'] == v.get('input')):
            return k
    return None


def replay(path):
    """run the recorded input(s) on the current tree"""
    load_contracts()
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        native = nat.Native(*nat.build(symex.SRC, work))
        bad = 0
        for v in d['violations']:
            if getattr(ct.ALL.get(v['function']), 'rerun', None):
                # a history of calls in a fresh process
                again = ct.Report(v['function'])
                ct.ALL[v['function']].rerun(native, again)
                for w in again.violations:
                    print('%s %s input=%s\n  native=%s\n  VIOLATES: expected %s' % (w['function'], w['obligation'], w['input'], w['native'], w['contract']))
                bad += bool(again.violations)
                continue
            if not v.get('input') or not isinstance(v['input'], dict) or 'history' in v['input']:
                print('obligation (no input to replay): %s: %s\n%s' % (v['function'], v['obligation'], v.get('prover')))
                continue
            con = ct.ALL[v['function']]
            var = tuple(tuple(x) for x in v.get('alias', ()))
            r = native.batch(con, [v['input']], var)[0]
            if con.spec is None and getattr(con, 'check', None):
                b = con.check(v['input'], r)
                print('%s input=%s\n  native=%s\n  %s' % (v['function'], v['input'], r, 'VIOLATES: %s' % b if b else 'agrees'))
                bad += bool(b)
                continue
            smp = ct.Sampler(con, 1)
            paths = con.spec_num(smp.inp)
            b = ct.compare(con, v['input'], r, smp, paths, 1.0, var)
            print('%s input=%s\n  native=%s\n  %s' % (v['function'], v['input'], r, 'VIOLATES %s: %s' % b if b else 'agrees'))
            bad += bool(b)
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    box = in_thread(main)
    if 'e' in box:
        print(box['e'][2])
        sys.stdout.flush()
        os._exit(3)
    sys.stdout.flush()
    os._exit(box['r'] or 0)
