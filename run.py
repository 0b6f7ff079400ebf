"""Decide a property: prove its contracts from /repo's current source, run
the same contracts against the real package, report.

  run.py PROPERTY [--tier quick|thorough]
  run.py --replay FILE
"""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SPORCO_REPO', '/repo')
T0 = time.time()


def setup_env():
    for k, v in dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                     OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                     MKL_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1',
                     NUMEXPR_MAX_THREADS='1', PYFFTW_NUM_THREADS='1',
                     OMPI_ALLOW_RUN_AS_ROOT='1',
                     OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
                     OMPI_MCA_btl='self', OMPI_MCA_plm='isolated').items():
        os.environ[k] = v
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.setrecursionlimit(20000)


def load_contracts():
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', 'c*.py'))):
        importlib.import_module('contracts.' +
                                os.path.basename(f)[:-3])
    from pyvc import framework
    return framework


# ---- running tasks in killable children ----------------------------------------

def _child(fn, args, conn):
    os.setsid()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        r = fn(*args)
    except BaseException as ex:
        r = dict(error='%s: %s' % (type(ex).__name__, ex))
    try:
        conn.send(r)
    finally:
        conn.close()
    os._exit(0)


def run_tasks(tasks, nproc, deadline):
    """tasks: list of (key, fn, args, timeout).  Yields (key, result or
    None)."""
    ctx = mp.get_context('fork')
    todo = list(tasks)
    live = []
    out = {}
    while todo or live:
        now = time.time()
        while todo and len(live) < nproc:
            key, fn, args, tmo = todo.pop(0)
            if now > deadline:
                out[key] = None
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, args, b))
            p.start()
            b.close()
            live.append((key, p, a, min(now + tmo, deadline)))
        nxt = []
        from multiprocessing.connection import wait
        if live:
            wait([x[2] for x in live], timeout=0.2)
        for key, p, a, dl in live:
            r = None
            done = False
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                done = True
            elif not p.is_alive():
                done = True
            elif time.time() > dl:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                done = True
            if done:
                p.join(2)
                if p.is_alive():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        p.kill()
                    p.join(2)
                a.close()
                out[key] = r
            else:
                nxt.append((key, p, a, dl))
        live = nxt
    return out


def t_sym(i, j, budget, timeout):
    from pyvc import framework as F
    con = F.REGISTRY[i]
    if timeout:
        con.timeout = timeout
    return F.run_sym(con, con.cases[j], budget)


def t_num(i, j, seed, trials, secs, first, hints):
    from pyvc import framework as F
    con = F.REGISTRY[i]
    import warnings
    warnings.simplefilter('ignore')
    t = time.time()
    n, sk, cl, fail = F.run_num(con, con.cases[j], seed, trials,
                                time.time() + secs, first, hints)
    return dict(n=n, skipped=sk, clauses=cl, fail=fail, secs=time.time() - t)


# ---- known findings -------------------------------------------------------------

def known(prop):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('known', [])
            if k['property'] == prop]


def match_known(kf, con, case, clauses):
    for k in kf:
        if k['contract'] == con and (k.get('case') in (None, case)) and all(
                any(c.startswith(p) for p in k['clauses']) for c in clauses):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    setup_env()
    scratch = tempfile.mkdtemp(prefix='sporcovc')
    os.environ['MPLCONFIGDIR'] = scratch
    try:
        if args.replay:
            return replay(args.replay)
        return check(args)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    F = load_contracts()
    import warnings
    warnings.simplefilter('ignore')
    for con in F.REGISTRY:
        if con.name == d['contract'] and con.prop == d['property']:
            for case in con.cases:
                if repr(case) == d['case'] and d.get('input'):
                    x = d['input']
                    r = F.run_num(con, case, x['seed'], 1, None, x['trial'],
                                  x.get('hints'))
                    print(json.dumps(r[3], indent=1, default=str))
                    return 1 if r[3] else 0
    print(json.dumps(d, indent=1))
    return 0


def check(args):
    prop = args.prop
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    thorough = tier == 'thorough'
    nproc = max(2, min(8, os.cpu_count() or 2))
    hard = T0 + (3300 if thorough else 640)
    F = load_contracts()
    # the real package (numeric world), imported before forking
    try:
        for m in ('sporco.prox', 'sporco.linalg', 'sporco.util',
                  'sporco.admm.cbpdn', 'sporco.pgm.cbpdn'):
            importlib.import_module(m)
        import_err = None
    except Exception as ex:
        import_err = '%s: %s' % (type(ex).__name__, ex)
    mul = 3 if thorough else 1
    jobs = [(i, j) for i, c in enumerate(F.REGISTRY) if c.prop == prop and
            (not args.only or c.name in args.only.split(','))
            for j in range(len(c.cases))]
    if not jobs:
        print('no contract for %s' % prop)
        return 2
    tasks = []
    for i, j in jobs:
        c = F.REGISTRY[i]
        if c.sym and not c.bounded_only:
            tasks.append((('sym', i, j), t_sym, (i, j, c.budget * mul, None),
                          c.budget * mul + 20))
    ntrial = {}
    for i, j in jobs:
        c = F.REGISTRY[i]
        if c.numeric:
            n = c.trials * (10 if thorough else 1)
            ntrial[i] = n
            tasks.append((('num', i, j), t_num,
                          (i, j, seed, n, c.numsecs * mul, 0, None),
                          c.numsecs * mul + 60))
    if args.v:
        print('%d tasks' % len(tasks))
    res = run_tasks(tasks, nproc, hard)
    # follow-up on failures: search for a failing input, retry unknowns
    kf = known(prop)
    tasks = []
    for i, j in jobs:
        s = res.get(('sym', i, j))
        n = res.get(('num', i, j))
        if s is None or s.get('error'):
            continue
        if s['status'] == 'refuted' and not (n and n.get('fail')):
            hints = []
            for o in s['obligations']:
                if o['status'] == 'refuted' and o.get('model'):
                    hints.append(o['model'])
            seen = []
            for h in hints:
                if h not in seen:
                    seen.append(h)
            for k, h in enumerate(seen[:4]):
                tasks.append((('hint', i, j, k), t_num,
                              (i, j, seed, 60, 20, 0, h), 60))
            tasks.append((('srch', i, j), t_num,
                          (i, j, seed, 600 * mul, 25 * mul, 1000, None),
                          25 * mul + 60))
            tasks.append((('again', i, j), t_sym,
                          (i, j, 120, 24000), 150))
    extra = run_tasks(tasks, nproc, max(hard, time.time() + 150)) \
        if tasks else {}
    return report(F, prop, tier, seed, jobs, res, extra, kf, args, ntrial,
                  import_err)


def report(F, prop, tier, seed, jobs, res, extra, kf, args, ntrial,
           import_err):
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '-*.json')):
        os.unlink(f)
    viol = []
    seen_known = []
    nob = ndis = 0
    backends = {}
    solver_s = 0.0
    trusted = set()
    files = set()
    fns = set()
    cases = []
    bounded = []
    undec = []
    ev = nontriv = clauses = 0
    samples = []
    for i, j in jobs:
        con = F.REGISTRY[i]
        case = con.cases[j]
        s = res.get(('sym', i, j))
        n = res.get(('num', i, j))
        fns.update(con.fns)
        if s is None and con.sym and not con.bounded_only:
            s = dict(status='unsupported', reason='time limit',
                     obligations=[])
        elif s is None:
            s = dict(status='bounded', reason=con.bounded_only or
                     'runtime check only', obligations=[])
        elif s.get('error'):
            s = dict(status='unsupported', reason=s['error'], obligations=[])
        ag = extra.get(('again', i, j))
        if ag and not ag.get('error') and ag['status'] != 'refuted':
            s = ag
        proved_case = s['status'] == 'proved'
        for o in s['obligations']:
            if o['status'] == 'bounded':
                bounded.append('%s %r: %s (%s)' % (con.name, case, o['name'],
                                                   o['detail']))
                continue
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
                be = o['backend']
                backends[be] = backends.get(be, 0) + 1
        solver_s += s.get('solver_s', 0.0)
        trusted.update(s.get('trusted', ()))
        files.update(s.get('files', ()))
        fail = None
        if n and n.get('error'):
            undec.append('%s %r runtime check: %s' % (con.name, case,
                                                      n['error']))
        elif n:
            ev += n['n']
            clauses += n['clauses']
            nontriv += n['n']
            fail = n['fail']
            if len(samples) < 3 and n['n']:
                samples.append('%s case %r: %d argument sets, %d clauses' % (
                    con.name, case, n['n'], n['clauses']))
        for k, v in sorted(extra.items(), key=lambda t: str(t[0])):
            if k[1:3] == (i, j) and k[0] in ('hint', 'srch') and v and \
                    not v.get('error'):
                ev += v['n']
                nontriv += v['n']
                clauses += v['clauses']
                if v['fail'] and fail is None:
                    fail = v['fail']
        ref = [o for o in s['obligations'] if o['status'] == 'refuted']
        if fail is not None and fail.get('soft') and not ref and (
                proved_case or fail['soft'] < 0.2):
            # rounding errors of an ill-conditioned instance
            samples.append('%s case %r: discrepancy of at most 1e-4 of the '
                           'values disregarded (%s)' % (
                               con.name, case, fail['fails'][0]['clause']))
            fail = None
        cases.append(dict(contract=con.name, case=repr(case),
                          status=s['status'], reason=s.get('reason', ''),
                          obligations=len(s['obligations']),
                          runtime=(n or {}).get('n', 0),
                          secs=round(s.get('secs', 0.0), 2),
                          runtime_secs=round((n or {}).get('secs', 0.0), 2)))
        if not proved_case:
            bounded.append('%s %r: %s (%s)' % (
                con.name, case, s['status'], s.get('reason', '')))
        rec = None
        if fail is not None:
            cl = [f['clause'] for f in fail['fails']]
            k = match_known(kf, con.name, repr(case), cl)
            if k:
                if k not in seen_known:
                    seen_known.append(k)
                continue
            rec = dict(property=prop, contract=con.name, case=repr(case),
                       functions=con.fns, input=fail,
                       failed_obligations=ref[:5],
                       how='python run.py --replay <this file>')
        elif ref and s['status'] == 'refuted':
            k = match_known(kf, con.name, repr(case),
                            [o['name'] for o in ref])
            if k:
                if k not in seen_known:
                    seen_known.append(k)
                continue
            rec = dict(property=prop, contract=con.name, case=repr(case),
                       functions=con.fns, input=None,
                       failed_obligations=ref[:5])
        if rec is not None:
            nm = '%s-%s-%08x.json' % (prop, con.name, zlib.crc32(
                repr(case).encode()))
            p = os.path.join(rdir, nm)
            with open(p, 'w') as f:
                json.dump(rec, f, indent=1, default=str)
            viol.append((p, rec))
    if import_err:
        p = os.path.join(rdir, '%s-import.json' % prop)
        with open(p, 'w') as f:
            json.dump(dict(property=prop, error=import_err), f)
        viol.append((p, dict(input=1, contract='import', case=import_err)))
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # concrete failures first
    viol.sort(key=lambda t: t[1]['input'] is None)
    for p, rec in viol:
        ob = rec.get('failed_obligations') or []
        nm = ob[0]['name'] if ob else ''
        if rec.get('input') and isinstance(rec['input'], dict):
            nm = rec['input']['fails'][0]['clause']
        print('  failed: %s %s: %s' % (rec['contract'], rec['case'], nm))
    for p, rec in viol:
        tail = '' if rec['input'] is not None else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (prop, p, tail))
    allp = all(c['status'] == 'proved' for c in cases)
    level = 'proof' if ndis else 'exploration'
    evd = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=nob, discharged=ndis,
            checker_cmd='/verif/check.sh %s --tier %s' % (prop, tier),
            trusted_base=sorted(
                ['pyvc (symbolic executor and term normaliser in /verif/'
                 'pyvc), z3, cvc5, CPython',
                 'machine arithmetic treated as exact real/integer '
                 'arithmetic'] +
                ['assumed contract: ' + t for t in trusted]),
            functions_under_contract=sorted(fns),
            source_files=sorted(files),
            contracts=len(set(c['contract'] for c in cases)),
            cases=len(cases),
            cases_proved=sum(c['status'] == 'proved' for c in cases),
            backends=backends, solver_s=round(solver_s, 2),
            bounded_cases=bounded, undecided=undec,
            evaluations=ev, distinct_nontrivial=nontriv,
            rule='contracts evaluated on the real package with arguments '
                 'drawn from VERIF_SEED; arguments not satisfying the '
                 'precondition are redrawn and not counted',
            clauses_evaluated=clauses, samples=samples, case_list=cases),
        assumptions=sorted(
            ['real arithmetic instead of floating point',
             'array dtypes are floating/complex as stated in the contract; '
             'numpy, scipy, pyfftw and numexpr behave as their assumed '
             'contracts (tested at run time by the same contracts)'] +
            [b for b in bounded[:40]]),
        wall_s=round(time.time() - T0, 2), violations=len(viol))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1, default=str)
    print('%s: %d contracts, %d/%d cases proved, %d/%d obligations, '
          '%d runtime evaluations, %d violations, %.1fs' % (
              prop, evd['coverage']['contracts'],
              evd['coverage']['cases_proved'], len(cases), ndis, nob, ev,
              len(viol), time.time() - T0))
    if args.v:
        for c in cases:
            if c['status'] != 'proved' or c['secs'] > 20:
                print('  ', c)
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
