#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current tree.
Exit 0: holds on everything explored. Exit 1 with a VIOLATION line: broken, and the counterexample reproduces natively.
Exit 2: no answer (build failure, an unfinished exploration, a counterexample that does not reproduce, ...)."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS, COMMON_ASSUMPTIONS
VERIF, B = build.VERIF, build.B
JOBS = max(2, min(8, os.cpu_count() or 8))

class NoAnswer(Exception):
    pass

def known_findings(pid):
    out = []
    p = VERIF + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out

def explore(ir, entry, opts, budget):
    out = B + '/out/' + entry
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [B + '/engine/release/symex', ir, entry, '--out', out, '--jobs', str(JOBS), '--timeout', str(budget)]
    cmd += ['--query-ms', str(opts.get('query_ms', 20000)), '--steps', str(opts.get('steps', 20000000)), '--viol', '3']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 120)
    try:
        d = json.load(open(out + '/result.json'))
    except Exception:
        raise NoAnswer('%s: engine failed\n%s' % (entry, p.stdout.decode(errors='replace')[-3000:]))
    r = {'entry': entry, 'wall_s': d['wall_s'], 'lost': d['lost_workers'], 'killed': d['killed'], 'violations': [], 'samples': [],
         'reach': {}, 'bad': {}, 'functions': set()}
    for p in d['parts']:
        for k, v in p.items():
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, float)):
                r[k] = max(r.get(k, 0), v) if k.startswith('max') else r.get(k, 0) + v
        for k in ('reach', 'bad'):
            for a, b in p[k].items():
                r[k][a] = r[k].get(a, 0) + b
        r['violations'] += p['violations']
        r['samples'] += p['samples']
        r['functions'].update(p['functions'])
        r['solver'] = p['solver']
    shutil.rmtree(out, ignore_errors=True)
    return r

def replay(so, entry, inputs, scratch):
    """Runs an entry natively on concrete inputs: ('ok'|'check'|'panic'|'assumption'|'timeout'|'died', details)."""
    d = tempfile.mkdtemp(prefix='r', dir=scratch)
    os.mkdir(d + '/data')
    with open(d + '/inputs', 'w') as f:
        for n, v in inputs:
            f.write('%s\t%s\n' % (n, v))
    env = {k: v for k, v in os.environ.items() if k not in ('BCALC_DATA_DIR', 'XDG_DATA_HOME')}
    env.update(VERIF_INPUTS=d + '/inputs', VERIF_RESULT=d + '/result', VERIF_STDOUT=d + '/stdout', VERIF_SCRATCH=d + '/data', HOME=d)
    try:
        subprocess.run([sys.executable, VERIF + '/tools/replay.py', so, entry], env=env, cwd=d, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        t = open(d + '/result').read().splitlines() if os.path.exists(d + '/result') else []
    except subprocess.TimeoutExpired:
        t = ['ENDED timeout']
    shutil.rmtree(d, ignore_errors=True)
    end = [l[6:] for l in t if l.startswith('ENDED ')]
    if not end and any(l.startswith('PANIC ') for l in t):
        # the entry points do not unwind: a panic that nothing catches ends the process
        return 'panic', t
    return (end[-1] if end else 'died'), t

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    t0 = time.time()
    total = P.get('budget', {}).get(tier, 780 if tier == 'quick' else 6 * 3600)
    os.makedirs(B, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='scratch', dir=B)
    code = 2
    try:
        code = run(pid, tier, seed, P, t0, total, scratch)
    except (NoAnswer, build.BuildError, subprocess.TimeoutExpired) as e:
        print('NO ANSWER property=%s: %s' % (pid, e))
    except Exception:
        traceback.print_exc()
        print('NO ANSWER property=%s' % pid)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def run(pid, tier, seed, P, t0, total, scratch):
    mods = tuple(P['mods'])
    build.crossterm()
    build.rational()
    pool = concurrent.futures.ThreadPoolExecutor(4)
    fe, fi = pool.submit(build.step, 'engine', mods), pool.submit(build.step, 'ir', mods)
    ir, ir_s = fi.result()
    _, eng_s = fe.result()
    fn = pool.submit(build.step, 'native', mods)
    print('built: engine %.0f s, IR %.0f s' % (eng_s, ir_s), flush=True)
    entries = [e for e in P['entries'] if tier in e.get('tiers', ('quick', 'thorough'))]
    res, skipped, trouble = [], [], []  # an entry in trouble does not keep a later one from finding a violation
    for e in entries:
        left = total - (time.time() - t0)
        bud = int(min(e.get('timeout', 300 if tier == 'quick' else 3600), left))
        r = None
        if bud < 5:
            skipped.append('%s: out of time' % e['name'])
        else:
            try:
                r = explore(ir, e['name'], e, bud)
            except (NoAnswer, subprocess.TimeoutExpired) as x:
                skipped.append('%s: %s' % (e['name'], x))
        if r is None:
            print('UNDECIDED: %s' % skipped[-1], flush=True)
            continue
        r['bounds'] = e['bounds']
        res.append(r)
        print('%-28s %7d paths %8d queries  solver %6.1f s  wall %6.1f s  %s%s' % (
            e['name'], r.get('paths', 0), r.get('queries', 0), r.get('solver_s', 0), r['wall_s'],
            r['reach'], '  VIOLATED' if r['violations'] else ''), flush=True)
        r['undecided'] = []
        if r['violations']:
            break
        for want in e.get('reach', ()):
            if want not in r['reach'] and not r['bad'] and not r.get('unfinished') and not r['killed'] and not r['lost']:
                trouble.append('%s: vacuous: never reached %r' % (e['name'], want))
        if not r.get('paths') and not r['bad'] and not r.get('unfinished') and not r['killed'] and not r['lost']:
            trouble.append('%s: no path completed' % e['name'])
        # Parts of an entry that were not explored: the verdict does not extend to them, and the evidence says so.
        if r['bad']:
            r['undecided'].append('paths outside the encodable fragment: %s' % r['bad'])
        if r['lost'] or r['killed'] or r.get('unfinished') or r.get('unknown'):
            r['undecided'].append('unfinished (lost %s, killed %s, unfinished %s, unknown %s)' % (
                r['lost'], r['killed'], r.get('unfinished'), r.get('unknown')))
        for u in r['undecided']:
            print('UNDECIDED: %s: %s' % (e['name'], u), flush=True)
    und = skipped + ['%s: %s' % (r['entry'], u) for r in res for u in r['undecided']]
    if 2 * len(set(u.split(':')[0] for u in und)) > len(entries):
        trouble += und
    so, nat_s = fn.result()
    known = known_findings(pid)
    confirmed, unconfirmed, seen_known = [], [], []
    for r in res:
        for v in r['violations'][:40]:
            if len(confirmed) >= 3:
                break
            end, log = replay(so, r['entry'], v['inputs'], scratch)
            k = [d for d in known if d.get('entry') == r['entry'] and d.get('inputs') == v['inputs']]
            if end in ('check', 'panic'):
                (seen_known if k else confirmed).append((r, v, end, log))
            else:
                unconfirmed.append((r, v, end, log))
    validated, samples = 0, []
    if trouble and not confirmed:
        raise NoAnswer('; '.join(trouble))
    if not confirmed and not unconfirmed:
        for r in res:
            todo = r['samples'][:: max(1, len(r['samples']) // 6)][:8]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as px:
                outs = list(px.map(lambda s: replay(so, r['entry'], s, scratch), todo))
            for s, (end, log) in zip(todo, outs):
                if end != 'ok':
                    raise NoAnswer('%s: native execution of a path disagrees with the encoding (%s %s): %s' % (r['entry'], end, log, s))
                validated += 1
                if len(samples) < 12:
                    samples.append({'entry': r['entry'], 'inputs': s, 'native': log})
    for d in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
    fns = set()
    for r in res:
        fns |= {f for f in r['functions'] if f.startswith('bcalc::') and 'verif_harness' not in f}
    cov = {
        'states': sum(r.get('paths', 0) + r.get('dead', 0) for r in res),
        'transitions': sum(r.get('steps', 0) for r in res),
        'traces_validated_against_impl': validated,
        'samples': samples,
        'rule': 'states = symbolic paths explored, transitions = IR instructions executed symbolically, traces = sample paths whose model was run on the native build with the same outcome',
        'asserts_checked': sum(r.get('asserts', 0) for r in res),
        'queries': sum(r.get('queries', 0) for r in res),
        'queries_sat': sum(r.get('sat', 0) for r in res),
        'queries_unsat': sum(r.get('unsat', 0) for r in res),
        'domain_decisions': sum(r.get('table', 0) for r in res),
        'solver_s': round(sum(r.get('solver_s', 0) for r in res), 2),
        'max_query_s': max([r.get('max_query_s', 0) for r in res] or [0]),
        'solver': res[0].get('solver') if res else None,
        'functions_encoded': sorted(fns),
        'exhaustive_within_bounds': not (confirmed or unconfirmed or und),
        'undecided': und,
        'entries': [{'entry': r['entry'], 'bounds': r['bounds'], 'paths': r.get('paths', 0), 'forks': r.get('forks', 0), 'asserts': r.get('asserts', 0),
                     'asserts_decided_by_solver': r.get('asserts_proved', 0), 'queries': r.get('queries', 0),
                     'solver_s': round(r.get('solver_s', 0), 2), 'wall_s': r['wall_s'], 'reached': r['reach'],
                     'functions': len(r['functions'])} for r in res],
        'build_s': {'engine': eng_s, 'ir': ir_s, 'native': nat_s},
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov,
          'assumptions': COMMON_ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    if confirmed:
        r, v, end, log = confirmed[0]
        d = VERIF + '/evidence/replay'
        os.makedirs(d, exist_ok=True)
        p = '%s/%s.json' % (d, pid)
        with open(p, 'w') as f:
            json.dump({'property': pid, 'entry': r['entry'], 'message': v['msg'], 'inputs': v['inputs'], 'native_end': end, 'native_log': log,
                       'how': 'python3 tools/check.py replay %s (build the native library first)' % p}, f, indent=1)
        for r, v, end, log in confirmed:
            print('violated: %s: %s\n  inputs %s\n  native: %s' % (r['entry'], v['msg'], v['inputs'], log))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if unconfirmed:
        r, v, end, log = unconfirmed[0]
        raise NoAnswer('counterexample does not reproduce natively (%s): %s %s %s %s' % (end, r['entry'], v['msg'], v['inputs'], log))
    print('property=%s holds %s: %d paths, %d assertions, %d solver queries, %d sample paths validated natively, %.0f s' % (
        pid, 'on everything explored, see UNDECIDED for what was not' if und else 'within the stated bounds', cov['states'], cov['asserts_checked'], cov['queries'], validated, time.time() - t0))
    return 0

def do_replay(path):
    d = json.load(open(path))
    mods = tuple(PROPS[d['property']]['mods'])
    build.crossterm()
    so, _ = build.step('native', mods)
    scratch = tempfile.mkdtemp(prefix='scratch', dir=B)
    end, log = replay(so, d['entry'], d['inputs'], scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    print('%s: %s\n%s' % (d['entry'], end, '\n'.join(log)))
    return 1 if end in ('check', 'panic') else 0

if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(do_replay(sys.argv[2]))
    main()
