#!/usr/bin/env python3
"""Runs the symbolic executor on the harnesses of one property, replays what it reports against the
compiled code, compares sampled paths with the compiled code, and writes the evidence file."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(VERIF, '.work')
BIN = os.path.join(VERIF, 'bin')
HARN = os.path.join(VERIF, 'harness')
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = 840 if TIER == 'quick' else 3 * 3600


def say(*a):
    print(*a, flush=True)


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    except subprocess.TimeoutExpired as t:
        def s(x):
            return x.decode(errors='replace') if isinstance(x, bytes) else (x or '')
        return subprocess.CompletedProcess(cmd, 124, s(t.stdout), s(t.stderr))


def build(target, args, cwd, env=None):
    os.makedirs(BIN, exist_ok=True)
    tmp = f'{target}.{os.getpid()}'
    r = sh(['go', 'build', '-o', tmp] + args, cwd=cwd, env=env, timeout=600)
    if r.returncode != 0:
        say('build failed:', r.stderr[-3000:])
        return False
    os.replace(tmp, target)
    return True


def build_engine():
    t = os.path.join(BIN, 'gosym')
    return t if build(t, ['.'], os.path.join(VERIF, 'engine'), {'GOFLAGS': '-mod=mod'}) else None


def build_replay(race=False, overlay=None, name=None):
    t = os.path.join(BIN, name or ('replay-race' if race else 'replay'))
    args = []
    if race:
        args.append('-race')
    if overlay:
        args += ['-overlay', overlay]
    return t if build(t, args + ['./replay'], HARN) else None


def run_replay(binary, jobs, tag, _env=None, **kw):
    f = os.path.join(WORK, f'{tag}.jobs.json')
    json.dump(jobs, open(f, 'w'))
    cmd = [binary, '-jobs', f, '-tier', TIER]
    for k, v in kw.items():
        cmd += ['-' + k.replace('_', '-') + '=' + str(v)]
    r = sh(cmd, cwd=WORK, env=dict({'GORACE': 'halt_on_error=1 exitcode=66'}, **(_env or {})), timeout=900)
    out = []
    for l in r.stdout.splitlines():
        if l.startswith('{'):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    return r, out


def outcome(r, out):
    """What a native run showed: a list of (kind, id) pairs."""
    res = []
    if 'WARNING: DATA RACE' in r.stderr:
        res.append(('race', 'race'))
    m = re.search(r'^fatal error: (.*)', r.stderr, re.M)
    if m:
        res.append(('deadlock' if 'asleep' in m.group(1) else 'fatal', m.group(1)))
    m = re.search(r'^panic: (.*)', r.stderr, re.M)
    if m and 'sym.infeasible' not in m.group(1):
        res.append(('panic', m.group(1)))
    for o in out:
        for a in o.get('failed') or []:
            res.append(('assert', a))
        if o.get('panic'):
            res.append(('panic', o['panic']))
        if o.get('hung'):
            res.append(('deadlock', 'hung'))
    return res


def same(v, res):
    """Whether the native outcome res shows the violation v."""
    if v['kind'] == 'assert':
        return ('assert', v['id']) in res
    if v['kind'] == 'race':
        return any(k == 'race' or (k == 'fatal' and 'concurrent map' in i) for k, i in res)
    if v['kind'] == 'budget':
        return ('deadlock', 'hung') in res
    return any(k == v['kind'] for k, i in res)


def replay(pid, v, n):
    """Replays a violation natively. Returns the path of the replay file, and how it was reproduced or None."""
    os.makedirs(os.path.join(WORK, 'replay'), exist_ok=True)
    path = os.path.join(WORK, 'replay', f'{pid}-{n}.json')
    job = {'harness': v['harness'], 'inputs': v['inputs']}
    threads = v.get('threads', 1) > 1
    how = None
    if not threads:
        b = build_replay()
        if b is None:
            return path, None
        runs = 400 if v.get('map_order') else 1
        r, out = run_replay(b, [job], f'{pid}-{n}', repeat=runs, until_bad='true', total='60s')
        if same(v, outcome(r, out)):
            how = f'native run {len(out)} of {runs}'
    else:
        import sched_replay
        how = sched_replay.reproduce(sys.modules[__name__], pid, v, n)
    rec = {'property': pid, 'how_reproduced': how, 'tier': TIER, 'violation': v,
           'rerun': f'put {json.dumps([job])} in a file F and run: cd {HARN} && go run -race ./replay -jobs F -repeat 200 -until-bad'}
    json.dump(rec, open(path, 'w'), indent=1)
    return path, how


def known_findings():
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r'known: property=(\S+) harness=(\S+) id=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def main():
    if sys.argv[1:] == ['--setup']:
        ok = build_engine() and build_replay() and build_replay(race=True)
        return 0 if ok else 2
    pid = sys.argv[1]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    conf = json.load(open(os.path.join(VERIF, 'tools', 'checks.json')))
    c = conf.get(pid, {})
    funcs = c.get('funcs', pid + '_*')
    budget = c.get('budget', [150, 1500])[0 if TIER == 'quick' else 1]
    eng = build_engine()
    if eng is None:
        return 2
    res_file = os.path.join(WORK, f'{pid}.result.json')
    if os.path.exists(res_file):
        os.remove(res_file)
    cmd = [eng, '-dir', HARN, '-funcs', funcs, '-out', res_file, '-tier', TIER, '-budget', str(budget), '-repo', REPO, '-cross', 'cvc5']
    if TIER == 'thorough':
        cmd += ['-timeout', '60000']
    r = sh(cmd, cwd=HARN, timeout=LIMIT)
    sys.stderr.write(r.stderr[-20000:])
    if not os.path.exists(res_file):
        say('CHECK-ERROR: the symbolic executor gave no result:', r.stderr[-2000:])
        return 2
    res = json.load(open(res_file))
    hs = res['harnesses'] or []

    # violations
    real, known, unrepro = [], [], []
    known_list = [k for k in known_findings() if k[0] == pid]
    seen, per_h, n = set(), {}, 0
    for h in hs:
        for v in h.get('violations') or []:
            key = (v['harness'], v['kind'], v['id'], v['msg'])
            if key in seen and not any(u[0] is v for u in unrepro):
                continue
            if per_h.get(v['harness'], 0) >= 1 and real:
                continue
            if n >= 12 or time.time() - T0 > LIMIT - 120:
                break
            n += 1
            path, how = replay(pid, v, n)
            kf = [k for k in known_list if k[1] == v['harness'] and k[2] == v['id']]
            if how and kf:
                known.append((v, kf[0]))
                seen.add(key)
            elif how:
                real.append((v, path, how))
                seen.add(key)
                per_h[v['harness']] = per_h.get(v['harness'], 0) + 1
            else:
                unrepro.append((v, path))

    # sampled paths against the compiled code
    jobs, expect = [], []
    for h in hs:
        for s in (h.get('samples') or [])[:12]:
            jobs.append({'harness': h['name'], 'inputs': s['inputs']})
            expect.append(s['observed'] or [])
    validated, mismatches = 0, []
    if jobs and not real:
        b = build_replay()
        if b:
            rr, out = run_replay(b, jobs, f'{pid}-samples', total='60s')
            for j, e, o in zip(jobs, expect, out):
                got = o.get('observed') or []
                if o.get('failed') or o.get('panic') or o.get('hung'):
                    fails = outcome(rr, [o])
                    os.makedirs(os.path.join(WORK, 'replay'), exist_ok=True)
                    path = os.path.join(WORK, 'replay', f'{pid}-native.json')
                    v = {'harness': j['harness'], 'kind': fails[0][0], 'id': fails[0][1], 'msg': 'path found to hold symbolically fails natively',
                         'inputs': j['inputs']}
                    json.dump({'property': pid, 'violation': v, 'native': o}, open(path, 'w'), indent=1)
                    mismatches.append({'harness': j['harness'], 'inputs': j['inputs'], 'native': fails})
                    real.append((v, path, 'native run of a sampled path'))
                elif got != e:
                    mismatches.append({'harness': j['harness'], 'inputs': j['inputs'], 'engine': e, 'native': got})
                else:
                    validated += 1
            if len(out) < len(jobs):
                mismatches.append({'native runs missing': len(jobs) - len(out), 'stderr': rr.stderr[-500:]})

    # evidence
    def total(k):
        return sum(h.get(k) or 0 for h in hs)
    done = sum((h['kinds'] or {}).get('done', 0) for h in hs)
    funcs_cov = {}
    for h in hs:
        for f in h.get('functions') or []:
            if f['pos'].startswith('..') or not f['pos'].endswith('?'):
                funcs_cov[f['name']] = f
    repo_funcs = sorted((f for f in funcs_cov.values() if 'milosgajdos/netscrape' in f['name']), key=lambda f: f['name'])
    asserts = {h['name']: h['asserts'] for h in hs}
    expected = c.get('asserts', {})
    vacuous = []
    for h in hs:
        if not h['asserts'] and not h.get('reached') and not h.get('violations'):
            vacuous.append(h['name'] + ': no assertion reached')
        for a in expected.get(h['name'], []):
            if a not in h['asserts'] and a not in (h.get('reached') or {}) and not h.get('violations'):
                vacuous.append(f"{h['name']}: {a} not reached")
    reduced = {}
    for h in hs:
        notes = []
        if h['unexplored']:
            notes.append(f"{h['unexplored']} path prefixes left when the time budget ended")
        notes += [f'{n} paths ended: {w}' for w, n in (h.get('why') or {}).items()]
        notes += [f'{n}x {w}' for w, n in (h.get('reduced') or {}).items()]
        if notes:
            reduced[h['name']] = notes
    samples = []
    for h in hs:
        for s in (h.get('samples') or [])[:2]:
            samples.append({'harness': h['name'], 'inputs': s['inputs'], 'observed': (s['observed'] or [])[:12]})
        if not h.get('samples'):
            samples.append({'harness': h['name'], 'paths': h['kinds'], 'assertions_evaluated': h['asserts']})
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': done, 'transitions': total('steps'),
            'states_meaning': 'feasible symbolic paths executed to the end (each stands for every input, and one schedule, that satisfies its path condition)',
            'transitions_meaning': 'SSA instructions of the real code and the harness executed symbolically',
            'traces_validated_against_impl': validated,
            'validation_mismatches': mismatches,
            'samples': samples[:20],
            'harnesses': [{k: h.get(k) for k in ('name', 'doc', 'paths', 'kinds', 'complete', 'unexplored', 'asserts', 'reached', 'max_threads', 'preempt',
                                                 'decisions', 'queries', 'sat', 'unsat', 'unknown', 'queries_answered_by_an_equal_one', 'assert_queries', 'asserts_folded', 'cross_checks',
                                                 'cross_disagree', 'solver_seconds', 'seconds')} for h in hs],
            'functions_encoded': [f"{f['name']} ({f['pos']}, {f['ssa_instructions']} SSA instructions)" for f in repo_funcs],
            'other_functions_encoded': len(funcs_cov) - len(repo_funcs),
            'solver': res['solver'], 'queries': total('queries'), 'queries_answered_by_an_equal_one': total('queries_answered_by_an_equal_one'), 'solver_seconds': round(total('solver_seconds'), 3),
            'assertion_queries_discharged': total('assert_queries'), 'assertions_decided_without_query': total('asserts_folded'),
            'exhaustive': all(h['complete'] for h in hs),
            'reduced_bounds': reduced, 'not_reached': vacuous,
            'known_findings': [k[3] for _, k in known],
            'not_reproduced': [{'harness': v['harness'], 'kind': v['kind'], 'id': v['id'], 'msg': v['msg'], 'file': p} for v, p in unrepro],
        },
        'assumptions': c.get('assumptions', []) + conf.get('_assumptions', []),
        'wall_s': round(time.time() - T0, 2), 'violations': len(real),
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1)

    for h in hs:
        say(f"{h['name']}: paths={h['kinds']} complete={h['complete']} queries={h['queries']} solver={h['solver_seconds']:.1f}s time={h['seconds']:.1f}s")
    for k, ns in reduced.items():
        for x in ns[:6]:
            say(f'REDUCED-BOUND {k}: {x}')
    for x in vacuous:
        say('NOT-REACHED', x)
    for m in mismatches:
        say('MISMATCH', json.dumps(m)[:1500])
    for v, p in unrepro:
        say(f"NOT-REPRODUCED {v['harness']} {v['kind']} {v['id']}: {v['msg']} ({p})")
    for v, k in {k: (v, k) for v, k in known}.values():
        say(f'KNOWN-FINDING: property={pid} {k[3]}')
    if real:
        v, p, how = real[0]
        for v, p, how in real:
            say(f"{v['harness']} {v['kind']} {v['id']}: {v['msg']} inputs={json.dumps(v['inputs'])} [{how}]")
        say(f'VIOLATION property={pid} replay={real[0][1]}')
        return 1
    if not hs or done == 0:
        say('CHECK-ERROR: nothing was explored')
        return 2
    say(f'OK property={pid} paths={done} queries={total("queries")} validated={validated} wall={time.time() - T0:.1f}s')
    return 0


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(VERIF, 'tools'))
    sys.exit(main())
