"""Native reproduction of violations that depend on the schedule.

The executor's counterexample names the statements at which goroutines were preempted. The replayer is built once more with
a call before every statement that holds the goroutine for a while, likely at those statements and now and then elsewhere, and
run under the race detector until the same violation shows."""
import concurrent.futures, json, os, time


def hot_lines(v):
    hot = {}
    ev = v.get('schedule') or []

    def add(at):
        f, _, l = at.rpartition(':')
        if f and l.isdigit():
            hot.setdefault(f, set()).add(int(l))
    for i, e in enumerate(ev):
        if '(preempted)' in e.get('op', ''):
            add(e['at'])
        # where a goroutine goes on after others ran
        if i and ev[i - 1]['g'] != e['g']:
            add(e['at'])
    return {f: sorted(ls) for f, ls in hot.items()}


def build_instrumented(c):
    out = os.path.join(c.WORK, 'instr')
    os.makedirs(out, exist_ok=True)
    ctl = os.path.join(c.HARN, 'instr', 'ctl', 'nsctl.go.txt')
    r = c.sh(['go', 'run', './instr', '-repo', c.REPO, '-props', os.path.join(c.HARN, 'props'), '-ctl', ctl, '-out', out], cwd=c.HARN, timeout=300)
    if r.returncode != 0:
        c.say('instrumentation failed:', r.stderr[-1000:])
        return None
    return c.build_replay(race=True, overlay=os.path.join(out, 'overlay.json'), name='replay-sched')


def reproduce(c, pid, v, n, seconds=None):
    job = {'harness': v['harness'], 'inputs': v['inputs']}
    limit = '12s'
    b = c.build_replay(race=True)
    if b is None:
        return None
    r, out = c.run_replay(b, [job], f'{pid}-{n}', repeat=40, until_bad='true', total='6s', limit=limit)
    if c.same(v, c.outcome(r, out)):
        return f'native run {len(out)} under the race detector'
    b = build_instrumented(c)
    if b is None:
        return None
    conf = {'hot': hot_lines(v)}
    end = time.time() + (seconds or (45 if c.TIER == 'quick' else 180))
    rounds = 0
    ladder = [[100, 600, 2500], [300, 4000], [20, 100, 400], [1000, 8000]]
    runs = 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        while time.time() < end:
            jobs = []
            for k in range(4):
                f = os.path.join(c.WORK, f'{pid}-{n}.ctl{k}.json')
                json.dump(dict(conf, delays_us=ladder[k]), open(f, 'w'))
                jobs.append(ex.submit(c.run_replay, b, [job], f'{pid}-{n}-{k}', _env={'NSCTL': f, 'NSCTL_SEED': str(rounds * 4 + k + c.SEED)},
                                      repeat=400, until_bad='true', total='8s', limit=limit))
            for k, j in enumerate(jobs):
                r, out = j.result()
                runs += len(out)
                if c.same(v, c.outcome(r, out)):
                    return f'native run under the race detector, held at the preempted statements (run {runs}, round {rounds})'
            rounds += 1
    return None
