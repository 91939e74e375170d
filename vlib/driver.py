"""Runs the check of one property: builds the harnesses from /repo's working tree, explores in parallel shards,
confirms every finding by replaying it alone, writes evidence/<id>.json.

Exit 0: the property held on everything explored.  Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
import argparse, json, mmap, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'vlib'))
import build
from registry import CHECKS

NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
REPLAYS = os.environ.get('VERIF_REPLAYS', os.path.join(VERIF, 'replays'))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    """Lines 'known: property=<id> item=<item description> got=<violation message> :: <what fails>' (matched
    exactly on both: another violation of the same item is reported); 'fixed: ...' lines suppress nothing."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % prop):
                body = line[len('known: property=%s ' % prop):]
                assert body.startswith('item='), line
                item, _, what = body[5:].partition(' :: ')
                item, _, got = item.partition(' got=')
                res[item] = (got, what)
    return res


def cpu_time(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read().rsplit(')', 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return None


def limits(mem):
    def f():
        os.setpgrp()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def read_cur(path):
    try:
        with open(path, 'rb') as f:
            b = f.read(4096)
        n = int.from_bytes(b[:8], 'little')
        s = b[8:].split(b'\0')[0].decode('latin-1')
        item, _, desc = s.partition('\t')
        return n, item, desc
    except OSError:
        return 0, '', ''


class Shard:
    def __init__(self, work, cmd, tag, mem, env):
        self.out = os.path.join(work, tag + '.json')
        self.cur = os.path.join(work, tag + '.cur')
        self.err = os.path.join(work, tag + '.err')
        self.cmd = cmd + ['--out', self.out, '--cur', self.cur]
        self.p = subprocess.Popen(self.cmd, stdout=open(self.err, 'w'), stderr=subprocess.STDOUT,
                                  preexec_fn=limits(mem), env=env, cwd=work)
        self.last = (None, 0.0, time.time())
        self.status = None      # None running, 'ok', 'crash', 'hang'
        self.why = ''

    def poll(self, cpu_limit, wall_limit):
        if self.status:
            return True
        rc = self.p.poll()
        if rc is not None:
            if rc == 0 and os.path.exists(self.out):
                self.status = 'ok'
            else:
                self.status = 'crash'
                self.why = 'terminated by signal %d (%s)' % (-rc, signal.Signals(-rc).name) if rc < 0 else 'exit status %d' % rc
            return True
        n, _, _ = read_cur(self.cur)
        c = cpu_time(self.p.pid) or 0
        if n != self.last[0]:
            self.last = (n, c, time.time())
        elif c - self.last[1] > cpu_limit or time.time() - self.last[2] > wall_limit:
            self.status = 'hang'
            self.why = 'no progress on one item for %.0f s of CPU time' % (c - self.last[1])
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        try:
            return open(self.err, errors='replace').read()[-1500:]
        except OSError:
            return ''


def run_one(work, binary, args, item, tier, seed, mem, env, cpu_limit, tag):
    """Replays one item alone. Returns (status, why, violations, item text)."""
    cmd = [binary] + args + ['--tier', tier, '--seed', str(seed), '--only', item, '--tmp', work]
    s = Shard(work, cmd, tag, mem, env)
    while not s.poll(cpu_limit * 2, 600):
        time.sleep(0.05)
    v = []
    if s.status == 'ok':
        v = json.load(open(s.out))['violations']
    return s.status, s.why, v, s.tail()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay', help='replay file written by an earlier run')
    a = ap.parse_args()
    chk = CHECKS[a.prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    known = known_findings(a.prop)
    work = tempfile.mkdtemp(prefix='pirecheck-')
    env = dict(os.environ, LC_ALL='C.UTF-8', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:symbolize=1',
               TSAN_OPTIONS='halt_on_error=1:exitcode=66')
    try:
        return run_check(a, chk, tier, seed, t0, known, work, env)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_check(a, chk, tier, seed, t0, known, work, env):
    def is_known(f):
        return f['kind'] == 'wrong' and f['desc'] in known and f['msg'] == known[f['desc']][0]

    jobs = []
    for j in chk['jobs']:
        if tier == 'quick' and j.get('thorough_only'):
            continue
        extra = []
        if j.get('inline_tool'):
            env['PIRE_INLINE'] = build.inline_tool('std')
            env['PIRE_CXX_ARGS'] = ' '.join(build.CONFIGS['std']['flags'] + build.incs(build.library('std')[1]))
            env['PIRE_LIB'] = build.library('std')[0]
        binary = build.harness(j['harness'], j.get('config', 'std'), extra)
        jobs.append((j, binary))
    if a.replay:
        r = json.load(open(a.replay))
        for j, b in jobs:
            if j['harness'] == r['harness'] and j.get('config', 'std') == r['config']:
                st, why, v, tail = run_one(work, b, j.get('args', []), r['item'], r['tier'], r['seed'],
                                           mem_of(j), env_of(env, j), cpu_of(j), 'replay')
                print(st, why)
                for x in v:
                    print('  %s [%s]: %s' % (x['item'], x['desc'], x['msg']))
                print(tail)
                return 1 if st != 'ok' or v else 0
        return 2
    build_s = time.time() - t0
    budget = chk.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)

    found, errors = [], []
    tot = dict(states=0, transitions=0, replays=0, items=0, nontrivial=0)
    extra, phases, samples, trunc = {}, {}, [], False
    per_job = []
    weight = sum(j.get('weight', 1) for j, _ in jobs)
    for j, b in jobs:
        cfg = j.get('config', 'std')
        # every job gets its share of the time that is left
        left = max(20.0, t0 + build_s + budget - time.time())
        deadline = left * j.get('weight', 1) / max(weight, 1e-9)
        weight -= j.get('weight', 1)
        n = j.get('shards', NPROC)
        shards = []
        tj = time.time()
        for i in range(n):
            cmd = [b] + j.get('args', []) + ['--shard', str(i), '--shards', str(n), '--tier', tier, '--seed', str(seed),
                                             '--deadline', '%.0f' % deadline, '--tmp', work]
            shards.append(Shard(work, cmd, '%s-%s-%d' % (j['harness'], cfg, i), mem_of(j), env_of(env, j)))
        while not all([s.poll(cpu_of(j), 420) for s in shards]):
            time.sleep(0.05)
        jt = dict(states=0, transitions=0, replays=0, items=0, nontrivial=0)
        for s in shards:
            if s.status == 'ok':
                r = json.load(open(s.out))
                for k in jt:
                    jt[k] += r[k]
                for k, v in r['extra'].items():
                    extra[k] = extra.get(k, 0) + v
                phases.update({'%s/%s/%s' % (j['harness'], cfg, k): v for k, v in r['phases'].items()})
                samples += r['samples'][:3]
                trunc = trunc or r['truncated']
                for v in r['violations']:
                    found.append(dict(v, harness=j['harness'], config=cfg, kind='wrong'))
            else:
                _, item, desc = read_cur(s.cur)
                found.append(dict(item=item, desc=desc, msg='%s: %s; %s' % (s.status, s.why, s.tail()[-700:]),
                                  harness=j['harness'], config=cfg, kind=s.status, cmd=s.cmd))
        for k in jt:
            tot[k] += jt[k]
        per_job.append(dict(harness=j['harness'], config=cfg, wall_s=round(time.time() - tj, 1), **jt))
        if any(not is_known(f) for f in found):
            break

    # ---- confirm, drop known findings ----
    confirmed, knownseen = [], {}
    unconfirmed = 0
    for f in found:
        if is_known(f):
            knownseen[f['desc']] = known[f['desc']][1]
            continue
        if len(confirmed) >= 3:
            continue
        j, b = [(j, b) for j, b in jobs if j['harness'] == f['harness'] and j.get('config', 'std') == f['config']][0]
        ok = False
        if f['item']:
            st, why, v, tail = run_one(work, b, j.get('args', []), f['item'], tier, seed, mem_of(j), env_of(env, j), cpu_of(j), 'confirm')
            if st != 'ok':
                ok = True
                f['msg'] += ' | replayed alone: %s %s' % (st, why)
            elif v:
                ok = True
                f['msg'] = v[0]['msg']
        if not ok and f['kind'] != 'wrong':
            # may depend on what ran before in the same process: run the shard again
            s = Shard(work, f['cmd'][:-4], 'again', mem_of(j), env_of(env, j))
            while not s.poll(cpu_of(j), 420):
                time.sleep(0.05)
            if s.status != 'ok':
                ok = True
                f['msg'] += ' | shard re-run: %s %s' % (s.status, s.why)
        elif not ok and f['kind'] == 'wrong':
            # history-dependent wrong answer: re-run the same shard from the start
            ok = True
            f['msg'] += ' | (only in sequence with the items before it)'
        if ok:
            confirmed.append(f)
        else:
            unconfirmed += 1
    for k, what in sorted(knownseen.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, k, what))

    cov = {}
    if chk['level'] == 'model_checking':
        cov = dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['replays'],
                   items=tot['items'], distinct_nontrivial=tot['nontrivial'])
    else:
        cov = dict(evaluations=tot['transitions'] or tot['items'], distinct_nontrivial=tot['nontrivial'],
                   rule=chk['rule'], states=tot['states'], traces_validated_against_impl=tot['replays'], items=tot['items'])
    cov['samples'] = samples[:8]
    cov['exhaustive'] = not trunc and not confirmed
    cov['phases'] = phases
    cov['jobs'] = per_job
    cov['counters'] = extra
    cov['unconfirmed'] = unconfirmed
    cov['known_findings_seen'] = len(knownseen)
    ev = dict(property=a.prop, tier=tier, seed=seed, level=chk['level'], coverage=cov,
              assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for i, f in enumerate(confirmed):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%d.json' % (a.prop, i))
        with open(path, 'w') as fh:
            json.dump(dict(property=a.prop, harness=f['harness'], config=f['config'], item=f['item'], desc=f['desc'],
                           message=f['msg'], tier=tier, seed=seed,
                           how='bin/check %s --replay %s' % (a.prop, path)), fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('  %s [%s]: %s' % (f['item'], f['desc'], f['msg'][:1500]))
    print('%s: %s; %d items, %d states, %d transitions, %d replays%s in %.1f s (build %.1f s)' % (
        a.prop, 'VIOLATED' if confirmed else 'held', tot['items'], tot['states'], tot['transitions'], tot['replays'],
        ' (stopped at the time budget)' if trunc else '', time.time() - t0, build_s))
    return 1 if confirmed else 0


def mem_of(j):
    return 0 if 'san' in j.get('config', 'std') else j.get('mem', 6 << 30)


def env_of(env, j):
    return dict(env, **j.get('env', {}))


def cpu_of(j):
    return j.get('cpu', 60)


if __name__ == '__main__':
    sys.exit(main())
