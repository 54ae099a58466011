#!/usr/bin/env python3
"""check.py PROP quick|thorough : decide one property on /repo's working tree
   check.py setup               : build everything once
   check.py replay FILE         : run the case of a replay file again"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TARGET = os.path.join(VERIF, 'target')
HARNESS = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
STABLE = '1.77.2-x86_64-unknown-linux-gnu'
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from props import PROPS  # noqa: E402

MIRI_SEQ = '-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks'
MIRI_STACK = ('-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-isolation '
              '-Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.05')


class Inconclusive(Exception):
    pass


def base_env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'MIRIFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_INCREMENTAL'):
        e.pop(k, None)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN=STABLE, RUSTUP_AUTO_INSTALL='0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin'
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ('src', 'Cargo.toml'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files.append(p)
        for d, _, fs in os.walk(p):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def freshen(target, prof_dir):
    """cargo looks at modification times only: force a rebuild whenever the text of the tree differs"""
    mark = os.path.join(target, 'repo.hash')
    now = tree_hash()
    old = open(mark).read() if os.path.exists(mark) else None
    if old != now:
        fp = os.path.join(target, prof_dir, '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('extended-collections-') or d.startswith('vh-'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    with open(mark, 'w') as f:
        f.write(now)


def cargo(args, env, what, limit=800):
    r = subprocess.run(['cargo'] + args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=limit)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        raise Inconclusive('building %s failed' % what)


def build_plain(bins):
    env = base_env()
    env['CARGO_TARGET_DIR'] = TARGET
    freshen(TARGET, 'debug')
    a = ['build', '--offline', '--locked']
    for b in bins:
        a += ['--bin', b]
    cargo(a, env, 'the harness')


def build_asan(bins):
    env = base_env()
    t = os.path.join(TARGET, 'asan')
    env.update(RUSTUP_TOOLCHAIN='nightly', RUSTFLAGS='-Zsanitizer=address', CARGO_TARGET_DIR=t)
    freshen(t, 'x86_64-unknown-linux-gnu/debug')
    a = ['build', '--offline', '--locked', '--target', 'x86_64-unknown-linux-gnu']
    for b in bins:
        a += ['--bin', b]
    cargo(a, env, 'the harness with AddressSanitizer')


def miri_env(flags):
    env = base_env()
    env.update(RUSTUP_TOOLCHAIN='nightly', MIRIFLAGS=flags, CARGO_TARGET_DIR=os.path.join(TARGET, 'miri'))
    return env


def build_miri():
    freshen(os.path.join(TARGET, 'miri'), 'x86_64-unknown-linux-gnu/debug')
    env = miri_env(MIRI_SEQ)
    # a part without cases: builds the standard library and the harness
    cargo(['miri', 'run', '--offline', '--locked', '--bin', 'ub', '--', '--parts', '1', '0', '1', '0'], env, 'the harness for Miri')


# ---------------------------------------------------------------- running
def run(cmd, env, limit, cwd=None, merge=False):
    """-> (rc or None on timeout, stdout+stderr tail)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE if merge else subprocess.DEVNULL,
                         stderr=subprocess.STDOUT if merge else subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
        return p.returncode, (out or '') + (err or '')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, (out or '') + (err or '')


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.counters = {}
        self.per_suite = {}
        self.jobs = []
        self.violations = []  # (message, replay dict)

    def add(self, res, label):
        self.evaluations += res['evaluations']
        self.distinct += res['distinct_nontrivial']
        for k, v in res['per_suite'].items():
            self.per_suite[label + k] = self.per_suite.get(label + k, 0) + v
        for k, v in res['counters'].items():
            if k.startswith('max_'):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        self.samples += [label + s[:700] for s in res['samples']]

    def violation(self, msg, replay):
        self.violations.append((msg, replay))


FATAL = {-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGABRT, -signal.SIGTRAP, 77}


def slots_cases(path):
    try:
        data = open(path, 'rb').read()
    except OSError:
        return []
    out = []
    for i in range(0, len(data), 64):
        rec = data[i:i + 64].decode('utf8', 'replace').strip().split('\n')
        if len(rec) == 2 and rec[1].strip().isdigit():
            out.append((rec[0].strip(), int(rec[1])))
    return out


def run_bin(rep, exe, bin_prop, label, scratch, tier, env=None, scale=None, time_cap=None, extra=()):
    env = env or base_env()
    out = os.path.join(scratch, 'out.json')
    slots = os.path.join(scratch, 'slots')
    sdir = os.path.join(scratch, 's')
    os.makedirs(sdir, exist_ok=True)
    cap = time_cap or (300 if tier == 'quick' else 1500)
    base = [exe, bin_prop, '--seed', str(rep.seed), '--tier', tier, '--scratch', sdir] + list(extra)
    cmd = base + ['--out', out, '--slots', slots, '--time', str(cap)]
    if scale:
        cmd += ['--scale', str(scale)]
    rc, text = run(cmd, env, cap + 300)
    rep.jobs.append({'job': label.rstrip(': ') or os.path.basename(exe), 'exit': rc})
    replay = {'property': rep.prop, 'exe': exe, 'args': base[1:], 'env': {k: env[k] for k in ('ASAN_OPTIONS',) if k in env}}
    if rc in (0, 1) and os.path.exists(out):
        res = json.load(open(out))
        rep.add(res, label)
        if rc == 1:
            v = res['violation']
            replay.update(case='%s:%d' % (v['suite'], v['idx']), message=v['msg'], trace=v['trace'])
            rep.violation('%s%s#%d: %s' % (label, v['suite'], v['idx'], v['msg']), replay)
        return
    if rc is None:
        raise Inconclusive('%s did not end in time' % label)
    # the process died: find the case
    cases = slots_cases(slots)
    why = {97: 'does not terminate', 98: 'is blocked forever', 99: 'allocates without bound'}.get(rc, 'ended with status %s' % rc)
    for c in cases:
        shutil.rmtree(sdir, ignore_errors=True)
        os.makedirs(sdir, exist_ok=True)
        o2 = out + '.one'
        if os.path.exists(o2):
            os.remove(o2)
        rc2, text2 = run(base + ['--case', '%s:%d' % c, '--out', o2, '--slots', slots + '2'], env, 400)
        if rc2 == 1 or rc2 in FATAL or rc2 in (97, 98, 99):
            msg = why
            if rc2 == 1 and os.path.exists(o2):
                msg = json.load(open(o2))['violation']['msg']
            replay.update(case='%s:%d' % c, message=msg, output=(text2 or text)[-6000:])
            rep.violation('%s%s#%d: %s' % (label, c[0], c[1], msg), replay)
            return
    if rc in FATAL or rc == 97:
        replay.update(case='%s:%d' % cases[0] if cases else None, message=why, output=text[-6000:])
        rep.violation('%sthe process %s while running %s' % (label, why, cases[:8]), replay)
        return
    raise Inconclusive('%s ended with %s: %s' % (label, rc, text[-1500:]))


def miri_job(rep, args, flags, label, limit):
    env = miri_env(flags)
    cmd = ['cargo', 'miri', 'run', '--offline', '--locked', '--bin', 'ub', '--'] + [str(a) for a in args]
    rc, text = run(cmd, env, limit, cwd=HARNESS, merge=True)
    cases = re.findall(r'^case (\S+)$', text, re.M)
    ops = sum(int(x) for x in re.findall(r'^DONE cases \d+ operations (\d+)', text, re.M))
    done = len(re.findall(r'^DONE cases', text, re.M))
    return rc, text, cases, ops, done, cmd, flags, label


def judge_miri(rep, r):
    rc, text, cases, ops, done, cmd, flags, label = r
    rep.jobs.append({'job': label, 'exit': rc, 'executions': done, 'cases': len(cases)})
    rep.evaluations += len(cases)
    # under the interpreter every execution of a case has its own schedule or memory layout seed
    rep.distinct += len(set(cases)) if 'many-seeds' not in flags else len(cases)
    for k, v in (('interpreted_operations', ops), ('interpreted_executions', done)):
        rep.counters[k] = rep.counters.get(k, 0) + v
    if cases:
        rep.samples.append('%s: %s' % (label, ' '.join(cases[:6])))
    if rc == 0 and done > 0:
        return
    replay = {'property': rep.prop, 'miri': cmd, 'flags': flags, 'output': text[-12000:]}
    m = re.search(r'^error: (Undefined Behavior: .*|memory leaked.*|abnormal termination.*|the evaluated program .*)$', text, re.M)
    if m:
        at = re.search(re.escape(m.group(0)) + r'\n\s*--> (\S+)', text)
        rep.violation('%s: %s%s (last case %s)' % (label, m.group(1)[:400], ' at ' + at.group(1) if at else '', cases[-1] if cases else '?'), replay)
        return
    m = re.search(r'^FAILED (.*)$', text, re.M)
    if m:
        rep.violation('%s: %s' % (label, m.group(1)[:600]), replay)
        return
    raise Inconclusive('%s ended with %s: %s' % (label, rc, text[-2000:]))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = PROPS[prop]
    rep = Report(prop, tier, seed)
    os.makedirs(EVID, exist_ok=True)
    shm = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vh-%s-' % prop, dir=shm if cfg.get('shm') else None)
    try:
        for j in cfg['jobs']:
            if j.get('tier', tier) != tier:
                continue
            if rep.violations:
                break
            kind = j['kind']
            if kind == 'bin':
                build_plain([j['bin']])
                run_bin(rep, os.path.join(TARGET, 'debug', j['bin']), j.get('prop', prop), '', scratch, tier, extra=j.get('extra', ()),
                        scale=j.get('scale'), time_cap=j.get('time', {}).get(tier))
            elif kind == 'asan':
                build_asan([j['bin']])
                env = base_env()
                env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1'
                run_bin(rep, os.path.join(TARGET, 'asan/x86_64-unknown-linux-gnu/debug', j['bin']), j.get('prop', prop), 'asan: ', scratch, tier,
                        env=env, scale=j.get('scale', {}).get(tier), time_cap=j.get('time', {}).get(tier))
            elif kind == 'miri':
                build_miri()
                n, per = j[tier]
                flags = MIRI_SEQ + ' -Zmiri-seed=%d' % seed
                with cf.ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(lambda p: miri_job(rep, ['--parts', n, p, seed, per], flags, 'miri part %d/%d' % (p, n), 3000), range(n)))
                for r in rs:
                    if not rep.violations:
                        judge_miri(rep, r)
            elif kind == 'miri-stack':
                build_miri()
                n, per = j[tier]
                first = seed * 1000
                flags = MIRI_STACK + ' -Zmiri-many-seeds=%d..%d' % (first, first + n)
                judge_miri(rep, miri_job(rep, ['--parts', 1, 0, seed, per, 'stack'], flags, 'miri schedules', 3000))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov = {
        'evaluations': rep.evaluations,
        'distinct_nontrivial': rep.distinct,
        'rule': cfg['rule'],
        'samples': rep.samples[:10] or ['none'],
        'cases_per_suite': rep.per_suite,
        'observed': rep.counters,
        'jobs': rep.jobs,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'exploration'), 'coverage': cov,
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(rep.violations)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if rep.violations:
        known = load_known(prop)
        code = 0
        for msg, replay in rep.violations:
            path = os.path.join(EVID, 'replay-%s.json' % prop)
            with open(path, 'w') as f:
                json.dump(replay, f, indent=1)
            print('  ' + msg[:3000])
            if replay.get('trace'):
                print('  history: ' + replay['trace'][-3000:])
            k = [x for x in known if x and x in msg]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0]))
            else:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                code = 1
        return code
    print('%s: held on %d cases (%d distinct), %.1f s' % (prop, rep.evaluations, rep.distinct, time.time() - t0))
    return 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def setup():
    bins = sorted({j['bin'] for c in PROPS.values() for j in c['jobs'] if j['kind'] == 'bin'})
    build_plain(bins)
    build_asan(sorted({j['bin'] for c in PROPS.values() for j in c['jobs'] if j['kind'] == 'asan' and j.get('tier') != 'thorough'}))
    build_miri()
    return 0


def replay(path):
    r = json.load(open(path))
    if 'miri' in r:
        build_miri()
        rc, text = run(r['miri'], miri_env(r['flags']), 3000, cwd=HARNESS, merge=True)
        print(text[-8000:])
        return 1 if rc else 0
    build_asan([os.path.basename(r['exe'])]) if 'asan' in r['exe'] else build_plain([os.path.basename(r['exe'])])
    env = base_env()
    env.update(r.get('env', {}))
    s = tempfile.mkdtemp(prefix='vh-replay-')
    a = list(r['args'])
    a[a.index('--scratch') + 1] = s
    try:
        rc, text = run([r['exe']] + a + ['--case', r['case']], env, 900, merge=True)
    finally:
        shutil.rmtree(s, ignore_errors=True)
    print(text[-8000:])
    return 1 if rc else 0


def main():
    a = sys.argv[1:]
    try:
        if a == ['setup']:
            return setup()
        if a[0] == 'replay':
            return replay(a[1])
        return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except (Inconclusive, subprocess.TimeoutExpired) as e:
        print('INCONCLUSIVE: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
