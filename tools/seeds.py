#!/usr/bin/env python3
"""development aid: write /verif/seeded/<id>/ from the definitions in seed_defs*.py and confirm each one.
   seeds.py gen [id..]      write patch.diff, demo.sh, demo.rs, meta.json
   seeds.py confirm [id..]  in scratch copies: applies, builds, passes the stable tests, demo 0 / nonzero
   seeds.py catch [id..]    run the property's harness suites against the patched tree"""
import json, os, re, shutil, subprocess, sys, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
SCR = '/tmp/seedwork'
sys.path.insert(0, HERE)
PRELUDE = r'''#![allow(unused, dead_code)]
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) | 1) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
}
/// scratch path inside the directory that demo.sh creates and removes
pub fn scratch(name: &str) -> PathBuf { PathBuf::from(std::env::var("DEMO_DIR").expect("DEMO_DIR")).join(name) }
thread_local! { static CMPS: Cell<u64> = Cell::new(0); }
pub fn cmps() -> u64 { CMPS.with(|c| c.get()) }
/// key that counts comparisons and carries an identity that does not take part in them
#[derive(Clone, Debug)]
pub struct Key(pub i64, pub u64);
fn tick() { CMPS.with(|c| c.set(c.get() + 1)) }
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { tick(); self.0 == o.0 } }
impl Eq for Key {}
impl PartialOrd for Key { fn partial_cmp(&self, o: &Key) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Key { fn cmp(&self, o: &Key) -> Ordering { tick(); self.0.cmp(&o.0) } }
'''
DEMO_SH = '''#!/bin/bash
# run in the repository's root after a build; exit 0: the property holds, nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/crate/src" "$work/data"
cp "$here/demo.rs" "$work/crate/src/main.rs"
cp "$here/Cargo.lock" "$work/crate/Cargo.lock"
cat > "$work/crate/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
extended-collections = { path = "$repo" }
serde = "1.0"
serde_derive = "1.0"
bincode = "1.0"
libc = "0.2"
[profile.dev]
debug = 0
opt-level = 1
debug-assertions = true
EOF
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" DEMO_DIR="$work/data"
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTC_WRAPPER
cd "$work/crate" || exit 9
@BUILD@
cd "$work/data" || exit 9
@RUN@
'''
BUILD = 'cargo build --offline -q >"$work/build.log" 2>&1 || { tail -30 "$work/build.log"; exit 8; }'
RUN = 'timeout -k 5 200 "$work/target/debug/demo" >"$work/out.log" 2>&1\nrc=$?\ntail -5 "$work/out.log" | cut -c1-400\nexit $rc'


def defs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seed_defs*.py'))):
        g = {}
        exec(open(f).read(), g)
        for s in g['SEEDS']:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out


def sh(cmd, cwd=None, limit=1200, env=None):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, env=env)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def gen(s):
    d = os.path.join(SEEDED, s['id'])
    os.makedirs(d, exist_ok=True)
    w = '%s/gen' % SCR
    if not os.path.isdir(w):
        os.makedirs(SCR, exist_ok=True)
        sh('git clone -q /repo %s' % w)
    sh('git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq', w)
    for e in s['edits']:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = os.path.join(w, f)
        t = open(p).read()
        n = t.count(old)
        if n == 0 or (n > 1 and nth is None):
            raise SystemExit('%s: %d occurrences of %r in %s' % (s['id'], n, old, f))
        if nth is None:
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            t = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, 'w').write(t)
    rc, diff = sh('git diff --no-color', w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    # every removed line must be one of the original repository
    bad = []
    sh('git reset -q --hard', w)
    cur = None
    ln = 0
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            cur = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            ln = int(m.group(1))
            continue
        if l.startswith('-') and not l.startswith('---'):
            rc, b = sh("git blame -s -L %d,%d -- %s" % (ln, ln, cur), w)
            if not b.startswith('^') and 'edb0dd5' not in b.split(' ')[0]:
                bad.append(b.strip()[:140])
            ln += 1
        elif l.startswith(' '):
            ln += 1
    removed = [l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    print(s['id'], 'ok' if removed and len(bad) < len(removed) else 'NO ORIGINAL LINE CHANGED', 'own lines: %s' % bad if bad else '')
    open(os.path.join(d, 'demo.rs'), 'w').write(PRELUDE + s['demo'])
    t = DEMO_SH.replace('@BUILD@', s.get('build', BUILD)).replace('@RUN@', s.get('run', RUN))
    open(os.path.join(d, 'demo.sh'), 'w').write(t)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    lock = open('/verif/harness/Cargo.lock').read().replace('name = "vh"', 'name = "demo"')
    open(os.path.join(d, 'Cargo.lock'), 'w').write(lock)
    for n, c in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(c)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def tree(i, patched):
    w = '%s/%s_%s' % (SCR, i, 'p' if patched else 'o')
    sh('rm -rf %s' % w)
    sh('git clone -q /repo %s && cp -a /repo/Cargo.lock %s/' % (w, w))
    if patched:
        rc, o = sh('git apply %s/%s/patch.diff' % (SEEDED, i), w)
        assert rc == 0, (i, o)
    return w


def confirm(s):
    i = s['id']
    env = dict(os.environ)
    res = []
    w = tree(i, True)
    # tests of the patched tree, in a copy of the build products
    t = ('. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target CARGO_PROFILE_DEV_DEBUG=0; cd %s; cargo test --workspace --all-targets --offline --no-fail-fast --exclude none 2>&1 | tail -5' % (w, w))
    t = ('. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target CARGO_PROFILE_DEV_DEBUG=0; cd %s; cargo test --workspace --lib --tests --offline --no-fail-fast -- --test-threads 4 > t.log 2>&1; echo "rc $?"; '
         'timeout 600 cargo test --workspace --doc --offline --no-fail-fast -- --test-threads 4 > d.log 2>&1; echo "rc $?"; grep -h "^test .*FAILED\\|^error" t.log d.log | head -5' % (w, w))
    rc, o = sh(t, limit=1500)
    tests_ok = o.split('\n')[:2] == ['rc 0', 'rc 0']
    res.append('tests %s' % ('pass' if tests_ok else 'FAIL ' + o.replace('\n', ' ')[:300]))
    rc1, o1 = sh('bash %s/%s/demo.sh' % (SEEDED, i), w, 320)
    res.append('patched demo rc=%d %s' % (rc1, o1.strip().replace('\n', ' | ')[-200:]))
    rc0, o0 = sh('bash %s/%s/demo.sh' % (SEEDED, i), '/repo', 320)
    res.append('original demo rc=%d%s' % (rc0, '' if rc0 == 0 else ' ' + o0[-300:]))
    ok = tests_ok and rc1 not in (0, 8, 9) and rc0 == 0
    sh('rm -rf %s' % w)
    return '%s: %s  %s' % (i, 'CONFIRMED' if ok else 'REJECTED', '; '.join(res))


BINS = [('mem', 'C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C14'), ('seq', 'C09 C13 C15 C16 C17 C20 C35 C38 C39'), ('stack', 'C18 C19'), ('bp', 'C22 C23 C24 C25 C46'), ('bpio', 'C36 C37 C44 C47 C48 C50'),
        ('lsm', 'C26 C27 C28 C29 C30 C31 C32 C33 C34 C40 C41 C42 C43 C45 C46 C47 C48 C49 C50')]


def catch(s):
    """apply to /repo, run the registered quick check, undo (one at a time)"""
    i = s['id']
    p = s['property']
    rc, o = sh('git -C /repo status --porcelain')
    assert o == '', o
    rc, o = sh('git -C /repo apply %s/%s/patch.diff' % (SEEDED, i))
    assert rc == 0, o
    try:
        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
        rc, o = sh('cd /verif && timeout 900 python3 check.py %s quick' % p, limit=1000, env=env)
    finally:
        sh('git -C /repo checkout -- .')
    v = [l for l in o.split('\n') if 'VIOLATION' in l or 'rror' in l]
    return '%s %s: %s rc=%d %s' % (i, p, 'CAUGHT' if rc == 1 and any('VIOLATION property=%s' % p in l for l in v) else 'MISSED', rc, (o.strip().split('\n') or [''])[0][:250])


def main():
    D = defs()
    cmd = sys.argv[1]
    ids = sys.argv[2:] or sorted(D)
    if cmd == 'gen':
        for i in ids:
            gen(D[i])
    elif cmd == 'confirm':
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
            for r in ex.map(lambda i: confirm(D[i]), ids):
                print(r, flush=True)
    elif cmd == 'catch':
        for i in ids:
            print(catch(D[i]), flush=True)


main()
