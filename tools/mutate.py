#!/usr/bin/env python3
"""development aid: small random edits of the crate that pass its own tests are run through the checks.
   mutate.py WORKERS HOURS SEED [path filter [edit|rare]]   -> /tmp/mut/results.jsonl
   edit: small textual changes; rare: statements skipped, conditions inverted or neighbours swapped, the first two on every 61st execution only"""
import json, os, random, re, shutil, subprocess, sys, threading, time

W, HOURS, SEED = int(sys.argv[1]), float(sys.argv[2]), int(sys.argv[3])
FILTER = sys.argv[4] if len(sys.argv) > 4 else ''
KIND = sys.argv[5] if len(sys.argv) > 5 else 'edit'
ROOT = '/tmp/mut'
RARE = '{ static N: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0); N.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) % 61 == 60 }'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='1.77.2-x86_64-unknown-linux-gnu', RUSTUP_AUTO_INSTALL='0', CARGO_NET_OFFLINE='true',
           CARGO_PROFILE_DEV_DEBUG='0', CARGO_TERM_COLOR='never', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin')
SUBS = [
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ', ' >= ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ', ' <= ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r' \+ (?!1\b)', [' - ']), (r' - (?!1\b)', [' + ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']),
    (r' / 2\b', [' / 3']), (r' \* ', [' + ']), (r'\bis_some\(\)', ['is_none()']), (r'\bis_none\(\)', ['is_some()']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bLess\b', ['Greater', 'Equal']), (r'\bGreater\b', ['Less', 'Equal']),
    (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\bif !', ['if ']),
    (r'(?<![\w.\[{])0(?![\w.])', ['1']), (r'(?<![\w.\[{])1(?![\w.])', ['0', '2']), (r'\.\.=', ['..']), (r'\bIncluded\b', ['Excluded']),
    (r'\bnext_back\b', ['next']), (r'\blast\(\)', ['first()']), (r'\bfirst\(\)', ['last()']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
    (r'\bAcquire\b', ['Relaxed']), (r'\bRelease\b', ['Relaxed']), (r'\bpush\(', ['pop(']), (r'\.rev\(\)', ['']), (r'\bif (?!let)(.*) \{$', ['if true {', 'if false {']),
    (r'\bfloor\b', ['ceil']), (r'\bceil\b', ['floor']), (r'\btake\(\)', ['as_ref()', 'clone()']), (r'\bLeft\b', ['Right']), (r'\bsome\b', ['none']),
    (r'\bBlack\b', ['Red']), (r'\bRed\b', ['Black']), (r'\bStart\(', ['End(']), (r'\bSome\((\w+)\) =>', [r'Some(\1) if false =>']),
]


def mutants():
    out = []
    for d, _, fs in os.walk('/repo/src'):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, '/repo')
            if FILTER and not re.search(FILTER, rel):
                continue
            lines = open(p).read().split('\n')
            for n, l in enumerate(lines):
                if 'cfg(test)' in l:
                    break
                t = l.strip()
                if not t or t.startswith(('//', '#', 'use ', 'pub use', 'pub mod', 'mod ', 'impl', 'where', 'fn ', 'pub fn', 'pub struct', 'struct')) or 'println' in t:
                    continue
                if KIND == 'rare':
                    m = re.match(r'^(\s*)(\} else )?(if|while) (?!let)(.*) \{$', l)
                    if m:
                        out.append((rel, n, l, '%s%s%s (%s) != %s {' % (m.group(1), m.group(2) or '', m.group(3), m.group(4), RARE)))
                    if t.endswith(';') and not t.startswith(('let ', 'pub ', 'type ', 'const ', '}', '.', ')')) and t.count('(') == t.count(')') and t.count('{') == t.count('}'):
                        out.append((rel, n, l, 'if !%s { %s }' % (RARE, t)))
                        u = lines[n + 1].strip()
                        if u.endswith(';') and not u.startswith(('}', '.', ')', 'type ', 'const ')) and u.count('(') == u.count(')'):
                            out.append((rel, n, l, u + ' ' + t + ' //SWAP'))
                    continue
                for pat, reps in SUBS:
                    for m in re.finditer(pat, l):
                        if '//' in l[:m.start()]:
                            continue
                        for r in reps:
                            new = l[:m.start()] + m.expand(r) + l[m.end():]
                            out.append((rel, n, l, new))
                if t.endswith(';') and not t.startswith(('let ', 'return', 'pub ', 'type ', 'const ', '}', '.', ')')) and t.count('(') == t.count(')'):
                    out.append((rel, n, l, ''))
    random.Random(SEED).shuffle(out)
    return out


def checks_of(f):
    t = [('avl', [('mem', 'C01 C02'), ('seq', 'C20 C35 C38 C39')]), ('red_black', [('mem', 'C03 C04'), ('seq', 'C20 C35 C38 C39')]), ('splay', [('mem', 'C05 C06'), ('seq', 'C20 C35 C38 C39')]),
         ('treap', [('mem', 'C07 C08 C10'), ('seq', 'C09 C20 C35 C38 C39')]), ('skiplist', [('mem', 'C11 C12 C14'), ('seq', 'C13 C20 C35 C38 C39'), ('ub', 'C21')]),
         ('radix', [('seq', 'C15 C16 C20 C35 C38 C39')]), ('arena', [('seq', 'C17 C20'), ('mem', 'C07')]), ('bp_tree', [('bp', 'C22 C23 C24 C25 C46'), ('bpio', 'C36 C37 C44 C47 C48 C50')]),
         ('lsm', [('lsm', 'C26 C27 C28 C29 C30 C31 C32 C33 C34 C40 C41 C42 C43 C45 C46 C47 C48 C49 C50')]), ('sync', [('stack', 'C18 C19')]), ('entry', [('mem', 'C01'), ('lsm', 'C26'), ('bp', 'C22')])]
    for k, v in t:
        if k in f:
            return v
    return []


lock = threading.Lock()
todo = mutants()
print(len(todo), 'candidates', flush=True)
pos = [0]
END = time.time() + HOURS * 3600


def sh(cmd, cwd, env, limit):
    full = 'ulimit -v 12000000; ulimit -f 400000; exec timeout -k 5 %d %s' % (limit, cmd)
    p = subprocess.run(['bash', '-c', full], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')[-3000:]


def worker(w):
    base = '%s/w%d' % (ROOT, w)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = base + '/repo'
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target', '.git'))
    h = base + '/h'
    shutil.copytree('/verif/harness', h, ignore=shutil.ignore_patterns('target'))
    t = open(h + '/Cargo.toml').read().replace('"/repo"', '"%s"' % repo)
    open(h + '/Cargo.toml', 'w').write(t)
    e1 = dict(ENV, CARGO_TARGET_DIR=base + '/t1', CARGO_INCREMENTAL='1')
    e2 = dict(ENV, CARGO_TARGET_DIR=base + '/t2', CARGO_INCREMENTAL='0')
    while time.time() < END:
        with lock:
            if pos[0] >= len(todo):
                return
            rel, n, old, new = todo[pos[0]]
            pos[0] += 1
        p = os.path.join(repo, rel)
        orig = open('/repo/' + rel).read()
        lines = orig.split('\n')
        if n >= len(lines) or lines[n] != old:
            continue
        lines[n] = new
        if new.endswith('//SWAP'):
            lines[n + 1] = ''
        open(p, 'w').write('\n'.join(lines))
        res = dict(file=rel, line=n + 1, old=old.strip(), new=new.strip())
        rc, o = sh('cargo check --offline --lib -q', repo, e1, 120)
        if rc != 0:
            res['state'] = 'no build'
        else:
            rc, o = sh('cargo test --offline --lib --tests -q -- --test-threads 4', repo, e1, 100)
            for x in os.listdir(repo):
                if re.match(r'(int_test|test|example)_', x):
                    y = os.path.join(repo, x)
                    shutil.rmtree(y) if os.path.isdir(y) else os.remove(y)
            if rc != 0:
                res['state'] = 'killed by tests'
            else:
                res['state'] = 'SURVIVED'
                t0 = time.time()
                for b, props in checks_of(rel):
                    rc, o = sh('cargo build --offline -q --bin %s' % b, h, e2, 300)
                    if rc != 0:
                        res['state'] = 'no harness build'
                        break
                    for c in props.split():
                        s = base + '/s'
                        shutil.rmtree(s, ignore_errors=True)
                        os.makedirs(s)
                        rc, o = sh('%s/t2/debug/%s %s --threads 3 --scratch %s --slots %s/slots --out %s/o.json --time 200 >/dev/null' % (base, b, c, s, base, base), base, e2, 300)
                        if rc != 0:
                            v = [x for x in o.split('\n') if x.startswith('violation')]
                            res['state'] = 'caught'
                            res['by'] = c
                            res['how'] = (v[0] if v else 'rc %d %s' % (rc, o[-200:]))[:300]
                            break
                    if res['state'] != 'SURVIVED':
                        break
                res['check_s'] = round(time.time() - t0)
        open(p, 'w').write(orig)
        with lock:
            with open(ROOT + '/results.jsonl', 'a') as f:
                f.write(json.dumps(res) + '\n')


ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
