SEEDS = []
def add(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))
exec(open('/verif/tools/seed_defs2.py').read().split('# ---------------------------------------------------------------- lsm')[0].split("add('")[0].split('SEEDS.append')[1].split('\n', 1)[1])
LSM_SRC = open('/verif/tools/seed_defs2.py').read()
exec(LSM_SRC[LSM_SRC.index("LSM = r'''"):LSM_SRC.index("add('tiered-get-first-hit'")])
RB_COST = r'''
use extended_collections::red_black_tree::RedBlackMap;
fn main() {
    for seed in 0..40u64 {
        let mut r = Rng::new(seed + 1);
        let mut m = RedBlackMap::new();
        let mut model = BTreeSet::new();
        for step in 0..6000u64 {
            let k = match seed % 3 { 0 => r.below(2000) as i64, 1 => (step % 2000) as i64, _ => if step % 4000 < 2000 { step as i64 % 2000 } else { r.below(2000) as i64 } };
            if (step / 2000) % 2 == 0 { m.insert(Key(k, 0), ()); model.insert(k); } else { assert_eq!(m.remove(&Key(k, 0)).is_some(), model.remove(&k)); }
            if step % 100 == 0 {
                let bound = 2.0 * ((model.len() + 1) as f64).log2() + 0.001;
                for &q in model.iter() {
                    let a = cmps();
                    assert!(m.get(&Key(q, 0)).is_some());
                    assert!((cmps() - a) as f64 <= bound, "{} comparisons among {} keys", cmps() - a, model.len());
                }
            }
        }
    }
}
'''
add('treap-insert-keeps-key', 'C07', [('src/treap/tree.rs', '''                        let Node { ref mut entry, .. } = &mut **node;
                        return Some(mem::replace(entry, new_node.entry));''', '''                        let Node { ref mut entry, .. } = &mut **node;
                        let value = mem::replace(&mut entry.value, new_node.entry.value);
                        return Some(Entry {
                            key: new_node.entry.key,
                            value,
                        });''')],
    'keys that compare equal but can be told apart, and a new node whose priority is the lower one',
    'depending on the random priorities the map keeps the key object of the first insertion and hands back the new one',
r'''
use extended_collections::treap::TreapMap;
fn main() {
    for i in 0..50 {
        let mut m = TreapMap::new();
        for i in 0..50 { m.insert(Key(i, 0), 0); }
        let (k, v) = m.insert(Key(7, 1), 1).unwrap();
        assert_eq!((k.1, v), (0, 0), "the replaced entry is handed back");
        let (k, v) = m.remove(&Key(7, 9)).unwrap();
        assert_eq!((k.1, v), (1, 1), "the stored entry is the new one");
    }
}
''')
add('treap-list-insert-bound', 'C09', [('src/treap/implicit_tree.rs', 'assert!(1 <= index && index <= len(tree) + 1);', 'assert!(1 <= index);')],
    'an insert more than one past the end of the list', 'inserting beyond the end appends instead of panicking',
r'''
use extended_collections::treap::TreapList;
fn main() {
    for n in 0..20usize { for past in 1..5 {
        let mut l = TreapList::new();
        for i in 0..n { l.push_back(i); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.insert(n + past, 99)));
        assert!(r.is_err(), "insert({}) into {} elements", n + past, n);
        assert_eq!(l.iter().cloned().collect::<Vec<_>>(), (0..n).collect::<Vec<_>>());
    } }
}
''')
add('bp-split-len-even', 'C22', [('src/bp_tree/node.rs', 'split_node.len = internal_degree / 2;', 'split_node.len = (internal_degree - 1) / 2;')],
    'an even internal degree and a full internal node that splits',
    'after the split the new node counts one key fewer than it holds; later merges at that node lose a subtree', BP_HISTORY)
add('bp-leaf-split-len-even', 'C22', [('src/bp_tree/node.rs', '                len: (self.len + 1) / 2,', '                len: self.len / 2 + 1,')],
    'an even leaf degree and a full leaf that splits', 'the new leaf counts an entry it does not hold', BP_HISTORY)
add('tiered-purge-any', 'C26', [('src/lsm_tree/compaction/size_tiered.rs', 'let purge_tombstone = self.sstables.iter().all(|sstable| {', 'let purge_tombstone = self.sstables.is_empty() || self.sstables.iter().any(|sstable| {')],
    'a compaction of tables with tombstones while an older table still holds the key and yet another, newer table shares no key',
    'one table that would allow it is enough to purge the tombstones, so a removed key reappears', LSM + r'''
fn main() {
    // A: large, holds key 50; B: small tables removing 50; D: newer table far away, larger
    let p = scratch("t");
    let mut m = LsmMap::new(Tiered::new(&p, 1 << 30, 2, 0, 0.5, 1.5).unwrap());
    for k in 0..1000u32 { m.insert(k, 1).unwrap(); }
    m.flush().unwrap();
    {
        let it = m.iter().unwrap(); // holds off compaction
        for _ in 0..3 { m.remove(50).unwrap(); m.insert(51, 2).unwrap(); m.flush().unwrap(); }
        for k in 5000..5100u32 { m.insert(k, 1).unwrap(); }
        m.flush().unwrap();
        drop(it);
    }
    for k in 6000..6400u32 { m.insert(k, 1).unwrap(); }
    m.flush().unwrap();
    assert_eq!(m.get(&50).unwrap(), None, "a removed key is back");
    assert!(!contents(&mut m).iter().any(|e| e.0 == 50), "a removed key is back");
}
''')
add('leveled-tombstone-deep', 'C27', [('src/lsm_tree/compaction/leveled.rs', 'if index + 1 != metadata_snapshot.levels.len() - 1 || value.data.is_some() {', 'if index + 2 < metadata_snapshot.levels.len() - 1 || value.data.is_some() {')],
    'three levels, and a key removed while its value lives in the last one',
    'the tombstone is dropped when it reaches the level before the last, so the key reappears', LEVELED_HISTORY)
exec(LSM_SRC[LSM_SRC.index("PRELOAD = r'''"):LSM_SRC.index("add('tiered-lock-count-reset'")])

add('splay-get-mut-no-splay', 'C06', [('src/splay_tree/tree.rs', """    if let Some(ref mut node) = tree {
        splay(node, key);
        if node.entry.key.borrow() == key {
            return Some(&mut node.entry);
        }
    }
    None""", """    let mut curr = tree;
    while let Some(node) = curr {
        match key.cmp(node.entry.key.borrow()) {
            Ordering::Less => curr = &mut node.left,
            Ordering::Greater => curr = &mut node.right,
            Ordering::Equal => return Some(&mut node.entry),
        }
    }
    None""")], 'keys inserted in order, then many mutable lookups of the deepest key', 'get_mut searches without splaying, so every lookup in a degenerate tree stays linear', r"""
use extended_collections::splay_tree::SplayMap;
fn main() {
    let n = 20000;
    let mut m = SplayMap::new();
    for i in 0..n { m.insert(Key(i, 0), ()); }
    let a = cmps();
    for _ in 0..200 { assert!(m.get_mut(&Key(0, 0)).is_some()); }
    assert!(cmps() - a < 200_000, "{} comparisons for 200 lookups of one key", cmps() - a);
}
""")
REWRITE = LSM + CHILD + r"""
fn work(p: &str) {
    let mut m = LsmMap::new(Leveled::new(p, 1 << 20, 100, 1 << 20, 4, 4).unwrap());
    for round in 0..4u64 { for k in 0..20u32 { m.insert(k, round).unwrap(); } m.flush().unwrap(); std::fs::write(format!("{}.ack", p), [round as u8]).unwrap(); }
}
fn main() {
    if std::env::var("CHILD").is_ok() { return work(&std::env::var("WHERE").unwrap()); }
    for at in 1..900 {
        let p = scratch(&format!("d{}", at)).to_str().unwrap().to_string();
        let rc = child(&[("DIE_AT", at.to_string()), ("WHERE", p.clone())]);
        if rc == Some(0) { assert!(at > 60); return; }
        assert_eq!(rc, Some(77));
        if let Ok(ack) = std::fs::read(format!("{}.ack", p)) {
            if ack.is_empty() { continue; }
            let mut m: LsmMap<u32, u64, Leveled> = LsmMap::new(Leveled::open(&p).unwrap_or_else(|e| panic!("killed at operation {}: open fails: {}", at, e)));
            for k in 0..20 { assert!(m.get(&k).unwrap() >= Some(ack[0] as u64), "killed at operation {}", at); }
        }
    }
}
"""
add('tiered-logical-time-rewrite', 'C29', [('src/lsm_tree/compaction/size_tiered.rs', """        self.logical_time_file.seek(SeekFrom::Start(0))?;
        self.logical_time_file
            .write_u64::<BigEndian>(self.curr_logical_time)?;
        Ok(ret)""", """        fs::File::create(self.path.join("logical_time.dat"))?
            .write_u64::<BigEndian>(self.curr_logical_time)?;
        Ok(ret)""")], 'the process is killed between truncating and writing the file of the logical time', 'the file is truncated before it is written anew; after a kill in between the map cannot be opened', REWRITE.replace("Leveled::new(p, 1 << 20, 100, 1 << 20, 4, 4)", "Tiered::new(p, 1 << 20, 100, 0, 0.5, 1.5)").replace("u64, Leveled>", "u64, Tiered>").replace("Leveled::open", "Tiered::open"), build=PBUILD, files={'p.c': PRELOAD})

STEPPING = r'''#define _GNU_SOURCE
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
// the compaction thread stands still before and after its next locked instructions after it has read a table
static __thread int left, just;
static void nap(void) { struct timespec t = {0, 12 * 1000000L}; syscall(SYS_nanosleep, &t, 0); }
static void trap(int sig, siginfo_t *i, void *x) {
    ucontext_t *c = x;
    uint8_t *p = (uint8_t *)c->uc_mcontext.gregs[REG_RIP];
    (void)sig; (void)i;
    if (left <= 0 || (p[0] == 0x0F && p[1] == 0x05 && c->uc_mcontext.gregs[REG_RAX] == SYS_rt_sigprocmask)) { left = 0; c->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
    left--;
    if (just) { just = 0; nap(); }
    for (int n = 0; n < 3 && ((*p & 0xF0) == 0x40 || *p == 0x66); n++) p++;
    if (*p == 0xF0 || ((*p == 0x86 || *p == 0x87) && p[1] >> 6 != 3)) { nap(); just = *p != 0xF0; }
}
int close(int fd) {
    char l[64], b[512];
    int bg = syscall(SYS_gettid) != getpid();
    ssize_t n = 0;
    if (bg) { left = 0; sprintf(l, "/proc/self/fd/%d", fd); n = readlink(l, b, sizeof b - 1); b[n > 0 ? n : 0] = 0; }
    int r = syscall(SYS_close, fd);
    if (n > 0 && (strstr(b, "/summary.dat") || strstr(b, "/filter.dat") || strstr(b, "/data.dat")) && getenv("STEP")) {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        a.sa_sigaction = trap; a.sa_flags = SA_SIGINFO | SA_RESTART;
        sigaction(SIGTRAP, &a, 0);
        left = 12000;
        __asm__ volatile("sub $128, %%rsp; pushfq; orq $0x100, (%%rsp); popfq; add $128, %%rsp" ::: "memory", "cc");
    }
    return r;
}
'''
add('tiered-publish-after-flag', 'C31', [('src/lsm_tree/compaction/size_tiered.rs', """        *next_metadata.lock().unwrap() = Some(metadata_snapshot);
        is_compacting.store(false, Ordering::Release);

        println!("Finished compacting");
""", """        is_compacting.store(false, Ordering::Release);
        *next_metadata.lock().unwrap() = Some(metadata_snapshot);

        println!("Finished compacting");
""")], 'a flush by the main thread between the instruction that clears the flag of the compaction thread and the next one, which publishes its result', 'a second compaction starts from the tables of the first; when the results are installed, SSTables created meanwhile are lost', LSM + CHILD + r"""
fn work() {
    for seed in 0..3u64 {
        let mut m = LsmMap::new(Tiered::new(scratch(&format!("l{}", seed)), 100, 2, 0, 0.5, 1.5).unwrap());
        let mut model = BTreeMap::new();
        let mut r = Rng::new(seed + 1);
        for step in 0..1500u64 {
            let k = r.below(200) as u32;
            m.insert(k, step).unwrap(); model.insert(k, step);
            std::thread::sleep(std::time::Duration::from_millis(1));
            let k = r.below(200) as u32;
            assert_eq!(m.get(&k).unwrap(), model.get(&k).cloned(), "get({}) after {} operations", k, step);
        }
        m.flush().unwrap();
        check(&mut m, &model, 200, "end");
    }
}
fn main() {
    if std::env::var("CHILD").is_ok() { return work(); }
    assert_eq!(child(&[("STEP", "1".to_string())]), Some(0));
}
""", build=PBUILD, files={'p.c': STEPPING})
add('bp-min-entries-odd', 'C22', [('src/bp_tree/node.rs', '            for index in 0..leaf_degree {\n', '            for index in 0..leaf_degree - leaf_degree / 16 {\n')],
    'a leaf degree of 16 or more and a leaf that overflows with a key greater than its last ones',
    'the last entries of a splitting leaf are not moved to the new leaf', BP_HISTORY.replace('(5, 7), (3, 8)]', '(5, 7), (3, 8), (16, 4), (33, 5)]').replace('below(200)', 'below(400)').replace('0..900u64', '0..2500u64'))
