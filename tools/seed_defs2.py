SEEDS = []
def add(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

BP = r'''
use extended_collections::bp_tree::BpMap;
fn check(m: &mut BpMap<u32, u64>, model: &BTreeMap<u32, u64>, what: &str) {
    assert_eq!(m.len(), model.len(), "{}: len", what);
    for (k, v) in model { assert_eq!(m.get(k).unwrap(), Some(*v), "{}: get({})", what, k); }
    let got: Vec<(u32, u64)> = m.iter_mut().unwrap().map(|e| e.unwrap()).collect();
    let want: Vec<(u32, u64)> = model.iter().map(|(k, v)| (*k, *v)).collect();
    assert!(got == want, "{}: iteration has {} of {} entries", what, got.len(), want.len());
}
'''
BP_HISTORY = BP + r'''
fn main() {
    for (leaf, internal) in [(3usize, 3usize), (4, 4), (5, 5), (4, 6), (5, 7), (3, 8)] {
        for seed in 0..6 {
            let mut r = Rng::new(seed + 1);
            let p = scratch(&format!("m{}_{}_{}", leaf, internal, seed));
            let mut m: BpMap<u32, u64> = BpMap::with_degrees(&p, 4, 8, leaf, internal).unwrap();
            let mut model = BTreeMap::new();
            for step in 0..900u64 {
                let k = r.below(200) as u32;
                let grow = (step / 150) % 2 == 0;
                if r.below(10) < if grow { 8 } else { 2 } {
                    assert_eq!(m.insert(k, step).unwrap().map(|e| e.1), model.insert(k, step), "insert({})", k);
                } else {
                    assert_eq!(m.remove(&k).unwrap().map(|e| e.1), model.remove(&k), "remove({})", k);
                }
                if step % 50 == 0 { check(&mut m, &model, "history"); }
            }
            check(&mut m, &model, "end");
        }
    }
}
'''
add('bp-free-page-not-persisted', 'C25', [
    ('src/bp_tree/pager.rs', '''        self.metadata.free_page = Some(index);
        self.db_file.seek(SeekFrom::Start(0))?;
        let serialized_metadata = &serialize(&self.metadata)?;
        self.db_file
            .write_all(serialized_metadata)
            .map_err(Error::IOError)
''', '''        self.metadata.free_page = Some(index);
        Ok(())
''')],
    'the map is closed right after a removal that merges internal nodes or collapses the root, and opened again, many times',
    'the freed page is only recorded in memory; after reopening it is never used again, so the file grows',
    BP + r'''
fn main() {
    let p = scratch("m");
    let mut m: BpMap<u32, u64> = BpMap::with_degrees(&p, 4, 8, 3, 3).unwrap();
    let mut sizes = Vec::new();
    for _ in 0..150u64 {
        for k in 0..24u32 { m.insert(k, k as u64).unwrap(); }
        for k in 0..24u32 { m.remove(&k).unwrap(); drop(m); m = BpMap::open(&p).unwrap(); }
        sizes.push(std::fs::metadata(&p).unwrap().len());
    }
    assert!(sizes[149] < sizes[5] * 2, "file sizes {:?}", sizes);
}
''')
add('bp-free-page-write', 'C25', [
    ('src/bp_tree/pager.rs', '''        self.metadata.free_page = Some(index);
        self.db_file.seek(SeekFrom::Start(0))?;
        let serialized_metadata = &serialize(&self.metadata)?;
        self.db_file
            .write_all(serialized_metadata)
            .map_err(Error::IOError)
''', '''        self.metadata.free_page = Some(index);
        Ok(())
''')],
    'sessions that end right after a removal which merged internal nodes',
    'the head of the free list is not written when an internal page is freed, so each session leaks pages and the file grows',
    BP + r'''
fn main() {
    let p = scratch("m");
    let mut m: BpMap<u32, u64> = BpMap::with_degrees(&p, 4, 8, 3, 3).unwrap();
    let mut peak = 0;
    for round in 0..200 {
        for k in 0..60u32 { m.insert(k, 1).unwrap(); }
        for k in 0..60u32 { m.remove(&k).unwrap(); drop(m); m = BpMap::open(&p).unwrap(); }
        let len = std::fs::metadata(&p).unwrap().len();
        if round == 0 { peak = len; }
        assert!(len <= peak * 2, "file has {} bytes after round {}, {} after the first", len, round, peak);
    }
}
''')
add('bp-page-size-in-memory', 'C24', [
    ('src/bp_tree/pager.rs', '''        Node::<T, U>::get_max_size(
            self.metadata.key_size,
            self.metadata.value_size,
            self.metadata.leaf_degree,
            self.metadata.internal_degree,
        ) as u64''', '''        std::cmp::max(
            LeafNode::<T, U>::get_max_size(
                self.metadata.leaf_degree,
                self.metadata.key_size,
                self.metadata.value_size,
            ),
            crate::bp_tree::node::InternalNode::<T, U>::get_max_size(
                self.metadata.internal_degree,
                self.metadata.key_size,
            ),
        )''')],
    'a key or value type whose Option needs no tag in memory (String, Vec), and leaves full of maximum-size records',
    'pages are laid out from in-memory sizes, so a full leaf overflows into the next page',
    r'''
use extended_collections::bp_tree::BpMap;
fn main() {
    for size in [1usize, 8, 20] {
        let p = scratch(&format!("m{}", size));
        let mut m: BpMap<String, Vec<u8>> = BpMap::with_degrees(&p, 12, 8 + size as u64, 20, 20).unwrap();
        for i in 0..300u32 { m.insert(format!("{:04}", i * 7 % 300), vec![i as u8; size]).unwrap(); }
        for i in 0..300u32 {
            let k = format!("{:04}", i * 7 % 300);
            assert_eq!(m.get(&k).unwrap(), Some(vec![i as u8; size]), "value of {}", k);
        }
        assert_eq!(m.iter_mut().unwrap().map(|e| e.unwrap()).count(), 300);
    }
}
''')
# ---------------------------------------------------------------- lsm
LSM = r'''
use extended_collections::lsm_tree::{LsmMap, compaction::{CompactionStrategy, SizeTieredStrategy, LeveledStrategy}};
type Tiered = SizeTieredStrategy<u32, u64>;
type Leveled = LeveledStrategy<u32, u64>;
fn check<C: CompactionStrategy<u32, u64>>(m: &mut LsmMap<u32, u64, C>, model: &BTreeMap<u32, u64>, keys: u32, what: &str) {
    for k in 0..keys { assert_eq!(m.get(&k).unwrap(), model.get(&k).cloned(), "{}: get({})", what, k); }
}
fn contents<C: CompactionStrategy<u32, u64>>(m: &mut LsmMap<u32, u64, C>) -> Vec<(u32, u64)> { m.iter().unwrap().map(|e| e.unwrap()).collect() }
'''
LSM_HISTORY = LSM + r'''
fn history<C: CompactionStrategy<u32, u64>>(mut m: LsmMap<u32, u64, C>, seed: u64, keys: u32, what: &str) {
    let mut r = Rng::new(seed + 1);
    let mut model = BTreeMap::new();
    for step in 0..700u64 {
        let k = r.below(keys as u64) as u32;
        if r.below(10) < 6 { m.insert(k, step).unwrap(); model.insert(k, step); } else { m.remove(k).unwrap(); model.remove(&k); }
        if r.below(12) == 0 { m.flush().unwrap(); }
        if r.below(20) == 0 { check(&mut m, &model, keys, what); }
        if r.below(60) == 0 { assert_eq!(contents(&mut m), model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "{}: iteration", what); }
    }
    m.flush().unwrap();
    check(&mut m, &model, keys, what);
}
'''
TIERED_HISTORY = LSM_HISTORY + r'''
fn main() {
    for seed in 0..60u64 {
        let keys = [8u32, 16, 40][seed as usize % 3];
        let s = Tiered::new(scratch(&format!("t{}", seed)), [60, 150, 300][seed as usize / 3 % 3], [1, 2, 4][seed as usize / 9 % 3], [0, 50, 500][seed as usize / 2 % 3], 0.5, 1.5).unwrap();
        history(LsmMap::new(s), seed, keys, &format!("tiered {}", seed));
    }
}
'''
LEVELED_HISTORY = LSM_HISTORY + r'''
fn main() {
    for seed in 0..60u64 {
        let keys = [8u32, 16, 40][seed as usize % 3];
        let s = Leveled::new(scratch(&format!("l{}", seed)), [60, 150][seed as usize / 3 % 2], [1, 2, 4][seed as usize / 9 % 3], [30, 80, 300][seed as usize / 2 % 3], 1 + seed as usize % 2, 1 + seed / 5 % 3).unwrap();
        history(LsmMap::new(s), seed, keys, &format!("leveled {}", seed));
    }
}
'''
add('tiered-get-first-hit', 'C26', [('src/lsm_tree/compaction/size_tiered.rs', '''        let mut ret = None;
        for sstable in &curr_metadata.sstables {
            let res = sstable.get(&key)?;
            if res.is_some() && (ret.is_none() || res < ret) {
                ret = res;
            }
        }

        Ok(ret)''', '''        // the newest SSTables are at the back
        for sstable in curr_metadata.sstables.iter().rev() {
            let res = sstable.get(&key)?;
            if res.is_some() {
                return Ok(res);
            }
        }

        Ok(None)''')],
    'a compaction that merges small, newer tables while a larger, older table with the same key is kept before or after them',
    'get trusts the order of the tables although compaction sorts them by size, so an overwritten value comes back', TIERED_HISTORY)
add('leveled-touching-ranges', 'C27', [('src/lsm_tree/sstable.rs', '    l <= r\n', '    l < r\n')],
    'a table merged into the next level that shares exactly one boundary key with a table there',
    'tables that touch in one key are not merged, so two tables of a level hold the key (or one replaces the other)', LEVELED_HISTORY)
add('tiered-logical-time-lag', 'C28', [('src/lsm_tree/compaction/size_tiered.rs', '''            .write_u64::<BigEndian>(self.curr_logical_time)?;
        Ok(ret)''', '''            .write_u64::<BigEndian>(ret)?;
        Ok(ret)''')],
    'a reopened map whose first operation overwrites or removes the very key that was written last before the final flush',
    'the logical time of the last operation is handed out again after reopening, and the older entry wins the tie',
    LSM + r'''
fn main() {
    for n in 1..40u32 {
        let p = scratch(&format!("t{}", n));
        let mut model = BTreeMap::new();
        let mut m = LsmMap::new(Tiered::new(&p, 1 << 20, 100, 0, 0.5, 1.5).unwrap());
        for k in 0..n { m.insert(k, 1).unwrap(); model.insert(k, 1); }
        m.flush().unwrap();
        drop(m);
        let mut m = LsmMap::new(Tiered::open(&p).unwrap());
        check(&mut m, &model, n, "reopened");
        let k = n - 1;
        if n % 2 == 0 { m.insert(k, 2).unwrap(); model.insert(k, 2); } else { m.remove(k).unwrap(); model.remove(&k); }
        m.flush().unwrap();
        check(&mut m, &model, n, "after the first operation of the second session");
        assert_eq!(contents(&mut m), model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>());
    }
}
''')
PRELOAD = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <time.h>
/* DIE_AT: end the process before the n-th file operation; FAIL_AT: make the n-th write fail with ENOSPC;
   SHORT: every write of more than 4096 bytes writes a part only; SLOW_RM: deletions by other threads than the first take this many ms */
static long ops, writes;
static int env(const char *n) { const char *s = getenv(n); return s ? atoi(s) : 0; }
static int data(int fd) { char a[64], b[512]; snprintf(a, 64, "/proc/self/fd/%d", fd); ssize_t n = readlink(a, b, 511); if (n <= 0) return 0; b[n] = 0; const char *d = getenv("DEMO_DIR"); return d && !strncmp(b, d, strlen(d)); }
static void op(void) { long n = __sync_add_and_fetch(&ops, 1); if (env("DIE_AT") && n == env("DIE_AT")) _exit(77); }
ssize_t write(int fd, const void *p, size_t n) {
    if (fd > 2 && data(fd)) {
        op();
        long w = __sync_add_and_fetch(&writes, 1);
        if (env("FAIL_AT") && w == env("FAIL_AT")) { errno = ENOSPC; return -1; }
        if (env("SHORT") && n > 4096) n = 4096 + (n - 4096) / 2;
    }
    return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd > 2 && data(fd)) return n ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
    return syscall(SYS_writev, fd, v, n);
}
static void slow(void) { if (env("SLOW_RM") && getpid() != syscall(SYS_gettid)) { struct timespec t = {0, env("SLOW_RM") * 1000000L}; nanosleep(&t, 0); } }
int unlinkat(int d, const char *p, int f) { slow(); op(); return syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { slow(); op(); return syscall(SYS_rmdir, p); }
int mkdir(const char *p, mode_t m) { op(); return syscall(SYS_mkdir, p, m); }
'''
PBUILD = 'cargo build --offline -q >"$work/build.log" 2>&1 || { tail -30 "$work/build.log"; exit 8; }\ngcc -O1 -shared -fPIC -o "$work/p.so" "$here/p.c" -ldl >"$work/gcc.log" 2>&1 || { tail -30 "$work/gcc.log"; exit 8; }\nexport PRELOAD="$work/p.so"'
CHILD = r'''
fn child(vars: &[(&str, String)]) -> Option<i32> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.env("LD_PRELOAD", std::env::var("PRELOAD").unwrap()).env("CHILD", "1").stdout(std::process::Stdio::null());
    for (k, v) in vars { c.env(k, v); }
    c.status().unwrap().code()
}
'''
add('tiered-lock-count-reset', 'C30', [('src/lsm_tree/compaction/size_tiered.rs', 'metadata_lock_count.set(metadata_lock_count.get() - 1);', 'metadata_lock_count.set(0);')],
    'two iterators alive at once, one of them dropped, and enough inserts for a compaction while the other is still in use',
    'dropping any iterator releases the protection of all, so a compaction removes SSTables the other still reads',
    LSM + r'''
fn main() {
    for round in 0..20 {
        let mut m = LsmMap::new(Tiered::new(scratch(&format!("t{}", round)), 200, 2, 0, 0.5, 1.5).unwrap());
        for k in 0..2000u32 { m.insert(k, 1).unwrap(); }
        m.flush().unwrap();
        let mut a = m.iter().unwrap();
        let b = m.iter().unwrap();
        assert_eq!(a.next().unwrap().unwrap(), (0, 1));
        drop(b);
        let dirs = |p: &PathBuf| std::fs::read_dir(p).unwrap().filter(|e| e.as_ref().unwrap().path().is_dir()).map(|e| e.unwrap().path()).collect::<BTreeSet<_>>();
        let p = scratch(&format!("t{}", round));
        let before = dirs(&p);
        for k in 0..400u32 { m.insert(k, 2).unwrap(); m.get(&k).unwrap(); }
        std::thread::sleep(std::time::Duration::from_millis(20));
        m.get(&0).unwrap();
        let after = dirs(&p);
        assert!(before.is_subset(&after), "SSTables were removed while an iterator was alive");
        let rest: Vec<_> = a.map(|e| e.unwrap()).collect();
        assert_eq!(rest, (1..2000u32).map(|k| (k, 1)).collect::<Vec<_>>());
    }
}
''')
add('leveled-old-levels-kept', 'C32', [('src/lsm_tree/compaction/leveled.rs', 'for path in old_path_iter.chain(old_level_path_iter) {', 'let _ = old_level_path_iter;\n            for path in old_path_iter {')],
    'compactions that merge tables already in a level',
    'level tables replaced by a compaction are never removed, so the directory grows without bound',
    LSM + r'''
fn main() {
    let p = scratch("l");
    let mut m = LsmMap::new(Leveled::new(&p, 400, 2, 400, 2, 2).unwrap());
    for round in 0..300u64 {
        for k in 0..40u32 { m.insert(k, round).unwrap(); }
        m.flush().unwrap();
    }
    let dirs = std::fs::read_dir(&p).unwrap().filter(|e| e.as_ref().unwrap().path().is_dir()).count();
    assert!(dirs < 40, "{} SSTables on disk for 40 keys", dirs);
}
''')
add('sstable-entry-length-u16', 'C33', [
    ('src/lsm_tree/sstable.rs', '''            .write_u64::<BigEndian>(serialized_entry.len() as u64)?;
        self.data_stream.write_all(&serialized_entry)?;
        self.data_offset += 8 + serialized_entry.len() as u64;
        self.size += 8 + serialized_entry.len() as u64;''', '''            .write_u16::<BigEndian>(serialized_entry.len() as u16)?;
        self.data_stream.write_all(&serialized_entry)?;
        self.data_offset += 2 + serialized_entry.len() as u64;
        self.size += 2 + serialized_entry.len() as u64;'''),
    ('src/lsm_tree/sstable.rs', 'let size = data_file.read_u64::<BigEndian>()?;', 'let size = data_file.read_u16::<BigEndian>()?;'),
    ('src/lsm_tree/sstable.rs', 'let size = match data_file.read_u64::<BigEndian>() {', 'let size = match data_file.read_u16::<BigEndian>() {')],
    'a record of 64 KiB or more',
    'the length of a record is stored in 16 bits, so large values cannot be read back',
    r'''
use extended_collections::lsm_tree::{LsmMap, compaction::SizeTieredStrategy};
fn main() {
    let mut m: LsmMap<u32, Vec<u8>, _> = LsmMap::new(SizeTieredStrategy::new(scratch("t"), 1 << 30, 4, 0, 0.5, 1.5).unwrap());
    let sizes = [0usize, 1, 100, 65000, 65519, 65535, 65536, 70000, 200000, 3];
    for (i, &s) in sizes.iter().enumerate() { m.insert(i as u32, vec![i as u8; s]).unwrap(); }
    m.flush().unwrap();
    for (i, &s) in sizes.iter().enumerate() { assert!(m.get(&(i as u32)).unwrap() == Some(vec![i as u8; s]), "value of {} bytes", s); }
    assert_eq!(m.iter().unwrap().map(|e| e.unwrap()).count(), sizes.len());
}
''')
add('sstable-short-write', 'C34', [('src/lsm_tree/sstable.rs', 'self.data_stream.write_all(&serialized_entry)?;', 'let _ = self.data_stream.write(&serialized_entry)?;')],
    'a record larger than the write buffer and a file system that accepts only a part of a write',
    'the part of a large record that did not fit into one write is silently left out',
    r'''
use extended_collections::lsm_tree::{LsmMap, compaction::SizeTieredStrategy};
''' + CHILD + r'''
fn main() {
    if std::env::var("CHILD").is_ok() {
        let mut m: LsmMap<u32, Vec<u8>, _> = LsmMap::new(SizeTieredStrategy::new(scratch("t"), 1 << 30, 4, 0, 0.5, 1.5).unwrap());
        for i in 0..8u32 { m.insert(i, vec![i as u8; 20000]).unwrap(); }
        m.flush().unwrap();
        for i in 0..8u32 { assert!(m.get(&i).unwrap() == Some(vec![i as u8; 20000]), "value of {}", i); }
        return;
    }
    assert_eq!(child(&[("SHORT", "1".to_string())]), Some(0));
}
''', build=PBUILD, files={'p.c': PRELOAD})
add('sstable-data-not-flushed', 'C34', [('src/lsm_tree/sstable.rs', '''        self.index_stream.flush()?;
        self.data_stream.flush()?;
''', '''        self.index_stream.flush()?;
        self.data_stream.flush().ok();
''')],
    'the last write of the data file of an SSTable fails (disk full)',
    'the error is swallowed: flush reports success although entries of the new SSTable are missing',
    LSM + CHILD + r'''
fn work(p: &str) {
    let mut m = LsmMap::new(Leveled::new(p, 1 << 20, 100, 1 << 20, 4, 4).unwrap());
    for k in 0..20u32 { if m.insert(k, 1).is_err() { std::process::exit(3); } }
    if m.flush().is_err() { std::process::exit(3); }
}
fn main() {
    if std::env::var("CHILD").is_ok() { return work(&std::env::var("WHERE").unwrap()); }
    let p = scratch("d").to_str().unwrap().to_string();
    match child(&[("FAIL_DATA", "1".to_string()), ("WHERE", p.clone())]) {
        Some(0) => {
            let mut m: LsmMap<u32, u64, Leveled> = LsmMap::new(Leveled::open(&p).unwrap());
            for k in 0..20 { assert_eq!(m.get(&k).unwrap(), Some(1), "the data could not be written, flush returned Ok, get({})", k); }
        }
        Some(3) => {}
        rc => panic!("exit {:?}", rc),
    }
}
''', build=PBUILD, files={'p.c': PRELOAD.replace('        if (env("FAIL_AT")', '        if (env("FAIL_DATA")) { char a[64], b[512]; snprintf(a, 64, "/proc/self/fd/%d", fd); ssize_t k = readlink(a, b, 511); if (k > 0) { b[k] = 0; if (strstr(b, "/data.dat")) { errno = ENOSPC; return -1; } } }\n        if (env("FAIL_AT")', 1)})
