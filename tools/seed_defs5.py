SEEDS = []
def add(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))
import os as _os
_D = _os.path.dirname(_os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
LSM_SRC = open('/verif/tools/seed_defs2.py').read()
exec(LSM_SRC[LSM_SRC.index("BP = r'''"):LSM_SRC.index("add('bp-free-page-not-persisted'")])
exec(LSM_SRC[LSM_SRC.index("LSM = r'''"):LSM_SRC.index("LSM_HISTORY")])
exec(LSM_SRC[LSM_SRC.index("PRELOAD = r'''"):LSM_SRC.index("add('tiered-lock-count-reset'")])
D4 = open('/verif/tools/seed_defs4.py').read()
exec(D4[D4.index("RB_COST = r'''"):D4.index("add('treap-insert-keeps-key'")])

# ---- C04
RB_SHAPE = r'''
use extended_collections::red_black_tree::RedBlackMap;
fn main() {
    for seed in 0..60u64 {
        let mut r = Rng::new(seed + 1);
        let mut m = RedBlackMap::new();
        let mut model = BTreeSet::new();
        let n = 40 + (seed % 4) * 300;
        for step in 0..4000u64 {
            let k = match seed % 3 { 0 => r.below(n) as i64, 1 => (step % n) as i64, _ => (step * 7 % n) as i64 };
            let grow = (step / n) % 2 == 0 || r.below(20) == 0;
            if grow { m.insert(Key(k, 0), ()); model.insert(k); } else { assert_eq!(m.remove(&Key(k, 0)).is_some(), model.remove(&k)); }
            if step % 37 == 0 {
                let bound = 2.0 * ((model.len() + 1) as f64).log2() + 0.001;
                for &q in model.iter() {
                    let a = cmps();
                    assert!(m.get(&Key(q, 0)).is_some());
                    assert!((cmps() - a) as f64 <= bound, "{} comparisons among {} keys", cmps() - a, model.len());
                }
            }
        }
    }
}
'''
add('rb-balance-no-rotation', 'C04', [('src/red_black_tree/node.rs', '''        if should_rotate {
            self.rotate_right();
        }

        if tree''', '''        if should_rotate && self.right.is_none() {
            self.rotate_right();
        }

        if tree''')],
    'removals that leave two red links in a row on the left of a node with a right subtree',
    'red nodes keep red children after removals, so some paths grow beyond the bound', RB_SHAPE)
add('rb-balance-right-links', 'C04', [('src/red_black_tree/node.rs', '''        if tree::is_red(&self.right) {
            self.rotate_left();
        }
''', '''        if tree::is_red(&self.right) && self.left.is_some() {
            self.rotate_left();
        }
''')],
    'removals that leave a node with a red right child and no left one', 'red links lean to the right after removals, where insertion does not look for them', RB_SHAPE)

# ---- C12
add('skip-intersection-taller', 'C12', [('src/skiplist/map.rs', '''                                next_node = mem::replace(&mut left.head, next_left_node);
                                Node::free(mem::replace(&mut right.head, next_right_node));
                            }
                            cmp::Ordering::Less => {
                                let next_left_node = *(*left.head).get_pointer(0);
                                Node::free(''', '''                                let left_node = mem::replace(&mut left.head, next_left_node);
                                let right_node = mem::replace(&mut right.head, next_right_node);
                                // the taller node keeps the result searchable
                                if (*left_node).links_len + 4 > (*right_node).links_len {
                                    next_node = left_node;
                                    Node::free(right_node);
                                } else {
                                    next_node = right_node;
                                    Node::free(left_node);
                                }
                            }
                            cmp::Ordering::Less => {
                                let next_left_node = *(*left.head).get_pointer(0);
                                Node::free(''')],
    'a common key whose node in the right map happens to be at least four levels taller than the one in the left map',
    'the intersection takes some entries from the right operand',
r'''
use extended_collections::skiplist::SkipMap;
fn main() {
    for round in 0..20 {
        let (mut a, mut b) = (SkipMap::new(), SkipMap::new());
        for i in 0..400 { a.insert(i, 'a'); if i % 3 != 0 { b.insert(i, 'b'); } }
        let c = SkipMap::intersection(a, b);
        for (k, v) in c.iter() { assert_eq!(*v, 'a', "value of {}", k); }
        assert_eq!(c.len(), 266);
    }
}
''')

# ---- C18
add('stack-push-stale-next', 'C18', [('src/sync/stack.rs', '''        loop {
            let head_shared = self.head.load(Ordering::Relaxed, guard);
            new_node.next.store(head_shared, Ordering::Relaxed);
            match self''', '''        let head_shared = self.head.load(Ordering::Relaxed, guard);
        new_node.next.store(head_shared, Ordering::Relaxed);
        loop {
            let head_shared = self.head.load(Ordering::Relaxed, guard);
            match self''')],
    'another thread changing the head between the load that sets the link and a successful exchange',
    'the new node links to a head that is no longer the top: elements pushed meanwhile are lost, or popped ones come back',
r'''
use extended_collections::sync::Stack;
use std::sync::Arc;
fn main() {
    for round in 0..20 {
        let s = Arc::new(Stack::new());
        let hs: Vec<_> = (0..4u64).map(|t| { let s = s.clone(); std::thread::spawn(move || for i in 0..50_000u64 { s.push(t * 1_000_000 + i); }) }).collect();
        for h in hs { h.join().unwrap(); }
        let mut seen = BTreeSet::new();
        while let Some(x) = s.try_pop() { assert!(seen.insert(x), "{} popped twice", x); }
        assert_eq!(seen.len(), 200_000, "values popped");
    }
}
''')

# ---- C23
add('bp-clear-not-persisted', 'C23', [('src/bp_tree/pager.rs', '''        self.db_file.seek(SeekFrom::Start(0))?;
        let serialized_metadata = &serialize(&self.metadata)?;
        self.db_file.write_all(serialized_metadata)?;

        self.db_file.seek(SeekFrom::Start(header_size))?;
        let serialized_node = &serialize(&Node::Leaf(LeafNode::<T, U>::new(
            self''', '''        self.db_file.seek(SeekFrom::Start(header_size))?;
        let serialized_node = &serialize(&Node::Leaf(LeafNode::<T, U>::new(
            self''')],
    'a session that ends with clear and no insertion after it', 'the header of the file still describes the contents before clear',
    BP + r'''
fn main() {
    let p = scratch("m");
    let mut m: BpMap<u32, u64> = BpMap::with_degrees(&p, 4, 8, 3, 3).unwrap();
    for k in 0..50 { m.insert(k, 1).unwrap(); }
    m.clear().unwrap();
    drop(m);
    let mut m: BpMap<u32, u64> = BpMap::open(&p).unwrap();
    check(&mut m, &BTreeMap::new(), "reopened after clear");
    for k in 0..50 { m.insert(k, 2).unwrap(); }
    check(&mut m, &(0..50).map(|k| (k, 2)).collect(), "refilled");
}
''')
add('bp-reopen-counts-pages', 'C23', [('src/bp_tree/pager.rs', '''                self.metadata.pages += 1;
                self.db_file.seek(SeekFrom::Start(0))?;
                let serialized_metadata = &serialize(&self.metadata)?;
                self.db_file.write_all(serialized_metadata)?;

                Ok(self.metadata.pages - 1)''', '''                self.db_file.seek(SeekFrom::Start(0))?;
                let serialized_metadata = &serialize(&self.metadata)?;
                self.db_file.write_all(serialized_metadata)?;
                self.metadata.pages += 1;

                Ok(self.metadata.pages - 1)''')],
    'a session whose last metadata write is the one of a page allocation', 'placeholder', BP)
SEEDS.pop()

# ---- C30
add('leveled-compacts-under-iterator', 'C30', [('src/lsm_tree/compaction/leveled.rs', '''        if self.is_compacting.load(Ordering::Acquire) || self.metadata_lock_count.get() != 0 {
            return Ok(());
        }
''', '''        if self.is_compacting.load(Ordering::Acquire) {
            return Ok(());
        }
''')],
    'an iterator that is alive while enough entries are written for a compaction to start and be installed',
    'the compaction deletes SSTables that the iterator has not opened yet',
    LSM + r'''
fn main() {
    for round in 0..10 {
        let mut m = LsmMap::new(Leveled::new(scratch(&format!("l{}", round)), 200, 2, 300, 2, 2).unwrap());
        for k in 0..1500u32 { m.insert(k, 1).unwrap(); }
        m.flush().unwrap();
        let mut it = m.iter().unwrap();
        assert_eq!(it.next().unwrap().unwrap(), (0, 1));
        for k in 0..600u32 { m.insert(k, 2).unwrap(); if k % 50 == 0 { std::thread::sleep(std::time::Duration::from_millis(10)); m.get(&k).unwrap(); } }
        let mut n = 1;
        for e in it { assert_eq!(e.expect("the iterator reads on"), (n, 1)); n += 1; }
        assert_eq!(n, 1500);
    }
}
''')

# ---- C31
SLOW_OUT = PRELOAD.replace('    if (fd > 2 && data(fd)) {', '    if (fd == 1 && env("SLOW_OUT") && getpid() != syscall(SYS_gettid)) { struct timespec t = {0, env("SLOW_OUT") * 1000000L}; nanosleep(&t, 0); }\n    if (fd > 2 && data(fd)) {')
add('leveled-publish-after-flag', 'C31', [('src/lsm_tree/compaction/leveled.rs', '''        *next_metadata.lock().unwrap() = Some(metadata_snapshot);

        is_compacting.store(false, Ordering::Release);

        println!("Finished compacting");
''', '''        is_compacting.store(false, Ordering::Release);

        println!("Finished compacting");
        *next_metadata.lock().unwrap() = Some(metadata_snapshot);
''')],
    'a flush by the main thread between the moment the compaction thread clears its flag and the moment it publishes its result',
    'a second compaction starts from the tables the first one has merged already; the two results replace each other and tables are lost',
    LSM + CHILD + r'''
fn work() {
    for seed in 0..6u64 {
        let mut m = LsmMap::new(Leveled::new(scratch(&format!("l{}", seed)), 100, 2, 200, 2, 2).unwrap());
        let mut model = BTreeMap::new();
        let mut r = Rng::new(seed + 1);
        for step in 0..700u64 {
            let k = r.below(200) as u32;
            m.insert(k, step).unwrap(); model.insert(k, step);
            if step % 3 == 0 { std::thread::sleep(std::time::Duration::from_millis(1)); }
            let k = r.below(200) as u32;
            assert_eq!(m.get(&k).unwrap(), model.get(&k).cloned(), "get({}) after {} operations", k, step);
        }
        m.flush().unwrap();
        check(&mut m, &model, 200, "end");
    }
}
fn main() {
    if std::env::var("CHILD").is_ok() { return work(); }
    assert_eq!(child(&[("SLOW_OUT", "8".to_string())]), Some(0));
}
''', build=PBUILD, files={'p.c': SLOW_OUT})

# ---- C34
add('leveled-time-write-ignored', 'C34', [('src/lsm_tree/compaction/leveled.rs', '''        self.logical_time_file.seek(SeekFrom::Start(0))?;
        self.logical_time_file
            .write_u64::<BigEndian>(self.curr_logical_time)?;
        Ok(ret)''', '''        self.logical_time_file.seek(SeekFrom::Start(0))?;
        // the next operation writes it again
        self.logical_time_file
            .write_u64::<BigEndian>(self.curr_logical_time)
            .ok();
        Ok(ret)''')],
    'the disk is full when the logical time is stored, the session ends after a flush, and the same keys are written in the next session',
    'the session goes on as if nothing had happened, but the next one hands out logical times that are in use, and new values lose against old ones',
    LSM + CHILD + r'''
fn work(p: &str) {
    let mut m = LsmMap::new(Leveled::new(p, 1 << 20, 100, 1 << 20, 4, 4).unwrap());
    for k in 0..20u32 { if m.insert(k, 1).is_err() { std::process::exit(3); } }
    if m.flush().is_err() { std::process::exit(3); }
}
fn main() {
    if std::env::var("CHILD").is_ok() { return work(&std::env::var("WHERE").unwrap()); }
    let p = scratch("d").to_str().unwrap().to_string();
    match child(&[("FAIL_TIME", "1".to_string()), ("WHERE", p.clone())]) {
        Some(0) => {
            let mut m: LsmMap<u32, u64, Leveled> = LsmMap::new(Leveled::open(&p).unwrap());
            for k in (0..20).rev() { m.insert(k, 2).unwrap(); }
            m.flush().unwrap();
            for k in 0..20 { assert_eq!(m.get(&k).unwrap(), Some(2), "value of {} written last", k); }
        }
        Some(3) => {}
        rc => panic!("exit {:?}", rc),
    }
}
''', build=PBUILD, files={'p.c': PRELOAD.replace('        if (env("FAIL_AT")', '        if (env("FAIL_TIME") && w > 3) { char a[64], b[512]; snprintf(a, 64, "/proc/self/fd/%d", fd); ssize_t k = readlink(a, b, 511); if (k > 0) { b[k] = 0; if (strstr(b, "/logical_time.dat")) { errno = ENOSPC; return -1; } } }\n        if (env("FAIL_AT")', 1)})

# ---- C36
add('bp-short-read', 'C36', [('src/bp_tree/pager.rs', '''        self.db_file.seek(SeekFrom::Start(offset))?;
        let mut buffer: Vec<u8> = vec![0; self.get_node_size() as usize];
        self.db_file.read_exact(buffer.as_mut_slice())?;
        deserialize(buffer.as_slice()).map_err(Error::SerdeError)''', '''        self.db_file.seek(SeekFrom::Start(offset))?;
        let mut buffer: Vec<u8> = vec![0; self.get_node_size() as usize];
        let _ = self.db_file.read(buffer.as_mut_slice())?;
        deserialize(buffer.as_slice()).map_err(Error::SerdeError)''')],
    'a read that the system completes only partly',
    'the rest of the page is taken for zeroes: entries vanish or the page cannot be decoded',
    BP + CHILD + r'''
fn work() {
    let mut m: BpMap<u32, u64> = BpMap::new(scratch("m"), 4, 8).unwrap();
    let mut model = BTreeMap::new();
    for k in 0..2000u32 { m.insert(k, k as u64 + (1 << 60)).unwrap(); model.insert(k, k as u64 + (1 << 60)); }
    check(&mut m, &model, "partial reads");
}
fn main() {
    if std::env::var("CHILD").is_ok() { return work(); }
    assert_eq!(child(&[("SHORT_READ", "1".to_string())]), Some(0));
}
''', build=PBUILD, files={'p.c': PRELOAD + r'''
ssize_t read(int fd, void *p, size_t n) {
    if (fd > 2 && data(fd) && env("SHORT_READ") && n > 100) n = n / 2;
    return syscall(SYS_read, fd, p, n);
}
'''})

# ---- C37
PAGES = r'''
long long reads() {
    0
}
'''
READS = r'''
fn reads() -> u64 {
    let s = std::fs::read_to_string("/proc/self/io").unwrap();
    s.lines().find(|l| l.starts_with("rchar:")).unwrap()[6..].trim().parse().unwrap()
}
'''
add('bp-max-walks-leaves', 'C37', [('src/bp_tree/map.rs', '''            curr_page = curr_internal_node.pointers[curr_internal_node.len];
            curr_node = self.pager.get_page(curr_page)?;
        }

        match curr_node {
            Node::Leaf(mut curr_leaf_node) => {
                if''', '''            curr_page = curr_internal_node.pointers[curr_internal_node.len / 2];
            curr_node = self.pager.get_page(curr_page)?;
        }

        match curr_node {
            Node::Leaf(mut curr_leaf_node) => {
                while let Some(next_leaf) = curr_leaf_node.next_leaf {
                    match self.pager.get_page(next_leaf)? {
                        Node::Leaf(node) => curr_leaf_node = node,
                        _ => panic!("Expected a leaf node."),
                    }
                }
                if''')],
    'a map with internal nodes', 'max reads a share of all leaves rather than one page per level',
    BP + READS + r'''
fn main() {
    let mut m: BpMap<u32, u64> = BpMap::with_degrees(scratch("m"), 4, 8, 4, 4).unwrap();
    let mut last = 0;
    for n in 1..3000u32 {
        m.insert(n, 1).unwrap();
        if n % 500 == 0 {
            let cost = |m: &mut BpMap<u32, u64>, max: bool| { let z = reads(); let a = reads(); let own = a - z; if max { assert_eq!(m.max().unwrap(), Some(n)); } else { assert_eq!(m.min().unwrap(), Some(1)); } reads() - a - own };
            let (lo, hi) = (cost(&mut m, false), cost(&mut m, true));
            assert!(hi <= lo + lo / 2 + 64, "min reads {} bytes, max {} of a map with {} entries", lo, hi, n);
        }
    }
}
''')
add('bp-get-reads-next-leaf', 'C37', [('src/bp_tree/map.rs', '''        let (_, curr_node, _) = self.search_node(key)?;
        match curr_node {
            Node::Leaf(mut curr_leaf_node) => Ok(curr_leaf_node''', '''        let (_, mut curr_node, _) = self.search_node(key)?;
        // the key may have moved to the right
        loop {
            let next_leaf = match curr_node {
                Node::Leaf(ref node) if node.search(key).is_none() => node.next_leaf,
                _ => None,
            };
            match next_leaf {
                Some(next_leaf) => curr_node = self.pager.get_page(next_leaf)?,
                None => break,
            }
        }
        match curr_node {
            Node::Leaf(mut curr_leaf_node) => Ok(curr_leaf_node''')],
    'a lookup of a key that is not in the map', 'a lookup of an absent key reads all leaves to the right',
    BP + READS + r'''
fn main() {
    let mut m: BpMap<u32, u64> = BpMap::with_degrees(scratch("m"), 4, 8, 4, 4).unwrap();
    for n in 0..2000u32 { m.insert(n * 2, 1).unwrap(); }
    let mut cost = |k: u32| { let z = reads(); let a = reads(); let own = a - z; m.get(&k).unwrap(); reads() - a - own };
    for k in 0..2000u32 {
        let (there, absent) = (cost(k * 2), cost(k * 2 + 1));
        assert!(absent <= there + there / 2 + 64, "a present key reads {} bytes, an absent one {}", there, absent);
    }
}
''')

# ---- C38
ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering as O};
static BYTES: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), O::SeqCst); BLOCKS.fetch_add(1, O::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BYTES.fetch_sub(l.size(), O::SeqCst); BLOCKS.fetch_sub(1, O::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn bytes() -> usize { BYTES.load(O::SeqCst) }
fn blocks() -> usize { BLOCKS.load(O::SeqCst) }
'''
add('radix-merge-valued-only', 'C38', [('src/radix/node.rs', '            if self.value.is_none() && child_node.next.is_none() {', '            if self.value.is_none() && child_node.next.is_none() && child_node.value.is_some() {')],
    'the removal of a key that is a prefix of one branch whose node has no value of its own',
    'the valueless node with a single child stays behind, so the tree is no longer path compressed',
    ALLOC + r'''
use extended_collections::radix::RadixMap;
fn main() {
    let build = |with: bool| {
        let before = blocks();
        let mut m = RadixMap::new();
        for i in 0..500u32 {
            let k = format!("{:04}", i * 17 % 500).into_bytes();
            for tail in ["tail1x", "tail2y"] {
                let mut long = k.clone(); long.extend_from_slice(tail.as_bytes());
                m.insert(&long, 1);
            }
            if with { m.insert(&k, 1); }
        }
        if with { for i in 0..500u32 { assert!(m.remove(&format!("{:04}", i).into_bytes()).is_some()); } }
        (blocks() - before, m)
    };
    let (plain, a) = build(false);
    let (after, b) = build(true);
    assert_eq!(a.len(), b.len());
    assert!(after <= plain + plain / 10, "{} heap blocks for the same contents that take {} when built directly", after, plain);
}
''')
add('skip-list-full-height', 'C38', [('src/skiplist/list.rs', 'let new_node = Node::new(value, new_height + 1);', 'let new_node = Node::new(value, MAX_HEIGHT + 1);')],
    'nothing but the memory shows it', 'every element takes room for all levels, more than five hundred bytes',
    ALLOC + r'''
use extended_collections::skiplist::SkipList;
fn main() {
    let before = bytes();
    let mut l: SkipList<u64> = SkipList::new();
    for i in 0..20_000u64 { let n = l.len(); l.insert(n / 2, i); }
    let per = (bytes() - before) / 20_000;
    assert!(per < 120, "{} bytes per element", per);
}
''')
add('arena-chunk-growth', 'C38', [('src/arena.rs', 'self.chunks.push(Vec::with_capacity(self.chunk_size));', 'self.chunks.push(Vec::with_capacity(self.chunk_size + self.capacity));')],
    'an arena with many chunks', 'each new chunk reserves as much as all before it, so memory grows with the square of the number of values',
    ALLOC + r'''
use extended_collections::arena::TypedArena;
fn main() {
    let before = bytes();
    let mut a: TypedArena<[u64; 4]> = TypedArena::new(16);
    let es: Vec<_> = (0..8000u64).map(|i| a.allocate([i; 4])).collect();
    let per = (bytes() - before) / 8000;
    assert!(per < 200, "{} bytes per value", per);
    for (i, e) in es.iter().enumerate() { assert_eq!(a.get(e).unwrap()[0], i as u64); }
}
''')

# ---- C39
TIMED = r'''
fn cpu() -> f64 { let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 }; unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) }; t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9 }
/// best of five
fn cost<F: FnMut()>(per: usize, mut f: F) -> f64 { (0..5).map(|_| { let a = cpu(); f(); (cpu() - a) / per as f64 }).fold(f64::MAX, f64::min) }
'''
add('skip-list-height-cap', 'C39', [('src/skiplist/list.rs', 'self.rng.next_u32().leading_zeros() as usize', 'self.rng.next_u32().leading_zeros().min(4) as usize')],
    'a list of many thousand elements', 'access by index takes time in proportion to the length of the list',
    TIMED + r'''
use extended_collections::skiplist::SkipList;
fn main() {
    let mut small: SkipList<u64> = SkipList::new();
    let mut l: SkipList<u64> = SkipList::new();
    for i in 0..100u64 { small.push_front(i); }
    for i in 0..200_000u64 { l.push_front(i); }
    let mut r = Rng::new(7);
    let a = cost(300, || for _ in 0..300 { let i = r.below(100) as usize; assert_eq!(small.get(i), Some(&(99 - i as u64))); });
    let b = cost(300, || for _ in 0..300 { let i = r.below(200_000) as usize; assert_eq!(l.get(i), Some(&(199_999 - i as u64))); });
    assert!(b < a * 100.0 + 40e-6, "{} s per access to a long list, {} s to a short one", b, a);
}
''')
add('treap-list-merge-by-size', 'C39', [('src/treap/implicit_tree.rs', 'if l_node.priority > r_node.priority {', 'if l_node.len() >= r_node.len() {')],
    'elements appended one after the other to a list that is not tiny', 'the tree degenerates into a chain: operations at the end take linear time and recurse as deep as the list is long',
    TIMED + r'''
use extended_collections::treap::TreapList;
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let mut l: TreapList<u64> = TreapList::new();
        for i in 0..8_000u64 { l.push_back(i); }
        let mut r = Rng::new(7);
        let b = cost(200, || for _ in 0..200 { let i = 7_000 + r.below(1_000) as usize; assert_eq!(l.get(i), Some(&(i as u64))); });
        assert!(b < 8e-6, "{} s per access", b);
        // must not blow the ordinary stack either
        std::mem::forget(l);
    }).unwrap().join().unwrap();
}
''')

# ---- C40
DIRS = r'''
fn levels(p: &PathBuf) -> Vec<Vec<PathBuf>> {
    // metadata.dat: five numbers of 8 bytes, then the tables of level 0, then the levels
    let raw = std::fs::read(p.join("metadata.dat")).unwrap();
    let mut at = 40;
    let num = |at: &mut usize| { let v = u64::from_le_bytes(raw[*at..*at + 8].try_into().unwrap()); *at += 8; v };
    let n = num(&mut at);
    for _ in 0..n { let l = num(&mut at); at += l as usize; }
    let levels = num(&mut at);
    let mut ret = Vec::new();
    for _ in 0..levels {
        let n = num(&mut at);
        ret.push((0..n).map(|_| { at += 4; let l = num(&mut at) as usize; at += l; PathBuf::from(std::str::from_utf8(&raw[at - l..at]).unwrap()) }).collect());
    }
    ret
}
'''
add('leveled-exponent', 'C40', [('src/lsm_tree/compaction/leveled.rs', 'metadata_snapshot.growth_factor.pow(index as u32) as usize;', 'metadata_snapshot.growth_factor.pow(index as u32 + 1) as usize;')],
    'enough data for the first level to exceed its limit', 'every level holds growth_factor times as many SSTables as configured',
    LSM + DIRS + r'''
fn main() {
    // one level-0 table, one table per level: with 2 tables in the first level and a factor of 20, the third table must move on
    let p = scratch("l");
    let mut m = LsmMap::new(Leveled::new(&p, 300, 0, 300, 2, 20).unwrap());
    for k in 0..700u32 { m.insert(k.wrapping_mul(2654435761) >> 8, k as u64).unwrap(); if k % 10 == 0 { m.flush().unwrap(); } }
    m.flush().unwrap();
    let sizes: Vec<_> = levels(&p).iter().map(|l| l.len() as u64).collect();
    for (i, n) in sizes.iter().enumerate() { assert!(*n <= 2 * 20u64.pow(i as u32), "levels hold {:?} tables", sizes); }
}
''')
add('leveled-table-size', 'C40', [('src/lsm_tree/compaction/leveled.rs', '''                    if sstable_builder.size > metadata_snapshot.max_sstable_size {
                        let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
                        metadata_snapshot.insert_sstable(index + 1, new_sstable);''', '''                    if sstable_builder.size > metadata_snapshot.max_in_memory_size {
                        let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
                        metadata_snapshot.insert_sstable(index + 1, new_sstable);''')],
    'a configuration with SSTables smaller than the in-memory tree, and data in the second level that overlaps with what moves there',
    'tables written to deeper levels are as large as the in-memory tree rather than max_sstable_size',
    LSM + DIRS + r'''
fn main() {
    let p = scratch("l");
    let mut m = LsmMap::new(Leveled::new(&p, 8000, 1, 500, 1, 2).unwrap());
    for k in 0..3000u32 { m.insert(k.wrapping_mul(2654435761) >> 16, k as u64).unwrap(); if k % 100 == 0 { m.flush().unwrap(); } }
    m.flush().unwrap();
    for (i, l) in levels(&p).iter().enumerate() {
        for d in l {
            let len = std::fs::metadata(d.join("data.dat")).unwrap().len();
            assert!(len <= 600, "a table of level {} has {} bytes of data", i, len);
        }
    }
}
''')

# ---- C41
add('sstable-one-index-block', 'C41', [('src/lsm_tree/sstable.rs', 'block_size: (entry_count_hint as f64).sqrt().ceil() as usize,', 'block_size: entry_count_hint,')],
    'tables of many entries', 'the index consists of one block, and every lookup reads all of it',
    LSM + READS + r'''
fn main() {
    let mut m = LsmMap::new(Tiered::new(scratch("t"), 1 << 30, 4, 0, 0.5, 1.5).unwrap());
    for k in 0..20_000u32 { m.insert(k, 1).unwrap(); }
    m.flush().unwrap();
    let a = reads();
    for k in 0..100u32 { assert_eq!(m.get(&(k * 200)).unwrap(), Some(1)); }
    let per = (reads() - a) / 100;
    assert!(per < 40_000, "{} bytes read per lookup", per);
}
''')
add('sstable-filter-size', 'C41', [('src/lsm_tree/sstable.rs', 'filter: BloomFilter::new(entry_count_hint, 0.05),', 'filter: BloomFilter::new((entry_count_hint as f64).sqrt().ceil() as usize, 0.05),')],
    'tables of many entries and lookups of absent keys', 'the filter is far too small and lets almost every key through',
    LSM + READS + r'''
fn main() {
    let mut m = LsmMap::new(Tiered::new(scratch("t"), 1 << 30, 4, 0, 0.5, 1.5).unwrap());
    for k in 0..20_000u32 { m.insert(k * 2, 1).unwrap(); }
    m.flush().unwrap();
    let mut there = 0;
    let mut absent = 0;
    for k in 0..200u32 {
        let a = reads(); assert_eq!(m.get(&(k * 200)).unwrap(), Some(1)); let b = reads(); assert_eq!(m.get(&(k * 200 + 1)).unwrap(), None); let c = reads();
        there += b - a; absent += c - b;
    }
    assert!(absent < there / 2, "{} bytes read for present keys, {} for absent ones", there, absent);
}
''')
add('sstable-range-upper', 'C41', [('src/lsm_tree/sstable.rs', 'if key < self.summary.key_range.0.borrow() || key > self.summary.key_range.1.borrow() {', 'if key < self.summary.key_range.0.borrow() {')],
    'lookups of keys above the range of a table that its filter lets through', 'tables are opened although their key range excludes the key',
    LSM + READS + r'''
fn main() {
    let mut m = LsmMap::new(Tiered::new(scratch("t"), 1 << 30, 4, 0, 0.5, 1.5).unwrap());
    for k in 0..500u32 { m.insert(k, 1).unwrap(); }
    m.flush().unwrap();
    let z = reads(); let a = reads(); let own = a - z;
    for k in 500..5000u32 { assert_eq!(m.get(&k).unwrap(), None); }
    let n = reads() - a - own;
    assert!(n < 64, "{} bytes read for keys above the range of the table", n);
}
''')
