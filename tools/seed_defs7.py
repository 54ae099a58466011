SEEDS = []
def add(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))
LSM_SRC = open('/verif/tools/seed_defs2.py').read()
exec(LSM_SRC[LSM_SRC.index("BP = r'''"):LSM_SRC.index("add('bp-free-page-not-persisted'")])
exec(LSM_SRC[LSM_SRC.index("LSM = r'''"):LSM_SRC.index("LSM_HISTORY")])
PEAK = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = LIVE.fetch_add(l.size() as i64, SeqCst) + l.size() as i64; PEAK.fetch_max(n, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static GLOBAL: A = A;
fn live() -> i64 { LIVE.load(SeqCst) }
/// the most memory held beyond what is held now, while f runs
fn needs<T>(f: impl FnOnce() -> T) -> (T, i64) { let a = live(); PEAK.store(a, SeqCst); let r = f(); (r, PEAK.load(SeqCst) - a) }
'''
FDS = r'''
/// files of this process open under a path
fn open_files(p: &PathBuf) -> usize {
    let p = p.canonicalize().unwrap();
    std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| std::fs::read_link(e.unwrap().path()).ok()).filter(|l| l.starts_with(&p)).count()
}
'''
# ---- C47
add('tiered-compaction-in-memory', 'C47', [('src/lsm_tree/compaction/size_tiered.rs', '''        let compaction_iter = SizeTieredIter::new(None, old_sstable_data_iters)?;
        for entry in compaction_iter {
            let (key, value) = entry?;

''', '''        // any error shows before the first entry is written
        let entries = SizeTieredIter::new(None, old_sstable_data_iters)?.collect::<Result<Vec<_>>>()?;
        for (key, value) in entries {
''')],
    'a compaction of much data', 'every record of the compacted SSTables is in memory at once, whatever the memory budget is', LSM + PEAK + r'''
fn main() {
    let p = scratch("l");
    let mut m: LsmMap<u32, Vec<u8>, SizeTieredStrategy<u32, Vec<u8>>> = LsmMap::new(SizeTieredStrategy::new(&p, 100_000, 3, 0, 0.5, 1.5).unwrap());
    let (_, most) = needs(|| {
        for i in 0..6000u32 { m.insert(i, vec![i as u8; 1000]).unwrap(); if i % 200 == 199 { m.flush().unwrap(); } }
    });
    assert!(most < 1_500_000, "{} bytes of memory for a map of 6 MB with a budget of 100 KB", most);
    for i in 0..6000u32 { assert_eq!(m.get(&i).unwrap(), Some(vec![i as u8; 1000])); }
}
''')
add('sstable-scan-in-memory', 'C47', [('src/lsm_tree/sstable.rs', 'use std::io::{BufWriter, ErrorKind, Read, Seek, SeekFrom, Write};', 'use std::io::{BufWriter, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};'),
    ('src/lsm_tree/sstable.rs', '    data_file: Option<fs::File>,\n    _marker: PhantomData<(T, U)>,', '    data_file: Option<Cursor<Vec<u8>>>,\n    _marker: PhantomData<(T, U)>,'),
    ('src/lsm_tree/sstable.rs', '''            match fs::File::open(self.data_path.as_path()) {
                Ok(data_file) => self.data_file = Some(data_file),''', '''            match fs::read(self.data_path.as_path()) {
                Ok(data) => self.data_file = Some(Cursor::new(data)),''')],
    'an iteration, len, min, max or compaction over much data', 'every SSTable is read into memory as a whole', LSM + PEAK + r'''
fn main() {
    let p = scratch("l");
    let mut m: LsmMap<u32, Vec<u8>, LeveledStrategy<u32, Vec<u8>>> = LsmMap::new(LeveledStrategy::new(&p, 100_000, 4, 1 << 40, 4, 10).unwrap());
    for i in 0..6000u32 { m.insert(i, vec![i as u8; 1000]).unwrap(); }
    m.flush().unwrap();
    let (n, most) = needs(|| m.iter().unwrap().map(|e| e.unwrap()).count());
    assert_eq!(n, 6000);
    assert!(most < 1_500_000, "{} bytes of memory to iterate over a map of 6 MB", most);
}
''')
add('bp-pages-cached', 'C47', [('src/bp_tree/pager.rs', '''    db_file: File,
    metadata: Metadata,
    _marker: PhantomData<(T, U)>,
}

impl''', '''    db_file: File,
    metadata: Metadata,
    // pages as last read or written
    pages: HashMap<usize, Vec<u8>>,
    _marker: PhantomData<(T, U)>,
}

impl'''),
    ('src/bp_tree/pager.rs', 'use std::borrow::Borrow;\n', 'use std::borrow::Borrow;\nuse std::collections::HashMap;\n'),
    ('src/bp_tree/pager.rs', '''            db_file,
            metadata,
            _marker: PhantomData,
        };''', '''            db_file,
            metadata,
            pages: HashMap::new(),
            _marker: PhantomData,
        };'''),
    ('src/bp_tree/pager.rs', '''            db_file,
            metadata,
            _marker: PhantomData,
        })''', '''            db_file,
            metadata,
            pages: HashMap::new(),
            _marker: PhantomData,
        })'''),
    ('src/bp_tree/pager.rs', '''        let offset = self.calculate_page_offset(index);
        self.db_file.seek(SeekFrom::Start(offset))?;
        let mut buffer: Vec<u8> = vec![0; self.get_node_size() as usize];
        self.db_file.read_exact(buffer.as_mut_slice())?;
        deserialize(buffer.as_slice()).map_err(Error::SerdeError)''', '''        if let Some(page) = self.pages.get(&index) {
            return deserialize(page.as_slice()).map_err(Error::SerdeError);
        }
        let offset = self.calculate_page_offset(index);
        self.db_file.seek(SeekFrom::Start(offset))?;
        let mut buffer: Vec<u8> = vec![0; self.get_node_size() as usize];
        self.db_file.read_exact(buffer.as_mut_slice())?;
        let node = deserialize(buffer.as_slice()).map_err(Error::SerdeError);
        self.pages.insert(index, buffer);
        node'''),
    ('src/bp_tree/pager.rs', '''        let offset = self.calculate_page_offset(index);
        self.db_file.seek(SeekFrom::Start(offset))?;
        let serialized_node = &serialize(&node)?;''', '''        self.pages.remove(&index);
        let offset = self.calculate_page_offset(index);
        self.db_file.seek(SeekFrom::Start(offset))?;
        let serialized_node = &serialize(&node)?;'''),
    ('src/bp_tree/pager.rs', '''                let offset = self.calculate_page_offset(free_page);
''', '''                self.pages.remove(&free_page);
                let offset = self.calculate_page_offset(free_page);
'''),
    ('src/bp_tree/pager.rs', '''        let offset = self.calculate_page_offset(index);

        self.db_file''', '''        self.pages.remove(&index);
        let offset = self.calculate_page_offset(index);

        self.db_file'''),
    ('src/bp_tree/pager.rs', '''        let header_size = Self::get_metadata_size();
        let body_size = self.get_node_size();
''', '''        self.pages.clear();
        let header_size = Self::get_metadata_size();
        let body_size = self.get_node_size();
''')],
    'a map of many pages', 'a BpMap keeps every page it ever read in memory', BP + PEAK + r'''
fn main() {
    let p = scratch("b");
    let mut m: BpMap<u32, u64> = BpMap::new(&p, 4, 8).unwrap();
    let a = live();
    for i in 0..40_000u32 { m.insert(i, 1).unwrap(); }
    let (n, most) = needs(|| m.iter_mut().unwrap().map(|e| e.unwrap()).count());
    assert_eq!(n, 40_000);
    assert!(most < 100_000, "{} bytes of memory to iterate over a map in a file of {} bytes", most, std::fs::metadata(&p).unwrap().len());
    assert!(live() - a < 100_000, "a map in a file of {} bytes holds {} bytes of memory", std::fs::metadata(&p).unwrap().len(), live() - a);
}
''')
# ---- C48
add('sstable-keeps-index-file', 'C48', [('src/lsm_tree/sstable.rs', '''    pub filter: BloomFilter<T>,
    _marker: PhantomData<U>,''', '''    pub filter: BloomFilter<T>,
    // opened by the first lookup
    index_file: Mutex<Option<fs::File>>,
    _marker: PhantomData<U>,'''),
    ('src/lsm_tree/sstable.rs', '''            summary,
            filter,
            _marker''', '''            summary,
            filter,
            index_file: Mutex::new(None),
            _marker'''),
    ('src/lsm_tree/sstable.rs', 'use std::result;\n', 'use std::result;\nuse std::sync::Mutex;\n'),
    ('src/lsm_tree/sstable.rs', '''        let mut index_file = fs::File::open(self.path.join("index.dat"))?;
''', '''        let mut guard = self.index_file.lock().unwrap();
        if guard.is_none() {
            *guard = Some(fs::File::open(self.path.join("index.dat"))?);
        }
        let index_file = guard.as_mut().expect("Expected opened file.");
''')],
    'lookups in many SSTables', 'every SSTable a lookup has read keeps a file open, so that a map with many SSTables runs out of descriptors', LSM + FDS + r'''
fn main() {
    let p = scratch("l");
    let mut m = LsmMap::new(Tiered::new(&p, 0, 1000, 0, 0.5, 1.5).unwrap());
    for k in 0..200 { m.insert(k, 1).unwrap(); }
    m.flush().unwrap();
    for k in 0..200 { assert_eq!(m.get(&k).unwrap(), Some(1)); }
    let n = open_files(&p);
    assert!(n <= 4, "{} files are open after lookups", n);
}
''')
add('tiered-compactions-overlap', 'C48', [('src/lsm_tree/compaction/size_tiered.rs', '''        self.is_compacting.store(true, Ordering::Release);
        self.compaction_thread_join_handle = Some(thread::spawn(move || {
''', '''        self.compaction_thread_join_handle = Some(thread::spawn(move || {
            is_compacting.store(true, Ordering::Release);
''')],
    'SSTables written in quick succession', 'until the new thread runs, a second compaction may start beside the first one from the same SSTables', LSM + r'''
/// threads start a little late, as they may on a busy machine
struct Start(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void);
extern "C" fn late(p: *mut libc::c_void) -> *mut libc::c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    unsafe { libc::usleep(5000) };
    (s.0)(s.1)
}
type Create = extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> libc::c_int;
#[no_mangle]
pub extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> libc::c_int {
    let real: Create = unsafe { std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _)) };
    real(t, a, late, Box::into_raw(Box::new(Start(f, arg))) as *mut _)
}
fn main() {
    let threads = || std::fs::read_dir("/proc/self/task").unwrap().count();
    let base = threads();
    let mut most = 0;
    for r in 0..40 {
        let p = scratch(&format!("l{}", r));
        let mut m = LsmMap::new(Tiered::new(&p, 0, 1, 1 << 40, 0.5, 1.5).unwrap());
        for i in 0..40 { let _ = m.insert(i, 1); most = most.max(threads()); }
        let _ = m.flush();
        while threads() > base { std::thread::yield_now(); }
    }
    // a thread that has ended may still be listed for a moment while the next one starts
    assert!(most <= base + 2, "{} compaction threads at once", most - base);
}
''')
# ---- C49
SLOW = r'''
/// removing or writing of files by another thread than the first takes long, as on a slow disk; how many such calls are under way
static SLOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn on_main() -> bool { unsafe { libc::syscall(libc::SYS_gettid) as i32 == libc::getpid() } }
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const libc::c_char, mode: libc::mode_t) -> libc::c_int {
    if !on_main() && SLOW.load(std::sync::atomic::Ordering::SeqCst) { std::thread::sleep(std::time::Duration::from_secs(4)); }
    libc::syscall(libc::SYS_mkdir, p, mode as libc::c_uint) as libc::c_int
}
'''
add('tiered-writes-wait', 'C49', [('src/lsm_tree/compaction/size_tiered.rs', '''        if self.is_compacting.load(Ordering::Acquire) || self.metadata_lock_count.get() != 0 {
            return Ok(());
        }
''', '''        if self.metadata_lock_count.get() != 0 {
            return Ok(());
        }

        // writes must not run ahead of the compaction
        if self.is_compacting.load(Ordering::Acquire) {
            let behind = {
                let curr_metadata = self.curr_metadata.lock().unwrap();
                curr_metadata.sstables.len() > 8 * curr_metadata.max_sstable_count
            };
            if !behind {
                return Ok(());
            }
            self.flush()?;
        }
''')],
    'many SSTables are written while one compaction runs', 'an insertion waits until the compaction has ended, however long that takes', LSM + SLOW + r'''
fn main() {
    let p = scratch("l");
    let mut m = LsmMap::new(Tiered::new(&p, 0, 2, 1 << 40, 0.5, 1.5).unwrap());
    SLOW.store(true, std::sync::atomic::Ordering::SeqCst);
    let mut worst = std::time::Duration::from_secs(0);
    for k in 0..60 { let t = std::time::Instant::now(); m.insert(k, 1).unwrap(); worst = worst.max(t.elapsed()); }
    SLOW.store(false, std::sync::atomic::Ordering::SeqCst);
    m.flush().unwrap();
    assert!(worst < std::time::Duration::from_secs(2), "an insertion took {:?} while a compaction was under way", worst);
}
''')
add('leveled-result-locked', 'C49', [('src/lsm_tree/compaction/leveled.rs', '''        println!("Started compacting.");
''', '''        let mut next_metadata = next_metadata.lock().unwrap();
        println!("Started compacting.");
'''), ('src/lsm_tree/compaction/leveled.rs', '''        *next_metadata.lock().unwrap() = Some(metadata_snapshot);
''', '''        *next_metadata = Some(metadata_snapshot);
        drop(next_metadata);
''')],
    'a lookup on the disk while a compaction is under way', 'lookups wait until the compaction has ended', LSM + SLOW + r'''
fn main() {
    let p = scratch("l");
    let mut m = LsmMap::new(Leveled::new(&p, 0, 2, 1 << 20, 4, 10).unwrap());
    SLOW.store(true, std::sync::atomic::Ordering::SeqCst);
    let mut worst = std::time::Duration::from_secs(0);
    for k in 0..20 { let t = std::time::Instant::now(); m.insert(k, 1).unwrap(); assert_eq!(m.get(&k).unwrap(), Some(1)); worst = worst.max(t.elapsed()); }
    SLOW.store(false, std::sync::atomic::Ordering::SeqCst);
    m.flush().unwrap();
    assert!(worst < std::time::Duration::from_secs(2), "a lookup took {:?} while a compaction was under way", worst);
}
''')
# ---- C50
PICKY = r'''
use serde::ser::{Error, Serialize, Serializer};
use serde::de::{Deserialize, Deserializer};
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Picky(u32, bool);
impl Serialize for Picky { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if self.1 { Err(S::Error::custom("picky")) } else { self.0.serialize(s) } } }
impl<'de> Deserialize<'de> for Picky { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Picky(Deserialize::deserialize(d)?, false)) } }
'''
add('lsm-entry-before-size', 'C50', [('src/lsm_tree/map.rs', '''        let key_size = serialized_size(&key)?;
        let value_size = serialized_size(&value)?;

        if let Some(ref value) = self.in_memory_tree.get(&key) {
            let value_size = serialized_size(value)?;
            self.in_memory_usage -= key_size + value_size;
        }

        self.in_memory_usage += key_size + value_size;
        self.in_memory_tree.insert(key, value);
''', '''        let key_size = serialized_size(&key)?;
        if let Some(ref value) = self.in_memory_tree.get(&key) {
            let value_size = serialized_size(value)?;
            self.in_memory_usage -= key_size + value_size;
        }

        let value_size = serialized_size(&value)?;
        self.in_memory_usage += key_size + value_size;
        self.in_memory_tree.insert(key, value);
''')],
    'a value that cannot be serialized for a key held in memory', 'the account of the memory budget loses the bytes of the old value, and underflows when it happens again', LSM + PICKY + r'''
fn main() {
    let p = scratch("l");
    let mut m: LsmMap<u32, Picky, SizeTieredStrategy<u32, Picky>> = LsmMap::new(SizeTieredStrategy::new(&p, 1000, 4, 0, 0.5, 1.5).unwrap());
    m.insert(1, Picky(5, false)).unwrap();
    for _ in 0..4 { assert!(m.insert(1, Picky(6, true)).is_err()); }
    assert_eq!(m.get(&1).unwrap(), Some(Picky(5, false)));
    for k in 0..3 { m.insert(k, Picky(7, false)).unwrap(); }
    assert!(std::fs::read_dir(&p).unwrap().all(|e| !e.unwrap().path().is_dir()), "an SSTable was written for three small entries");
}
''')
add('lsm-entry-kept-unserializable', 'C50', [('src/lsm_tree/map.rs', '''        let key_size = serialized_size(&key)?;
        let value_size = serialized_size(&value)?;

        if let Some(ref value) = self.in_memory_tree.get(&key) {
            let value_size = serialized_size(value)?;
            self.in_memory_usage -= key_size + value_size;
        }

        self.in_memory_usage += key_size + value_size;
        self.in_memory_tree.insert(key, value);
''', '''        let key_size = serialized_size(&key)?;

        if let Some(old_value) = self.in_memory_tree.insert(key.clone(), value) {
            self.in_memory_usage -= key_size + serialized_size(&old_value)?;
        }

        self.in_memory_usage += key_size + serialized_size(&self.in_memory_tree[&key])?;
''')],
    'a value that cannot be serialized', 'the value replaces the one that was there although insert returned an error, and no flush succeeds from then on', LSM + PICKY + r'''
fn main() {
    let p = scratch("l");
    let mut m: LsmMap<u32, Picky, LeveledStrategy<u32, Picky>> = LsmMap::new(LeveledStrategy::new(&p, 1000, 4, 1 << 20, 4, 10).unwrap());
    m.insert(1, Picky(5, false)).unwrap();
    assert!(m.insert(2, Picky(6, true)).is_err());
    m.insert(3, Picky(7, false)).unwrap();
    m.flush().expect("flush after a refused insertion");
    assert_eq!(m.get(&2).unwrap(), None);
}
''')
add('bp-size-unknown-accepted', 'C50', [('src/bp_tree/pager.rs', 'assert!(serialized_size(value)? <= self.metadata.value_size);', 'assert!(serialized_size(value).unwrap_or(0) <= self.metadata.value_size);')],
    'a value that cannot be serialized inserted into a full leaf', 'the new half of the leaf is written before the error shows, so that a page is lost or entries are stored twice', BP + PICKY + r'''
fn main() {
    let p = scratch("b");
    let mut m: BpMap<u32, Picky> = BpMap::with_degrees(&p, 4, 4, 3, 3).unwrap();
    for k in (0..160).step_by(4).chain((1..160).step_by(8)).chain((2..160).step_by(12)) { m.insert(k, Picky(k, false)).unwrap(); }
    let before = std::fs::read(&p).unwrap();
    for k in 0..160 { assert!(m.insert(k, Picky(k, true)).is_err()); }
    assert!(std::fs::read(&p).unwrap() == before, "refused insertions changed the file");
}
''')
