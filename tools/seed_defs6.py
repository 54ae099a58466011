SEEDS = []
def add(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))
import os as _os
_D = _os.path.dirname(_os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
LSM_SRC = open('/verif/tools/seed_defs2.py').read()
exec(LSM_SRC[LSM_SRC.index("BP = r'''"):LSM_SRC.index("add('bp-free-page-not-persisted'")])
exec(LSM_SRC[LSM_SRC.index("LSM = r'''"):LSM_SRC.index("LSM_HISTORY")])
D5 = open('/verif/tools/seed_defs5.py').read()
exec(D5[D5.index("READS = r'''"):D5.index("add('bp-max-walks-leaves'")])
exec(D5[D5.index("DIRS = r'''"):D5.index("add('leveled-exponent'")])
TABLES = r'''
fn tables(p: &PathBuf) -> BTreeSet<PathBuf> { std::fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).filter(|p| p.is_dir()).collect() }
'''

# ---- C10
add('treap-symmetric-difference-priority', 'C10', [('src/treap/tree.rs', '''            {
                if left_node.priority < right_node.priority {
                    mem::swap(&mut left_node, &mut right_node);
                    swapped = !swapped;
                }
                let Node {
                    left: ref mut left_subtree,
                    right: ref mut right_subtree,
                    ref mut entry,
                    ..
                } = &mut *left_node;
                let mut right_left_subtree = Some(right_node);
                let (dup_opt, right_right_subtree) = split(&mut right_left_subtree, &entry.key);
                *left_subtree =
''', '''            {
                if !symmetric && left_node.priority < right_node.priority {
                    mem::swap(&mut left_node, &mut right_node);
                    swapped = !swapped;
                }
                let Node {
                    left: ref mut left_subtree,
                    right: ref mut right_subtree,
                    ref mut entry,
                    ..
                } = &mut *left_node;
                let mut right_left_subtree = Some(right_node);
                let (dup_opt, right_right_subtree) = split(&mut right_left_subtree, &entry.key);
                *left_subtree =
''')],
    'many symmetric differences, in key order, with small maps', 'a symmetric difference keeps the root of the left map whatever the priorities are, so its result is no treap and becomes deep',
r'''
use extended_collections::treap::TreapMap;
fn main() {
    let n = 3000i64;
    let mut m = TreapMap::new();
    for i in 0..n { let mut s = TreapMap::new(); s.insert(Key(i, 0), i); m = TreapMap::symmetric_difference(m, s); }
    let mut worst = 0;
    for i in 0..n { let a = cmps(); assert_eq!(m.get(&Key(i, 0)), Some(&i)); worst = worst.max(cmps() - a); }
    assert!((worst as f64) < 12.0 * (n as f64).ln(), "a lookup takes {} comparisons", worst);
}
''')

# ---- C34
add('sstable-iter-error-is-end', 'C34', [('src/lsm_tree/sstable.rs', '''        let result = data_file.read_exact(buffer.as_mut_slice());
        if let Err(error) = result {
            return Some(Err(Error::from(error)));
        }

        Some(deserialize(&buffer).map_err(Error::SerdeError))
    }
}

impl<T, U> Serialize for SSTable''', '''        if data_file.read_exact(buffer.as_mut_slice()).is_err() {
            // nothing complete is left
            return None;
        }

        Some(deserialize(&buffer).map_err(Error::SerdeError))
    }
}

impl<T, U> Serialize for SSTable''')],
    'a read of a record fails while an SSTable is scanned, by an iterator or by a compaction', 'the scan ends without an error as if the SSTable ended there; a compaction then drops the rest of its entries for good',
    LSM + TABLES + r'''
fn main() {
    let p = scratch("d");
    let mut m = LsmMap::new(Leveled::new(&p, 1 << 20, 100, 1 << 20, 4, 4).unwrap());
    for k in 0..30u32 { m.insert(k, 1).unwrap(); }
    m.flush().unwrap();
    // the last record cannot be read completely
    let t = tables(&p).into_iter().next().unwrap();
    let f = std::fs::OpenOptions::new().write(true).open(t.join("data.dat")).unwrap();
    f.set_len(f.metadata().unwrap().len() - 3).unwrap();
    let mut n = 0;
    for e in m.iter().unwrap() {
        match e { Ok(_) => n += 1, Err(_) => return }
    }
    panic!("iteration ended after {} of 30 entries without an error", n);
}
''')

# ---- C42
BUDGET = LSM + TABLES + r'''
fn main() {
    // three keys at a time never fill 10 kB
    let p = scratch("d");
    let mut m = LsmMap::new(Leveled::new(&p, 10_000, 100, 1 << 20, 4, 4).unwrap());
    for i in 0..8000u32 {
        m.insert(i % 3, i as u64).unwrap();
        if i % 2 == 0 { m.remove(i % 3).unwrap(); }
    }
    assert!(tables(&p).is_empty(), "{} SSTables were written for three keys", tables(&p).len());
    for k in 3..2000u32 { m.insert(k, 0).unwrap(); }
    assert!(tables(&p).len() >= 3, "{} SSTables were written for 2000 keys", tables(&p).len());
}
'''
add('lsm-budget-remove-shadow', 'C42', [('src/lsm_tree/map.rs', '''            logical_time: self.compaction_strategy.get_and_increment_logical_time()?,
        };

        if let Some(ref value) = self.in_memory_tree.get(&key) {
            let value_size = serialized_size(value)?;
            self''', '''            logical_time: self.compaction_strategy.get_and_increment_logical_time()?,
        };

        if self.in_memory_tree.contains_key(&key) {
            let value_size = serialized_size(&value)?;
            self''')],
    'removals of keys that are in memory', 'a removal of a key in memory subtracts the size of the removal instead of that of the removed value: the account grows although memory does not, and small SSTables are written', BUDGET)
add('lsm-budget-overwritten-removal', 'C42', [('src/lsm_tree/map.rs', '''        let value_size = serialized_size(&value)?;

        if let Some(ref value) = self.in_memory_tree.get(&key) {
            let value_size''', '''        let value_size = serialized_size(&value)?;

        if let Some(ref value) = self.in_memory_tree.get(&key).filter(|value| value.data.is_some()) {
            let value_size''')],
    'insertions of keys whose removal is in memory', 'the size of the overwritten removal stays in the account for good: SSTables are written early', BUDGET)

# ---- C43
BUCKETS = LSM + TABLES + r'''
fn main() {
    let p = scratch("d");
    let mut m = LsmMap::new(Tiered::new(&p, 1 << 20, 4, MIN, 0.5, 1.5).unwrap());
    for (t, n) in [10u32, 10, 10, 1000, 1000].iter().enumerate() {
        for k in 0..*n { m.insert(k * 5 + t as u32, k as u64).unwrap(); }
        m.flush().unwrap();
    }
    // neither the three small ones nor the two large ones are more than four
    assert_eq!(tables(&p).len(), 5, "SSTables of two sizes, none of which is frequent enough to be merged");
}
'''
add('tiered-count-from-first', 'C43', [('src/lsm_tree/compaction/size_tiered.rs', '''        if curr - start > self.max_sstable_count {
            Some((start, curr))''', '''        if curr > self.max_sstable_count {
            Some((start, curr))''')],
    'more than max_sstable_count tables in all, the largest of which are fewer', 'the tables of the last bucket are merged although they are few, over and over', BUCKETS.replace('MIN', '0'))
add('tiered-min-bucket-open', 'C43', [('src/lsm_tree/compaction/size_tiered.rs', 'let in_min_bucket = curr_size <= self.min_sstable_size;', 'let in_min_bucket = start_size <= self.min_sstable_size;')],
    'tables smaller than min_sstable_size next to larger ones', 'the bucket of the small tables takes in all larger ones', BUCKETS.replace('MIN', '3000'))

# ---- C44
add('bp-open-rewrites-header', 'C44', [('src/bp_tree/pager.rs', '''        let metadata = deserialize(buffer.as_slice())?;

        Ok(Pager {
            db_file,
            metadata,
            _marker: PhantomData,
        })''', '''        let metadata = deserialize(buffer.as_slice())?;

        let mut pager = Pager {
            db_file,
            metadata,
            _marker: PhantomData,
        };
        // makes sure that the file can be written
        pager.write_metadata()?;
        Ok(pager)''')],
    'a map that is opened only to be read', 'opening a map writes to its file', BP + r'''
fn main() {
    let p = scratch("b");
    { let mut m: BpMap<u32, u64> = BpMap::new(&p, 4, 8).unwrap(); for k in 0..100 { m.insert(k, 1).unwrap(); } }
    let before = std::fs::metadata(&p).unwrap().modified().unwrap();
    std::thread::sleep(std::time::Duration::from_millis(60));
    { let mut m: BpMap<u32, u64> = BpMap::open(&p).unwrap(); assert_eq!(m.get(&5).unwrap(), Some(1)); }
    assert_eq!(before, std::fs::metadata(&p).unwrap().modified().unwrap(), "the file was written to");
}
''')
add('bp-iter-peeks-next-leaf', 'C44', [('src/bp_tree/map.rs', '''                    self.curr_node = {
                        match self.pager.get_page(next_page) {''', '''                    // checked before the current leaf is given up
                    let checked = self.pager.get_page(next_page);
                    self.curr_node = {
                        match checked.and_then(|_| self.pager.get_page(next_page)) {''')],
    'iteration over more than one leaf', 'every leaf after the first is read twice', BP + READS + r'''
fn main() {
    let p = scratch("b");
    let mut m: BpMap<u32, u64> = BpMap::new(&p, 4, 8).unwrap();
    for k in 0..20_000 { m.insert(k, 1).unwrap(); }
    let len = std::fs::metadata(&p).unwrap().len();
    let a = reads();
    assert_eq!(m.iter_mut().unwrap().count(), 20_000);
    assert!(reads() - a < len * 5 / 4, "iteration reads {} bytes of a file of {}", reads() - a, len);
}
''')

# ---- C45
add('leveled-one-sided-overlap', 'C45', [('src/lsm_tree/compaction/leveled.rs', '''                        sstable::is_intersecting(
                            &sstable.summary.key_range,
                            &level_entry.1.summary.key_range,
                        )''', '''                        // tables are ordered: those beyond the one that moves are not affected
                        level_entry.1.summary.key_range.0 <= sstable.summary.key_range.1''')],
    'a level with tables below the range of a table that moves into it', 'every table of the next level up to the range of the moved one is rewritten',
    LSM + DIRS + r'''
fn main() {
    let p = scratch("l");
    let mut m = LsmMap::new(Leveled::new(&p, 1 << 20, 0, 100, 1, 10).unwrap());
    let mut worst = 0;
    for k in 0..120u32 {
        let all = |l: Vec<Vec<PathBuf>>| -> BTreeSet<PathBuf> { l.into_iter().flatten().collect() };
        let before = all(levels(&p));
        for j in 0..4 { m.insert(k * 4 + j, 1).unwrap(); }
        m.flush().unwrap();
        let after = all(levels(&p));
        worst = worst.max(before.difference(&after).count());
    }
    assert!(worst <= 8, "keys in ascending order: one of the compactions replaced {} tables", worst);
}
''')
add('leveled-moves-at-limit', 'C45', [('src/lsm_tree/compaction/leveled.rs', 'curr_len > max_len as usize', 'curr_len >= max_len as usize')],
    'a level that reaches its limit exactly', 'a level that is full, not overfull, gives tables away: the first level never holds as many as it may',
    LSM + DIRS + r'''
fn main() {
    let p = scratch("l");
    let mut m = LsmMap::new(Leveled::new(&p, 1 << 20, 0, 100, 3, 10).unwrap());
    for k in 0..40u32 {
        for j in 0..4 { m.insert(k * 4 + j, 1).unwrap(); }
        m.flush().unwrap();
        let l = levels(&p);
        if l.len() > 1 && !l[1].is_empty() { assert_eq!(l[0].len(), 3, "tables of the first level while the second one has {}", l[1].len()); }
    }
}
''')

# ---- C46
add('tiered-new-joins-directory', 'C46', [('src/lsm_tree/compaction/size_tiered.rs', 'fs::create_dir(path.as_ref())?;', 'fs::create_dir_all(path.as_ref())?;')],
    'a map created in the directory of another one', 'the other map is overwritten: its SSTables are no longer listed', LSM + r'''
fn main() {
    let p = scratch("l");
    { let mut m = LsmMap::new(Tiered::new(&p, 1 << 20, 4, 0, 0.5, 1.5).unwrap()); for k in 0..20 { m.insert(k, 1).unwrap(); } m.flush().unwrap(); }
    let _ = Tiered::new(&p, 1 << 20, 4, 0, 0.5, 1.5);
    let mut m: LsmMap<u32, u64, Tiered> = LsmMap::new(Tiered::open(&p).unwrap());
    for k in 0..20 { assert_eq!(m.get(&k).unwrap(), Some(1), "get({}) after another map could not be created in its place", k); }
}
''')
add('bp-new-keeps-first-page', 'C46', [('src/bp_tree/pager.rs', '''        db_file.set_len(header_size + body_size)?;

        db_file.seek(SeekFrom::Start(0))?;
        let serialized_metadata = &serialize(&metadata)?;
        db_file.write_all(serialized_metadata)?;

        db_file.seek(SeekFrom::Start(header_size))?;
        let serialized_node = &serialize(&Node::Leaf(LeafNode::<T, U>::new(leaf_degree)))?;
        db_file.write_all(serialized_node)?;
''', '''        let blank = db_file.metadata()?.len() < header_size + body_size;
        db_file.set_len(header_size + body_size)?;

        db_file.seek(SeekFrom::Start(0))?;
        let serialized_metadata = &serialize(&metadata)?;
        db_file.write_all(serialized_metadata)?;

        if blank {
            db_file.seek(SeekFrom::Start(header_size))?;
            let serialized_node = &serialize(&Node::Leaf(LeafNode::<T, U>::new(leaf_degree)))?;
            db_file.write_all(serialized_node)?;
        }
''')],
    'a map created where a file is already', 'entries of the file that was there before are in the new map', BP + r'''
fn main() {
    let p = scratch("b");
    { let mut m: BpMap<u32, u64> = BpMap::new(&p, 4, 8).unwrap(); for k in 0..5 { m.insert(k, 1).unwrap(); } }
    let mut m: BpMap<u32, u64> = BpMap::new(&p, 4, 8).unwrap();
    check(&mut m, &BTreeMap::new(), "new map");
    for k in 0..5 { assert_eq!(m.get(&k).unwrap(), None, "get({}) of a new map", k); }
}
''')
add('bp-new-keeps-length', 'C46', [('src/bp_tree/pager.rs', '''        db_file.set_len(header_size + body_size)?;

        db_file.seek''', '''        if db_file.metadata()?.len() < header_size + body_size {
            db_file.set_len(header_size + body_size)?;
        }

        db_file.seek''')],
    'a map created where a larger file is already', 'the new map keeps the size of the file that was there before', BP + r'''
fn main() {
    let (p, q) = (scratch("b"), scratch("c"));
    { let mut m: BpMap<u32, u64> = BpMap::new(&p, 4, 8).unwrap(); for k in 0..5000 { m.insert(k, 1).unwrap(); } }
    let _m: BpMap<u32, u64> = BpMap::new(&p, 4, 8).unwrap();
    let _n: BpMap<u32, u64> = BpMap::new(&q, 4, 8).unwrap();
    assert_eq!(std::fs::metadata(&p).unwrap().len(), std::fs::metadata(&q).unwrap().len(), "sizes of two new maps");
}
''')
