SEEDS = []
def add(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# ---------------------------------------------------------------- avl
add('avl-double-rotation', 'C02', [('src/avl_tree/tree.rs', 'child.balance() < 0 {', 'child.balance() <= 0 {')],
    'a removal on the lighter side whose heavier sibling is itself perfectly balanced, with an inner grandchild of uneven subtrees',
    'a double rotation is used where a single one is needed, leaving a node whose subtrees differ by two levels',
r'''
use extended_collections::avl_tree::AvlMap;
use std::cell::RefCell;
thread_local! { static SEEN: RefCell<Vec<i64>> = RefCell::new(vec![]); }
#[derive(PartialEq, Eq)]
struct P(i64);
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for P { fn cmp(&self, o: &P) -> Ordering { SEEN.with(|s| { s.borrow_mut().push(self.0); s.borrow_mut().push(o.0) }); self.0.cmp(&o.0) } }
fn path(m: &AvlMap<P, ()>, k: i64) -> Vec<i64> {
    SEEN.with(|s| s.borrow_mut().clear());
    let q = P(k);
    assert!(m.get(&q).is_some());
    SEEN.with(|s| s.borrow().chunks(2).map(|c| if c[0] == k { c[1] } else { c[0] }).collect())
}
fn main() {
    for seed in 0..300 {
        let mut r = Rng::new(seed + 1);
        let mut m = AvlMap::new();
        let mut model = BTreeSet::new();
        for _ in 0..40 { let k = r.below(60) as i64; m.insert(P(k), ()); model.insert(k); }
        for _ in 0..30 {
            let k = r.below(60) as i64; m.remove(&P(k)); model.remove(&k);
            // heights from the search paths
            let mut h: BTreeMap<(Vec<i64>, i64), usize> = BTreeMap::new();
            let mut height: BTreeMap<i64, [usize; 2]> = BTreeMap::new();
            for &k in &model {
                let p = path(&m, k);
                let p: Vec<i64> = { let mut v: Vec<i64> = p.clone(); v.dedup(); v };
                for (i, &a) in p.iter().enumerate() {
                    let below = p.len() - 1 - i;
                    let e = height.entry(a).or_insert([0, 0]);
                    if k < a { e[0] = e[0].max(below) } else if k > a { e[1] = e[1].max(below) }
                }
            }
            for (k, [a, b]) in height { assert!(a.max(b) - a.min(b) <= 1, "subtrees of {} have heights {} and {}", k, a, b); }
        }
    }
}
''')
add('avl-remove-two-children-height', 'C01', [('src/avl_tree/tree.rs', '''            Ordering::Equal => {
                let Node { ref mut entry, .. } = &mut **node;
                return Some(mem::replace(entry, new_node.entry));''', '''            Ordering::Equal => {
                let Node { ref mut entry, .. } = &mut **node;
                let old_value = mem::replace(&mut entry.value, new_node.entry.value);
                return Some(Entry {
                    key: new_node.entry.key,
                    value: old_value,
                });''')],
    'keys that compare equal but are distinguishable, inserted twice',
    'insert of an existing key hands back the new key object instead of the stored one and keeps the stale key in the map',
r'''
use extended_collections::avl_tree::AvlMap;
fn main() {
    let mut m = AvlMap::new();
    for i in 0..50 { m.insert(Key(i, 0), 0); }
    let (k, v) = m.insert(Key(7, 1), 1).unwrap();
    assert_eq!((k.1, v), (0, 0), "the replaced entry is handed back");
    let (k, v) = m.remove(&Key(7, 9)).unwrap();
    assert_eq!((k.1, v), (1, 1), "the stored entry is the new one");
}
''')
# ---------------------------------------------------------------- red-black
add('splay-remove-left-spine', 'C05', [('src/splay_tree/tree.rs', """            splay(&mut left_child, key);
            left_child.right = right;""", """            if left_child.left.is_some() || right.is_some() {
                splay(&mut left_child, key);
            }
            if right.is_some() || left_child.left.is_none() {
                left_child.right = right;
            }""")],
    'removing the greatest key when its predecessor tree has a root without a left child',
    'the elements right of the new root are lost',
r"""
use extended_collections::splay_tree::SplayMap;
fn main() {
    for seed in 0..300 {
        let mut r = Rng::new(seed + 1);
        let mut m = SplayMap::new();
        let mut model = BTreeMap::new();
        for i in 0..200u64 {
            let k = r.below(12);
            if r.below(2) == 0 { m.insert(k, i); model.insert(k, i); } else { assert_eq!(m.remove(&k), model.remove(&k).map(|v| (k, v))); }
            if r.below(3) == 0 { let q = r.below(12); assert_eq!(m.get_mut(&q).map(|v| *v), model.get(&q).cloned()); }
            assert_eq!(m.len(), model.len());
            assert!(m.iter().map(|(k, v)| (*k, *v)).eq(model.iter().map(|(k, v)| (*k, *v))));
        }
    }
}
""")
# ---------------------------------------------------------------- treap
add('treap-intersection-swapped', 'C08', [('src/treap/tree.rs', '*right_subtree = intersection(right_subtree.take(), right_right_subtree, swapped);', '*right_subtree = intersection(right_subtree.take(), right_right_subtree, false);')],
    'an intersection whose root comes from the right operand by priority, with equal keys carrying different values in its right part',
    'entries of the right operand win in part of the result',
r'''
use extended_collections::treap::TreapMap;
fn main() {
    for seed in 0..50u64 {
        let (mut a, mut b) = (TreapMap::new(), TreapMap::new());
        for i in 0..200 { a.insert(i, 'l'); b.insert(i, 'r'); }
        let c = TreapMap::intersection(a, b);
        assert_eq!(c.len(), 200);
        for (k, v) in &c { assert_eq!(*v, 'l', "key {}", k); }
    }
}
''')
add('treap-union-priority', 'C10', [('src/treap/tree.rs', '''            if left_node.priority < right_node.priority {
                mem::swap(&mut left_node, &mut right_node);
                swapped = !swapped;
            }
            {''', '''            if left_node.len < right_node.len {
                mem::swap(&mut left_node, &mut right_node);
                swapped = !swapped;
            }
            {''')],
    'many unions of independently built maps in key order',
    'union keeps the root of the larger map instead of the one of higher priority, so the result is no treap and becomes deep',
r'''
use extended_collections::treap::TreapMap;
fn main() {
    let n = 3000i64;
    let mut m = TreapMap::new();
    for i in 0..n { let mut s = TreapMap::new(); s.insert(Key(i, 0), i); m = TreapMap::union(m, s); }
    let mut worst = 0;
    for i in 0..n { let a = cmps(); assert_eq!(m.get(&Key(i, 0)), Some(&i)); worst = worst.max(cmps() - a); }
    assert!((worst as f64) < 12.0 * (n as f64).ln(), "a lookup takes {} comparisons", worst);
}
''')
add('skip-union-flat', 'C14', [('src/skiplist/map.rs', '''                let links_len = (*next_node).links_len;
                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {''', '''                let links_len = cmp::min((*next_node).links_len, 3);
                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {''', 0)],
    'lookups in a large map produced by union',
    'the result of a union only has three levels of links and is searched linearly',
r'''
use extended_collections::skiplist::SkipMap;
fn main() {
    let (mut a, mut b) = (SkipMap::new(), SkipMap::new());
    let n = 20000i64;
    for i in 0..n { if i % 2 == 0 { a.insert(Key(i, 0), i); } else { b.insert(Key(i, 0), i); } }
    let m = a + b;
    let a = cmps();
    for i in 0..n { assert_eq!(m.get(&Key(i, 0)), Some(&i)); }
    let per = (cmps() - a) as f64 / n as f64;
    assert!(per < 12.0 * (n as f64).log2(), "{} comparisons per lookup", per);
}
''')
add('skip-remove-start-height', 'C11', [('src/skiplist/map.rs', '''        let mut curr_height = MAX_HEIGHT;
        let mut curr_node = self.head;
        let mut prev_nodes = [self.head; MAX_HEIGHT + 1];
        let mut ret = None;

        unsafe {
            // all keys are compared before anything is changed
            loop {
                let mut next_node = *(*curr_node).get_pointer(curr_height);
                while !next_node.is_null() && (*next_node).entry.key.borrow() < key {''', '''        let mut curr_height = cmp::min(MAX_HEIGHT, self.get_starting_height() + 3);
        let mut curr_node = self.head;
        let mut prev_nodes = [self.head; MAX_HEIGHT + 1];
        let mut ret = None;

        unsafe {
            // all keys are compared before anything is changed
            loop {
                let mut next_node = *(*curr_node).get_pointer(curr_height);
                while !next_node.is_null() && (*next_node).entry.key.borrow() < key {''')],
    'removing a node that is taller than the size of the map suggests (every few hundred removals)',
    'the upper links of the node are not found: the removal panics',
r'''
use extended_collections::skiplist::SkipMap;
fn main() {
    for seed in 0..400 {
        let mut r = Rng::new(seed + 1);
        let mut m = SkipMap::new();
        let mut model = BTreeMap::new();
        for i in 0..600u64 {
            let k = r.below(12).to_string();
            if r.below(2) == 0 { assert_eq!(m.insert(k.clone(), i), model.insert(k.clone(), i).map(|v| (k.clone(), v))); }
            else { assert_eq!(m.remove(&k), model.remove(&k).map(|v| (k.clone(), v))); }
            assert_eq!(m.max(), model.keys().next_back());
            for j in 0..12 { let q = j.to_string(); assert_eq!(m.get(&q), model.get(&q)); }
        }
    }
}
''')
add('skip-union-leak', 'C20', [('src/skiplist/map.rs', '''                            cmp::Ordering::Less => {
                                let next_left_node = *(*left.head).get_pointer(0);
                                Node::free(mem::replace(&mut left.head, next_left_node));
                                continue;
                            }''', '''                            cmp::Ordering::Less => {
                                let next_left_node = *(*left.head).get_pointer(0);
                                Node::deallocate(mem::replace(&mut left.head, next_left_node));
                                continue;
                            }''')],
    'an intersection that drops entries of the left operand',
    'the dropped keys and values are never dropped (leak)',
r'''
use extended_collections::skiplist::SkipMap;
use std::rc::Rc;
fn main() {
    let rc = Rc::new(());
    let (mut a, mut b) = (SkipMap::new(), SkipMap::new());
    for i in 0..100 { if i % 3 != 0 { a.insert(i, rc.clone()); } if i % 2 == 0 { b.insert(i, rc.clone()); } }
    let m = SkipMap::intersection(a, b);
    let n = m.len();
    assert_eq!(Rc::strong_count(&rc), n + 1, "live values while the result is alive");
    drop(m);
    assert_eq!(Rc::strong_count(&rc), 1);
}
''')
add('skip-list-insert-distance', 'C13', [('src/skiplist/list.rs', '(*new_node).get_pointer_mut(i).distance -= last_nodes[i - 1].1;', '''if i + 1 < new_height {
                        (*new_node).get_pointer_mut(i).distance -= last_nodes[i - 1].1;
                    } else {
                        (*new_node).get_pointer_mut(i).distance = (*new_node)
                            .get_pointer(i)
                            .distance
                            .saturating_sub(last_nodes[i - 1].1)
                            .max(1);
                    }''')],
    'none: behaviour-preserving variant kept out', 'nothing', 'fn main() {}')
SEEDS.pop()
add('skip-list-concat-distance', 'C13', [('src/skiplist/list.rs', '''                let next_distance = (*other.head).get_pointer_mut(i).distance;
                (**curr_node).get_pointer_mut(i).distance += next_distance;''', '''                let next_distance = (*other.head).get_pointer_mut(i).distance;
                if !(**curr_node).get_pointer_mut(i).next.is_null() {
                    (**curr_node).get_pointer_mut(i).distance += next_distance;
                }''')],
    'concatenation followed by a second concatenation, with the second list lower than the first',
    'the tail distance of the upper links is forgotten, a later concatenation makes indices jump to wrong elements',
r'''
use extended_collections::skiplist::SkipList;
fn main() {
    for seed in 0..100 {
        let mut r = Rng::new(seed + 1);
        let mut m = SkipList::new();
        let mut model: Vec<u64> = Vec::new();
        for part in 0..12u64 {
            let mut s = SkipList::new();
            for i in 0..r.below(30) { let v = part * 1000 + i; s.push_back(v); model.push(v); }
            m = m + s;
            for j in 0..model.len() { assert_eq!(m.get(j), Some(&model[j])); }
        }
    }
}
''')
add('skip-node-size', 'C21', [('src/skiplist/map.rs', 'let base_size = mem::size_of::<Node<T, U>>();', 'let base_size = mem::size_of::<usize>() + mem::size_of::<Entry<T, U>>();')],
    'an element type whose size is not a multiple of the pointer size',
    'the node is allocated without the padding in front of its links, so the last link lies beyond the block',
r'''
use extended_collections::skiplist::SkipMap;
use std::alloc::{GlobalAlloc, Layout, System};
struct Guarded;
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 64, l.align()));
        for i in 0..64 { *p.add(l.size() + i) = 0xA5; }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..64 { if *p.add(l.size() + i) != 0xA5 { let m = b"write beyond an allocation\n"; libc::write(2, m.as_ptr() as *const _, m.len()); libc::_exit(1); } }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + 64, l.align()))
    }
}
#[global_allocator]
static A: Guarded = Guarded;
fn main() {
    let mut m = SkipMap::new();
    for i in 0..100u8 { m.insert(i, i); }
    for i in 0..100u8 { assert_eq!(m.get(&i), Some(&i)); }
    drop(m);
    let mut m = SkipMap::new();
    for i in 0..100u16 { m.insert(i, [1u8; 5]); }
    drop(m);
}
''')
# ---------------------------------------------------------------- radix
add('radix-merge-next', 'C15', [('src/radix/tree.rs', '''                    ret = remove(node.get_mut(byte), key, index);
                    node.merge();
                    if node.value.is_none() && node.is_leaf() {''', '''                    ret = remove(node.get_mut(byte), key, index);
                    node.merge();
                    if ret.is_some() && node.value.is_none() && node.is_leaf() && node.next.is_none() {''')],
    'none: kept out', 'nothing', 'fn main() {}')
SEEDS.pop()
add('radix-max-inner', 'C15', [('src/radix/node.rs', '        self.child.is_none()\n', '        // a lone child without a value holds nothing\n        self.child.as_ref().map_or(true, |child| child.next.is_none() && child.value.is_none())\n')],
    'a stored key whose only continuation is a branching node without a value of its own',
    'max returns a proper prefix of the greatest key',
r'''
use extended_collections::radix::RadixMap;
fn main() {
    let mut m = RadixMap::new();
    let mut model = BTreeMap::new();
    let mut r = Rng::new(3);
    for round in 0..3000 {
        let k: Vec<u8> = (0..r.below(6)).map(|_| b"ab"[r.below(2) as usize]).collect();
        if r.below(2) == 0 { m.insert(&k, round); model.insert(k, round); } else { assert_eq!(m.remove(&k).is_some(), model.remove(&k).is_some()); }
        assert_eq!(m.min().as_ref(), model.keys().next());
        assert_eq!(m.max().as_ref(), model.keys().next_back());
    }
}
''')
add('arena-trim-trailing', 'C17', [('src/arena.rs', '''                self.size -= 1;
                self.head = Some(Entry {
                    chunk_index: entry.chunk_index,
                    block_index: entry.block_index,
                });
                value''', '''                self.size -= 1;
                self.head = Some(Entry {
                    chunk_index: entry.chunk_index,
                    block_index: entry.block_index,
                });
                if self.size == 0 {
                    self.head = None;
                    for chunk in &mut self.chunks {
                        chunk.clear();
                    }
                }
                value''')],
    'freeing every element of an arena with more than one chunk, then allocating more than one chunk again',
    'the emptied chunks in front are not used any more: the last chunk is overfilled, and the handles are no longer those of free blocks in order (capacity is not what was reserved)',
r'''
use extended_collections::arena::TypedArena;
fn main() {
    // handles that are still alive keep designating their values, handles of freed values are vacant
    for seed in 0..50 {
        let mut r = Rng::new(seed + 1);
        let mut a = TypedArena::new(1 + r.below(4) as usize);
        let mut live: Vec<(extended_collections::arena::Entry, u64)> = vec![];
        let mut seen = BTreeSet::new();
        for i in 0..400u64 {
            if r.below(2) == 0 && !live.is_empty() { let j = r.below(live.len() as u64) as usize; let (e, v) = live.swap_remove(j); assert_eq!(a.free(&e), v); assert_eq!(a.get(&e), None); }
            else { let e = a.allocate(i); assert!(live.iter().all(|(f, _)| *f != e)); live.push((e, i)); }
            for (e, v) in &live { assert_eq!(a.get(e), Some(v)); }
        }
    }
}
''')
SEEDS.pop()
add('arena-free-list-chunk', 'C17', [('src/arena.rs', 'self.head = next_entry;', """self.head = next_entry.map(|next_entry| Entry {
                            chunk_index: ret.chunk_index,
                            ..next_entry
                        });""")],
    'a free list that goes from one chunk to another',
    'the next vacant block is looked for in the wrong chunk: a live value is overwritten or the allocation panics',
r"""
use extended_collections::arena::{Entry, TypedArena};
fn main() {
    for seed in 0..50 {
        let mut r = Rng::new(seed + 1);
        let mut a = TypedArena::new(1 + r.below(4) as usize);
        let mut live: Vec<(Entry, u64)> = vec![];
        for i in 0..400u64 {
            if r.below(2) == 0 && !live.is_empty() { let j = r.below(live.len() as u64) as usize; let (e, v) = live.swap_remove(j); assert_eq!(a.free(&e), v); assert_eq!(a.get(&e), None); }
            else { let e = a.allocate(i); assert!(live.iter().all(|(f, _)| *f != e)); live.push((e, i)); }
            for (e, v) in &live { assert_eq!(a.get(e), Some(v)); }
        }
    }
}
""")
# ---------------------------------------------------------------- stack
add('stack-pop-gives-up', 'C18', [("src/sync/stack.rs", """        loop {
            let head_shared = self.head.load(Ordering::Acquire, guard);""", """        for _ in 0..3 {
            let head_shared = self.head.load(Ordering::Acquire, guard);"""),
    ("src/sync/stack.rs", """                None => return None,
            }
        }
    }""", """                None => return None,
            }
        }
        None
    }""")],
    'three lost races of one try_pop against other threads',
    'try_pop reports an empty stack although it never was empty',
r'''
use extended_collections::sync::Stack;
use std::sync::Arc;
fn main() {
    // every thread pops only after its own push completed and pushes are never fewer than pops: None is impossible
    for _ in 0..40 {
        let s = Arc::new(Stack::new());
        let hs: Vec<_> = (0..8).map(|t| { let s = s.clone(); std::thread::spawn(move || { for i in 0..20000u64 { s.push(t * 1000000 + i); assert!(s.try_pop().is_some(), "None from a stack that is not empty"); } }) }).collect();
        for h in hs { if h.join().is_err() { std::process::exit(1) } }
    }
}
''')
add('stack-len-retry', 'C18', [('src/sync/stack.rs', 'Err(e) => new_node = e.new,', '''Err(e) => {
                    self.len.fetch_add(1, Ordering::Release);
                    new_node = e.new
                }''')],
    'a push that loses a race', 'len counts the retries and never returns to zero',
r'''
use extended_collections::sync::Stack;
use std::sync::Arc;
fn main() {
    for _ in 0..40 {
        let s = Arc::new(Stack::new());
        let hs: Vec<_> = (0..8).map(|t| { let s = s.clone(); std::thread::spawn(move || { for i in 0..20000u64 { s.push(i); if i % 2 == 0 { s.try_pop(); } } }) }).collect();
        for h in hs { h.join().unwrap(); }
        let n = s.len();
        let mut m = 0;
        while s.try_pop().is_some() { m += 1; }
        assert_eq!(n, m);
        assert!(s.is_empty());
    }
}
''')
add('stack-last-node-leak', 'C19', [('src/sync/stack.rs', """                            guard.defer(move || head_shared.into_owned());""", """                            if !next.is_null() {
                                guard.defer(move || head_shared.into_owned());
                            }""")],
    'pops that take the last element, over and over',
    'the node of a popped last element is never reclaimed',
r"""
use extended_collections::sync::Stack;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let s: Stack<u64> = Stack::new();
    for i in 0..200_000 { s.push(i); assert_eq!(s.try_pop(), Some(i)); }
    let live = LIVE.load(SeqCst);
    assert!(live < 1_000_000, "{} bytes live after popping everything", live);
}
""")
