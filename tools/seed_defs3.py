SEEDS = []
def add(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

add('radix-prefix-cut', 'C16', [('src/radix/map.rs', '        tree::get_longest_prefix(&self.root, key, 0, Vec::new(), &mut keys);', '        // no more of the query can be shared than there is of a key\n        let len = self.max().map_or(0, |max| max.len());\n        tree::get_longest_prefix(&self.root, &key[..key.len().min(len)], 0, Vec::new(), &mut keys);')],
    'a query that shares more bytes with a key than the greatest key is long',
    'the query is cut to the length of the greatest, not of the longest key, so keys that share less are returned as well',
r'''
use extended_collections::radix::RadixMap;
fn main() {
    let mut m = RadixMap::new();
    let keys: Vec<Vec<u8>> = vec![b"abc".to_vec(), b"xyz".to_vec(), b"q".to_vec(), b"".to_vec(), b"abd".to_vec()];
    for k in &keys { m.insert(k, 0); }
    let mut want = keys.clone();
    want.sort();
    assert_eq!(m.get_longest_prefix(b""), want);
    m.insert(b"y", 0);
    assert_eq!(m.get_longest_prefix(b"abcq"), vec![b"abc".to_vec()]);
    for k in &keys { assert!(m.get_longest_prefix(k).contains(k)); }
}
''')
add('radix-iter-mut-prefix', 'C15', [('src/radix/map.rs', '''                self.current = child.as_mut().map(|node| &mut **node);
                self.stack.push((next, key_len));''', '''                self.current = child.as_mut().map(|node| &mut **node);
                if next.is_some() || self.current.is_some() {
                    self.stack.push((next, key_len));
                }''')],
    'iter_mut over a map in which a leaf without a later sibling is followed by another branch',
    'the bytes of a last leaf stay in front of the keys that follow it',
r'''
use extended_collections::radix::RadixMap;
fn main() {
    for seed in 0..200 {
        let mut r = Rng::new(seed + 1);
        let mut m = RadixMap::new();
        let mut model = BTreeMap::new();
        for i in 0..r.below(12) { let k: Vec<u8> = (0..r.below(4)).map(|_| r.below(3) as u8).collect(); m.insert(&k, i); model.insert(k, i); }
        let a: Vec<(Vec<u8>, u64)> = m.iter_mut().map(|(k, v)| (k, *v)).collect();
        let b: Vec<(Vec<u8>, u64)> = model.into_iter().collect();
        assert_eq!(a, b);
    }
}
''')
add('rb-insert-keeps-key', 'C03', [('src/red_black_tree/tree.rs', '''                let Node { ref mut entry, .. } = &mut **node;
                Some(mem::replace(entry, new_node.entry))''', '''                let Node { ref mut entry, .. } = &mut **node;
                let value = mem::replace(&mut entry.value, new_node.entry.value);
                Some(Entry {
                    key: new_node.entry.key,
                    value,
                })''')],
    'keys that compare equal but can be told apart, inserted twice',
    'the map keeps the key object of the first insertion and hands back that of the second',
r'''
use extended_collections::red_black_tree::RedBlackMap;
fn main() {
    let mut m = RedBlackMap::new();
    for i in 0..50 { m.insert(Key(i, 0), 0); }
    let (k, v) = m.insert(Key(7, 1), 1).unwrap();
    assert_eq!((k.1, v), (0, 0), "the replaced entry is handed back");
    let (k, v) = m.remove(&Key(7, 9)).unwrap();
    assert_eq!((k.1, v), (1, 1), "the stored entry is the new one");
}
''')
add('skip-into-iter-drop', 'C20', [('src/skiplist/map.rs', '''                let next_node = *(*self.current).get_pointer(0);
                Node::free(mem::replace(&mut self.current, next_node));
            }
        }
    }
}

/// An iterator''', '''                let next_node = *(*self.current).get_pointer(0);
                Node::deallocate(mem::replace(&mut self.current, next_node));
            }
        }
    }
}

/// An iterator''')],
    'an owning iterator that is dropped before it is exhausted, over entries with destructors',
    'the entries that were not yielded are never dropped',
r'''
use extended_collections::skiplist::SkipMap;
use std::rc::Rc;
fn main() {
    let t = Rc::new(());
    let mut m = SkipMap::new();
    for i in 0..10 { m.insert(i, Rc::clone(&t)); }
    let mut it = m.into_iter();
    drop(it.next()); drop(it.next());
    drop(it);
    assert_eq!(Rc::strong_count(&t), 1);
}
''')
add('splay-iter-mut-stack', 'C35', [('src/splay_tree/map.rs', '''                *current = right;
                Some((key, value))''', '''                if stack.len() <= 200 {
                    *current = right;
                }
                Some((key, value))''')],
    'iter_mut over a splay tree of unusual shape: more than 200 pending ancestors and a right subtree below them',
    'elements of right subtrees far down a left spine are not reached by iter_mut',
r'''
use extended_collections::splay_tree::SplayMap;
fn main() {
    for n in [10usize, 100, 1000, 5000] {
        let mut m = SplayMap::new();
        for i in 0..n { m.insert(2 * i, 0u8); }
        for i in (0..n).rev().step_by(7) { m.insert(2 * i + 1, 0); }
        for i in 0..n { m.insert(10 * n + 2 * i, 0u8); }
        let len = m.len();
        assert_eq!(m.iter_mut().count(), len);
    }
}
''')
