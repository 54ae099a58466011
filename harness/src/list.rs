//! TreapList and SkipList against a vector (C09, C13), and the depth of large TreapLists (C10).
use crate::core::*;
use extended_collections::skiplist::SkipList;
use extended_collections::treap::TreapList;

pub trait SeqT<T>: Sized + 'static {
    const NAME: &'static str;
    fn new() -> Self;
    fn dflt() -> Self;
    fn insert(&mut self, i: usize, v: T);
    fn remove(&mut self, i: usize) -> T;
    fn push_front(&mut self, v: T);
    fn push_back(&mut self, v: T);
    fn pop_front(&mut self) -> T;
    fn pop_back(&mut self) -> T;
    fn get(&self, i: usize) -> Option<&T>;
    fn get_mut(&mut self, i: usize) -> Option<&mut T>;
    fn index(&self, i: usize) -> &T;
    fn index_mut(&mut self, i: usize) -> &mut T;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn iter<'a>(&'a self, by_ref: bool) -> Box<dyn Iterator<Item = &'a T> + 'a>;
    fn iter_mut<'a>(&'a mut self, by_ref: bool) -> Box<dyn Iterator<Item = &'a mut T> + 'a>;
    fn consume(self) -> Box<dyn Iterator<Item = T>>;
    fn concat(self, o: Self) -> Self;
}
macro_rules! seq_impl {
    ($M:ident) => {
        impl<T: 'static> SeqT<T> for $M<T> {
            const NAME: &'static str = stringify!($M);
            fn new() -> Self { $M::new() }
            fn dflt() -> Self { Default::default() }
            fn insert(&mut self, i: usize, v: T) { $M::insert(self, i, v) }
            fn remove(&mut self, i: usize) -> T { $M::remove(self, i) }
            fn push_front(&mut self, v: T) { $M::push_front(self, v) }
            fn push_back(&mut self, v: T) { $M::push_back(self, v) }
            fn pop_front(&mut self) -> T { $M::pop_front(self) }
            fn pop_back(&mut self) -> T { $M::pop_back(self) }
            fn get(&self, i: usize) -> Option<&T> { $M::get(self, i) }
            fn get_mut(&mut self, i: usize) -> Option<&mut T> { $M::get_mut(self, i) }
            fn index(&self, i: usize) -> &T { &self[i] }
            fn index_mut(&mut self, i: usize) -> &mut T { &mut self[i] }
            fn len(&self) -> usize { $M::len(self) }
            fn is_empty(&self) -> bool { $M::is_empty(self) }
            fn clear(&mut self) { $M::clear(self) }
            fn iter<'a>(&'a self, by_ref: bool) -> Box<dyn Iterator<Item = &'a T> + 'a> {
                if by_ref { Box::new(IntoIterator::into_iter(self)) } else { Box::new($M::iter(self)) }
            }
            fn iter_mut<'a>(&'a mut self, by_ref: bool) -> Box<dyn Iterator<Item = &'a mut T> + 'a> {
                if by_ref { Box::new(IntoIterator::into_iter(self)) } else { Box::new($M::iter_mut(self)) }
            }
            fn consume(self) -> Box<dyn Iterator<Item = T>> { Box::new(IntoIterator::into_iter(self)) }
            fn concat(self, o: Self) -> Self { self + o }
        }
    };
}
seq_impl!(TreapList);
seq_impl!(SkipList);

pub trait Elem: 'static {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
}
impl Elem for u64 {
    fn mk(v: u64) -> Self { v }
    fn val(&self) -> u64 { *self }
    fn set(&mut self, v: u64) { *self = v }
}
impl Elem for String {
    fn mk(v: u64) -> Self { format!("e{}", v) }
    fn val(&self) -> u64 { self[1..].parse().unwrap_or(u64::MAX) }
    fn set(&mut self, v: u64) { *self = Self::mk(v) }
}

pub struct L<T: Elem, S: SeqT<T>> {
    pub s: Option<S>,
    pub model: Vec<u64>,
    next: u64,
    _p: std::marker::PhantomData<fn() -> T>,
}
impl<T: Elem, S: SeqT<T>> L<T, S> {
    pub fn new(dflt: bool) -> Self {
        L { s: Some(if dflt { S::dflt() } else { S::new() }), model: Vec::new(), next: 1, _p: std::marker::PhantomData }
    }
    pub fn full(&mut self, ctx: &mut Ctx) -> R {
        ctx.count("full_state_comparisons", 1);
        let s = self.s.as_ref().unwrap();
        ckeq!(s.len(), self.model.len(), "{}: len()", S::NAME);
        ckeq!(s.is_empty(), self.model.is_empty(), "{}: is_empty()", S::NAME);
        for by_ref in [false, true] {
            let got: Vec<u64> = s.iter(by_ref).take(self.model.len() + 2).map(|v| v.val()).collect();
            if got != self.model {
                let at = got.iter().zip(&self.model).position(|(a, b)| a != b).unwrap_or(got.len().min(self.model.len()));
                return Err(format!("{}: iter yields {} elements for {} and differs at position {}", S::NAME, got.len(), self.model.len(), at));
            }
        }
        Ok(())
    }
    pub fn deep(&mut self, ctx: &mut Ctx) -> R {
        self.full(ctx)?;
        let n = self.model.len();
        let s = self.s.as_mut().unwrap();
        let is: Vec<usize> = if n <= 80 { (0..n).collect() } else { (0..80).map(|_| ctx.rng.us(n)).chain([0, n - 1, n / 2]).collect() };
        for i in is {
            ckeq!(s.get(i).map(|v| v.val()), Some(self.model[i]), "{}: get({}) of {}", S::NAME, i, n);
            ckeq!(s.get_mut(i).map(|v| v.val()), Some(self.model[i]), "{}: get_mut({}) of {}", S::NAME, i, n);
            ckeq!(guard("index", || s.index(i).val())?, self.model[i], "{}: list[{}] of {}", S::NAME, i, n);
        }
        for i in [n, n + 1, n + 7, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
            let g = guard("get", || s.get(i).map(|v| v.val()))?;
            ck!(g.is_none(), "{}: get({}) of a list of {} elements returned Some", S::NAME, i, n);
            let g = guard("get_mut", || s.get_mut(i).map(|v| v.val()))?;
            ck!(g.is_none(), "{}: get_mut({}) of a list of {} elements returned Some", S::NAME, i, n);
        }
        Ok(())
    }
    pub fn insert(&mut self, ctx: &mut Ctx, i: usize) -> R {
        let v = self.next;
        self.next += 1;
        ctx.op("insert", i as i64, v as i64);
        self.s.as_mut().unwrap().insert(i, T::mk(v));
        self.model.insert(i, v);
        Ok(())
    }
    fn remove(&mut self, ctx: &mut Ctx, i: usize) -> R {
        ctx.op("remove", i as i64, NOARG);
        let got = self.s.as_mut().unwrap().remove(i).val();
        let exp = self.model.remove(i);
        ckeq!(got, exp, "{}: remove({})", S::NAME, i);
        Ok(())
    }
    fn pos(&self, ctx: &mut Ctx, hi: usize) -> usize {
        // positions concentrate near the ends and around a point
        match ctx.rng.below(5) {
            0 => 0,
            1 => hi,
            2 => hi - ctx.rng.us(hi.min(3) + 1),
            _ => ctx.rng.us(hi + 1),
        }
    }
    pub fn step(&mut self, ctx: &mut Ctx, grow: u64) -> R {
        let n = self.model.len();
        let x = ctx.rng.below(100);
        if x < grow {
            match ctx.rng.below(4) {
                0 => {
                    let v = self.next;
                    self.next += 1;
                    ctx.op("push_front", v as i64, NOARG);
                    self.s.as_mut().unwrap().push_front(T::mk(v));
                    self.model.insert(0, v);
                }
                1 => {
                    let v = self.next;
                    self.next += 1;
                    ctx.op("push_back", v as i64, NOARG);
                    self.s.as_mut().unwrap().push_back(T::mk(v));
                    self.model.push(v);
                }
                _ => {
                    let i = self.pos(ctx, n);
                    self.insert(ctx, i)?
                }
            }
        } else if x < 80 {
            if n == 0 {
                return Ok(());
            }
            match ctx.rng.below(4) {
                0 => {
                    ctx.op("pop_front", NOARG, NOARG);
                    let got = self.s.as_mut().unwrap().pop_front().val();
                    ckeq!(got, self.model.remove(0), "{}: pop_front", S::NAME);
                }
                1 => {
                    ctx.op("pop_back", NOARG, NOARG);
                    let got = self.s.as_mut().unwrap().pop_back().val();
                    ckeq!(got, self.model.pop().unwrap(), "{}: pop_back", S::NAME);
                }
                _ => {
                    let i = self.pos(ctx, n - 1);
                    self.remove(ctx, i)?
                }
            }
        } else {
            let s = self.s.as_mut().unwrap();
            match ctx.rng.below(12) {
                0..=3 => {
                    let i = ctx.rng.us(n + 3);
                    ctx.op("get", i as i64, NOARG);
                    ckeq!(s.get(i).map(|v| v.val()), self.model.get(i).cloned(), "{}: get({})", S::NAME, i);
                }
                4..=6 => {
                    let i = ctx.rng.us(n + 3);
                    let v = self.next;
                    self.next += 1;
                    ctx.op("get_mut", i as i64, v as i64);
                    let got = s.get_mut(i).map(|x| {
                        let o = x.val();
                        x.set(v);
                        o
                    });
                    let exp = self.model.get_mut(i).map(|x| std::mem::replace(x, v));
                    ckeq!(got, exp, "{}: get_mut({})", S::NAME, i);
                }
                7 | 8 => {
                    if n > 0 {
                        let i = ctx.rng.us(n);
                        let v = self.next;
                        self.next += 1;
                        ctx.op("index_mut", i as i64, v as i64);
                        ckeq!(s.index(i).val(), self.model[i], "{}: list[{}]", S::NAME, i);
                        s.index_mut(i).set(v);
                        self.model[i] = v;
                    }
                }
                9 => {
                    // out of range: panics and leaves the list alone
                    let d = *ctx.rng.pick(&[0usize, 1, 5, usize::MAX / 2]);
                    let i = n.saturating_add(d);
                    ctx.op("out_of_range", i as i64, NOARG);
                    ck!(panics(|| { s.index(i); }), "{}: list[{}] of {} did not panic", S::NAME, i, n);
                    ck!(panics(|| { s.index_mut(i); }), "{}: mutable list[{}] of {} did not panic", S::NAME, i, n);
                    ck!(panics(|| { s.remove(i); }), "{}: remove({}) of {} did not panic", S::NAME, i, n);
                    let v = T::mk(0);
                    let j = i.saturating_add(1);
                    ck!(panics(|| s.insert(j, v)), "{}: insert({}) into {} did not panic", S::NAME, j, n);
                    if n == 0 {
                        ck!(panics(|| { s.pop_front(); }), "{}: pop_front of an empty list did not panic", S::NAME);
                        ck!(panics(|| { s.pop_back(); }), "{}: pop_back of an empty list did not panic", S::NAME);
                    }
                    self.full(ctx)?;
                }
                10 => {
                    ctx.op("iter_mut", NOARG, NOARG);
                    let by_ref = ctx.rng.chance(1, 2);
                    let stop = if ctx.rng.chance(1, 2) { n } else { ctx.rng.us(n + 1) };
                    let mut it = s.iter_mut(by_ref);
                    for i in 0..stop {
                        match it.next() {
                            Some(x) => {
                                ckeq!(x.val(), self.model[i], "{}: iter_mut element {}", S::NAME, i);
                                let v = self.next;
                                self.next += 1;
                                x.set(v);
                                self.model[i] = v;
                            }
                            None => return Err(format!("{}: iter_mut ended after {} of {}", S::NAME, i, n)),
                        }
                    }
                    if stop == n {
                        ck!(it.next().is_none(), "{}: iter_mut yields more than {} elements", S::NAME, n);
                    }
                }
                _ => {
                    if ctx.rng.chance(1, 4) {
                        ctx.op("clear", NOARG, NOARG);
                        s.clear();
                        self.model.clear();
                    } else if ctx.rng.chance(1, 2) {
                        ctx.op("into_iter", NOARG, NOARG);
                        let stop = if ctx.rng.chance(1, 2) { n + 1 } else { ctx.rng.us(n + 1) };
                        let mut it = self.s.take().unwrap().consume();
                        let mut back = Vec::new();
                        for i in 0..stop {
                            let g = it.next();
                            ckeq!(g.as_ref().map(|v| v.val()), self.model.get(i).cloned(), "{}: into_iter element {}", S::NAME, i);
                            back.extend(g);
                        }
                        drop(it);
                        self.model.truncate(stop);
                        let mut s = S::new();
                        for v in back {
                            s.push_back(v);
                        }
                        self.s = Some(s);
                    }
                    self.full(ctx)?;
                }
            }
        }
        Ok(())
    }
    fn build(ctx: &mut Ctx, base: u64) -> Result<Self, String> {
        let mut l = L::new(ctx.rng.chance(1, 3));
        l.next = base;
        let n = sz(*ctx.rng.pick(&[0u64, 1, 2, 5, 20, 80]));
        for _ in 0..n {
            let grow = 60;
            l.step(ctx, grow)?;
        }
        Ok(l)
    }
}
pub fn history<T: Elem, S: SeqT<T>>(ctx: &mut Ctx) -> R {
    let big = ctx.rng.chance(1, 6);
    ctx.note(S::NAME.to_string());
    let mut l = L::<T, S>::new(ctx.rng.chance(1, 4));
    let mut n = 0u64;
    for _ in 0..ctx.rng.range(2, 6) {
        let grow = *ctx.rng.pick(&[25u64, 40, 55, 70]);
        for _ in 0..sz(ctx.rng.range(10, if big { 500 } else { 80 })) {
            l.step(ctx, grow)?;
            n += 1;
            if n % 6 == 0 && l.model.len() < 100 {
                l.full(ctx)?;
            }
        }
        l.deep(ctx)?;
        ctx.max("max_len", l.model.len() as u64);
    }
    while ctx.rng.chance(3, 4) && !l.model.is_empty() {
        let i = l.pos(ctx, l.model.len() - 1);
        l.remove(ctx, i)?;
    }
    ctx.count("operations", n);
    l.deep(ctx)
}
pub fn concat<T: Elem, S: SeqT<T>>(ctx: &mut Ctx) -> R {
    ctx.note(S::NAME.to_string());
    let mut l = L::<T, S>::build(ctx, 1)?;
    for round in 1..=ctx.rng.range(2, 6) {
        ctx.op("|", NOARG, NOARG);
        let mut r = L::<T, S>::build(ctx, round * 1_000_000)?;
        let front = ctx.rng.chance(1, 3);
        ctx.op("concat", front as i64, NOARG);
        let (mut a, mut b) = if front { (r, l) } else { std::mem::swap(&mut l, &mut r); (r, l) };
        let s = a.s.take().unwrap().concat(b.s.take().unwrap());
        let mut model = a.model;
        model.append(&mut b.model);
        l = L { s: Some(s), model, next: round * 1_000_000 + 500_000, _p: std::marker::PhantomData };
        ctx.count("concatenations", 1);
        l.deep(ctx)?;
        for _ in 0..sz(ctx.rng.below(30)) {
            l.step(ctx, 45)?;
            if l.model.len() < 60 {
                l.deep(ctx)?;
            }
        }
        l.deep(ctx)?;
    }
    Ok(())
}
/// thousands of elements; positions checked against the model by sampling
pub fn large<T: Elem, S: SeqT<T>>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(1000, 4000) as usize;
    let mode = ctx.rng.below(4);
    large_of::<T, S>(ctx, n, mode)
}
/// more elements than fit 16 bits
pub fn huge<T: Elem, S: SeqT<T>>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(66_000, 90_000) as usize;
    let mode = ctx.idx as u64 % 4;
    large_of::<T, S>(ctx, n, mode)
}
fn large_of<T: Elem, S: SeqT<T>>(ctx: &mut Ctx, n: usize, mode: u64) -> R {
    ctx.note(format!("{} n {} mode {}", S::NAME, n, mode));
    ctx.sig(ctx.rng.clone().u());
    let mut l = L::<T, S>::new(false);
    for _ in 0..n {
        let i = match mode {
            0 => l.model.len(),
            1 => 0,
            2 => l.model.len() / 2,
            _ => ctx.rng.us(l.model.len() + 1),
        };
        l.insert(ctx, i)?;
    }
    l.deep(ctx)?;
    ctx.ops.clear();
    for _ in 0..n.min(5000) {
        l.step(ctx, 40)?;
    }
    l.deep(ctx)?;
    let mut c = 0;
    while !l.model.is_empty() {
        let hi = l.model.len() - 1;
        let i = match mode {
            0 => 0,
            1 => hi,
            2 => hi / 2,
            _ => ctx.rng.us(hi + 1),
        };
        l.remove(ctx, i)?;
        c += 1;
        if c % (n / 4) == 0 || (n < 5000 && c % 500 == 0) {
            l.deep(ctx)?;
            ctx.ops.truncate(60);
        }
    }
    ctx.ops.truncate(60);
    ctx.count("operations", 3 * n as u64);
    l.deep(ctx)
}
/// a TreapList of many elements on a small stack: its recursion depth must stay logarithmic
pub fn treap_list_deep(ctx: &mut Ctx) -> R {
    let n = 20_000u64;
    let mode = ctx.idx % 4;
    ctx.note(format!("TreapList n {} mode {} on a 256 KB stack", n, mode));
    ctx.sig(ctx.rng.clone().u());
    ctx.count("deep_lists", 1);
    let mut rng = ctx.rng.clone();
    let h = std::thread::Builder::new().stack_size(256 << 10).spawn(move || -> R {
        let mut l: TreapList<u64> = TreapList::new();
        let mut sum = 0u64;
        for i in 0..n {
            match mode {
                0 => l.push_back(i),
                1 => l.push_front(i),
                2 => {
                    let mut o = TreapList::new();
                    o.push_back(i);
                    l = l + o;
                }
                _ => {
                    let at = rng.us(l.len() + 1);
                    l.insert(at, i)
                }
            }
            sum += i;
        }
        ckeq!(l.len(), n as usize, "TreapList: len");
        let mut got = 0;
        for i in 0..n as usize {
            got += *l.get(i).ok_or_else(|| format!("TreapList: get({}) is None", i))?;
        }
        ckeq!(got, sum, "TreapList: sum of the elements");
        for _ in 0..1000 {
            let at = rng.us(l.len());
            l.remove(at);
        }
        ckeq!(l.into_iter().count(), n as usize - 1000, "TreapList: into_iter count");
        Ok(())
    });
    h.unwrap().join().map_err(|_| "TreapList panicked".to_string())?
}
/// long operands
pub fn concat_large<T: Elem, S: SeqT<T>>(ctx: &mut Ctx) -> R {
    ctx.note(format!("{} long operands", S::NAME));
    ctx.sig(ctx.rng.clone().u());
    let mut l = L::<T, S>::new(false);
    for round in 1..=ctx.rng.range(2, 8) {
        let mut r = L::<T, S>::new(false);
        r.next = round * 10_000_000;
        for _ in 0..ctx.rng.range(0, if ctx.idx % 10 == 0 { 30_000 } else { 3000 }) {
            let i = r.model.len();
            r.insert(ctx, i)?;
        }
        ctx.ops.clear();
        let (mut a, mut b) = if ctx.rng.chance(1, 2) { (r, l) } else { (l, r) };
        let s = a.s.take().unwrap().concat(b.s.take().unwrap());
        let mut model = a.model;
        model.append(&mut b.model);
        l = L { s: Some(s), model, next: round * 10_000_000 + 5_000_000, _p: std::marker::PhantomData };
        ctx.count("concatenations", 1);
        l.deep(ctx)?;
        for _ in 0..200 {
            l.step(ctx, 45)?;
        }
        l.deep(ctx)?;
    }
    ctx.max("max_len", l.model.len() as u64);
    Ok(())
}
