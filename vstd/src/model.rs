//! Bounded, direct-indexed model of `HashMap`/`HashSet`.
//!
//! Keys are the builder addresses the harness hands out: `BASE + 0 ..
//! BASE + CAP`, recognised by what they feed to the hasher. Slot `i` holds the
//! entry of key `BASE + i`. Iteration order is chosen by the solver: each
//! `next()` returns an arbitrary entry among the remaining ones, so every hash
//! order is covered.
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::{Hash, Hasher};
use ::std::iter::FromIterator;
use ::std::marker::PhantomData;
use ::std::mem::{size_of, transmute_copy, ManuallyDrop, MaybeUninit};
use ::std::ops::Index;

#[cfg(feature = "cap4")]
pub const CAP: usize = 4;
#[cfg(feature = "cap2")]
pub const CAP: usize = 2;
#[cfg(not(any(feature = "cap4", feature = "cap2")))]
pub const CAP: usize = 3;
pub const BASE: usize = 4;

/// Runs `$e` with the constant slot number selected by the one-hot `$x`.
#[cfg(feature = "cap4")]
macro_rules! at { ($x:expr, $i:ident, $e:expr) => {{ let x = $x; if x & 1 != 0 { const $i: usize = 0; $e } else if x & 2 != 0 { const $i: usize = 1; $e } else if x & 4 != 0 { const $i: usize = 2; $e } else { const $i: usize = 3; $e } }} }
#[cfg(feature = "cap2")]
macro_rules! at { ($x:expr, $i:ident, $e:expr) => {{ let x = $x; if x & 1 != 0 { const $i: usize = 0; $e } else { const $i: usize = 1; $e } }} }
#[cfg(not(any(feature = "cap4", feature = "cap2")))]
macro_rules! at { ($x:expr, $i:ident, $e:expr) => {{ let x = $x; if x & 1 != 0 { const $i: usize = 0; $e } else if x & 2 != 0 { const $i: usize = 1; $e } else { const $i: usize = 2; $e } }} }

#[cfg(feature = "cap4")]
macro_rules! each { ($i:ident, $e:expr) => { { { const $i: usize = 0; $e } { const $i: usize = 1; $e } { const $i: usize = 2; $e } { const $i: usize = 3; $e } } } }
#[cfg(feature = "cap2")]
macro_rules! each { ($i:ident, $e:expr) => { { { const $i: usize = 0; $e } { const $i: usize = 1; $e } } } }
#[cfg(not(any(feature = "cap4", feature = "cap2")))]
macro_rules! each { ($i:ident, $e:expr) => { { { const $i: usize = 0; $e } { const $i: usize = 1; $e } { const $i: usize = 2; $e } } } }

#[cfg(feature = "cap4")]
macro_rules! arr { ($e:expr) => { [$e, $e, $e, $e] } }
#[cfg(feature = "cap2")]
macro_rules! arr { ($e:expr) => { [$e, $e] } }
#[cfg(not(any(feature = "cap4", feature = "cap2")))]
macro_rules! arr { ($e:expr) => { [$e, $e, $e] } }

#[inline(never)]
pub(crate) fn un<T>() -> ManuallyDrop<T> { unsafe { MaybeUninit::<ManuallyDrop<T>>::uninit().assume_init() } }

struct Ident(usize);
impl Hasher for Ident {
    fn finish(&self) -> u64 { self.0 as u64 }
    fn write(&mut self, b: &[u8]) { if b.len() != 0 { panic!("VSTD-LIMIT: unsupported key type") } }
    fn write_usize(&mut self, i: usize) { self.0 = i }
    fn write_u64(&mut self, i: u64) { self.0 = i as usize }
    fn write_isize(&mut self, i: isize) { self.0 = i as usize }
    fn write_u8(&mut self, i: u8) { self.0 = i as usize }
    fn write_u32(&mut self, i: u32) { self.0 = i as usize }
}
/// A slot is a one-hot mask: no symbolic shifts or subtractions.
type Slot = u8;
#[cfg(not(feature = "reg"))]
mod keys {
    use super::*;
    #[inline]
    pub fn slot<Q: Hash + ?Sized>(q: &Q) -> Slot {
        let mut h = Ident(0);
        q.hash(&mut h);
        if h.0 & !3 != BASE { panic!("VSTD-LIMIT: key outside the modelled universe") }
        let l = h.0 as u8 & 3;
        if CAP < 4 && l >= CAP as u8 { panic!("VSTD-LIMIT: key outside the modelled universe") }
        (l == 0) as u8 | (((l == 1) as u8) << 1) | (((l == 2) as u8) << 2) | (((l == 3) as u8) << 3)
    }
    static K0: usize = BASE;
    static K1: usize = BASE + 1;
    static K2: usize = BASE + 2;
    static K3: usize = BASE + 3;
    #[inline]
    pub fn key<K>(s: Slot) -> K {
        if size_of::<K>() != size_of::<usize>() { panic!("VSTD-LIMIT: unsupported key type") }
        let l = (s & 2 != 0) as u8 | (((s & 4 != 0) as u8) << 1) | if CAP == 4 { ((s & 8 != 0) as u8) * 3 } else { 0 };
        let x = BASE | l as usize;
        unsafe { transmute_copy::<usize, K>(&x) }
    }
    #[inline]
    pub fn kref<'a, K>(s: Slot) -> &'a K {
        if size_of::<K>() != size_of::<usize>() { panic!("VSTD-LIMIT: unsupported key type") }
        let p: &'static usize = if s & 1 != 0 { &K0 } else if s & 2 != 0 { &K1 } else if CAP < 4 || s & 4 != 0 { &K2 } else { &K3 };
        unsafe { &*(p as *const usize as *const K) }
    }
}
/// Keys are real addresses; the first byte there is the number of the builder.
#[cfg(feature = "reg")]
#[allow(static_mut_refs)]
mod keys {
    use super::*;
    static mut REG: [usize; CAP] = [0; CAP];
    #[inline]
    pub fn slot<Q: Hash + ?Sized>(q: &Q) -> Slot {
        let mut h = Ident(0);
        q.hash(&mut h);
        let l = unsafe { *(h.0 as *const u8) };
        if l >= CAP as u8 { panic!("VSTD-LIMIT: key outside the modelled universe") }
        let x = (l == 0) as u8 | (((l == 1) as u8) << 1) | (((l == 2) as u8) << 2) | (((l == 3) as u8) << 3);
        unsafe { at!(x, I, { REG[I] = h.0; }) }
        x
    }
    #[inline]
    pub fn key<K>(s: Slot) -> K {
        if size_of::<K>() != size_of::<usize>() { panic!("VSTD-LIMIT: unsupported key type") }
        let x = unsafe { at!(s, I, REG[I]) };
        unsafe { transmute_copy::<usize, K>(&x) }
    }
    #[inline]
    pub fn kref<'a, K>(s: Slot) -> &'a K {
        if size_of::<K>() != size_of::<usize>() { panic!("VSTD-LIMIT: unsupported key type") }
        unsafe { at!(s, I, &*(&REG[I] as *const usize as *const K)) }
    }
}
use keys::{key, kref, slot};
/// Picks any set bit of a non-empty mask.
#[cfg(kani)]
#[inline]
fn pick(r: u8) -> Slot {
    let x: u8 = kani::any();
    kani::assume((x == 1 || x == 2 || (CAP > 2 && x == 4) || (CAP > 3 && x == 8)) && x & r != 0);
    x
}
#[cfg(not(kani))]
#[inline]
fn pick(r: u8) -> Slot { 1u8 << r.trailing_zeros() }

#[inline]
fn cnt(p: u8) -> usize { ((p & 1) + (p >> 1 & 1) + (p >> 2 & 1) + (p >> 3 & 1)) as usize }

/// Cursor over a set of slots; at most `CAP` steps, each to an arbitrary one.
#[derive(Clone)]
struct Cur { r: u8, n: u8 }
impl Cur {
    #[inline] fn new(p: u8) -> Cur { Cur { r: p, n: 0 } }
    #[inline]
    fn next(&mut self) -> Option<Slot> {
        // `n` is concrete under symbolic execution: bounds every `for` loop.
        if self.n as usize == CAP { return None }
        self.n += 1;
        let r = self.r;
        if r == 0 { return None }
        let x = pick(r);
        self.r = r & !x;
        Some(x)
    }
    #[inline] fn left(&self) -> usize { cnt(self.r) }
}

pub struct HashMap<K, V, S = ()> { p: u8, v: [ManuallyDrop<V>; CAP], _k: PhantomData<(K, S)> }

impl<K, V> HashMap<K, V> {
    #[inline] pub fn new() -> Self { HashMap { p: 0, v: arr!(un()), _k: PhantomData } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
}
impl<K, V> HashMap<K, V> {
    pub fn capacity(&self) -> usize { CAP }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    #[inline] pub fn len(&self) -> usize { cnt(self.p) }
    #[inline] pub fn is_empty(&self) -> bool { self.p == 0 }
    pub fn clear(&mut self) {
        if ::std::mem::needs_drop::<V>() { each!(I, if self.p >> I & 1 != 0 { unsafe { ManuallyDrop::drop(&mut self.v[I]) } }) }
        self.p = 0;
    }
    #[inline] fn tk<const I: usize>(&mut self) -> Option<V> {
        if self.p >> I & 1 != 0 { self.p &= !(1 << I); Some(unsafe { ManuallyDrop::take(&mut self.v[I]) }) } else { None }
    }
    #[inline] fn put<const I: usize>(&mut self, v: V) -> Option<V> {
        let o = if self.p >> I & 1 != 0 { Some(unsafe { ManuallyDrop::take(&mut self.v[I]) }) } else { None };
        self.p |= 1 << I;
        self.v[I] = ManuallyDrop::new(v);
        o
    }
    #[inline] fn vr(&self, x: Slot) -> &V { at!(x, I, &*self.v[I]) }
    #[inline] fn vm(&mut self, x: Slot) -> &mut V { at!(x, I, &mut *self.v[I]) }
    #[inline] fn tkx(&mut self, x: Slot) -> Option<V> { at!(x, I, self.tk::<I>()) }
    #[inline] fn has(&self, x: Slot) -> bool { self.p & x != 0 }
    pub fn iter(&self) -> MapIter<'_, K, V> { MapIter { m: self, c: Cur::new(self.p) } }
    pub fn iter_mut(&mut self) -> MapIterMut<'_, K, V> { let c = Cur::new(self.p); MapIterMut { m: self, c, _p: PhantomData } }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys { m: self, c: Cur::new(self.p) } }
    pub fn values(&self) -> Values<'_, K, V> { Values { m: self, c: Cur::new(self.p) } }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { let c = Cur::new(self.p); ValuesMut { m: self, c, _p: PhantomData } }
    pub fn drain(&mut self) -> MapDrain<'_, K, V> { let c = Cur::new(self.p); MapDrain { m: self, c } }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        each!(I, if self.p >> I & 1 != 0 { if !f(kref(1 << I), &mut *self.v[I]) { drop(self.tk::<I>()); } })
    }
    pub fn into_keys(self) -> SetIntoIter<K> { SetIntoIter { c: Cur::new(self.p), _k: PhantomData } }
}
impl<K, V, S> Drop for HashMap<K, V, S> {
    fn drop(&mut self) {
        if ::std::mem::needs_drop::<V>() { each!(I, if self.p >> I & 1 != 0 { unsafe { ManuallyDrop::drop(&mut self.v[I]) } }) }
    }
}
impl<K: Eq + Hash, V> HashMap<K, V> {
    #[inline]
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&V> where K: Borrow<Q> {
        let x = slot(q);
        if self.has(x) { Some(self.vr(x)) } else { None }
    }
    #[inline]
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<&mut V> where K: Borrow<Q> {
        let x = slot(q);
        if self.has(x) { Some(self.vm(x)) } else { None }
    }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
        let x = slot(q);
        if self.has(x) { Some((kref(x), self.vr(x))) } else { None }
    }
    #[inline]
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool where K: Borrow<Q> { self.has(slot(q)) }
    #[inline]
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<V> where K: Borrow<Q> { let x = slot(q); self.tkx(x) }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<(K, V)> where K: Borrow<Q> {
        let x = slot(q);
        match self.tkx(x) { Some(v) => Some((key(x), v)), None => None }
    }
    #[inline]
    pub fn insert(&mut self, k: K, v: V) -> Option<V> { at!(slot(&k), I, self.put::<I>(v)) }
    #[inline]
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        #[cfg(not(feature = "enum_entry"))]
        { Entry { m: self, k } }
        #[cfg(feature = "enum_entry")]
        { let x = slot(&k); if self.has(x) { Entry::Occupied(OccupiedEntry { m: self, x, k: Some(k) }) } else { Entry::Vacant(VacantEntry { m: self, x, k }) } }
    }
}
/// Lean form of `Entry`, without variants to match on; a source that matches on
/// them does not compile against it and gets the `enum_entry` form.
#[cfg(not(feature = "enum_entry"))]
pub struct Entry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
#[cfg(not(feature = "enum_entry"))]
impl<'a, K: Hash, V> Entry<'a, K, V> {
    #[inline]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        let Entry { m, k } = self;
        let x = slot(&k);
        if !m.has(x) { let v = f(); m.p |= x; at!(x, I, { m.v[I] = ManuallyDrop::new(v); }) }
        m.vm(x)
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { let k = key::<K>(slot(&self.k)); self.or_insert_with(move || f(&k)) }
    pub fn or_insert(self, d: V) -> &'a mut V { self.or_insert_with(move || d) }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(Default::default) }
    pub fn key(&self) -> &K { &self.k }
    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self { let x = slot(&self.k); if self.m.has(x) { f(self.m.vm(x)) } self }
}
#[cfg(feature = "enum_entry")]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { m: &'a mut HashMap<K, V>, x: Slot, k: Option<K> }
pub struct VacantEntry<'a, K, V> { m: &'a mut HashMap<K, V>, x: Slot, k: K }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K { match &self.k { Some(k) => k, None => kref(self.x) } }
    pub fn get(&self) -> &V { self.m.vr(self.x) }
    pub fn get_mut(&mut self) -> &mut V { self.m.vm(self.x) }
    #[inline] pub fn into_mut(self) -> &'a mut V { self.m.vm(self.x) }
    pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(self.m.vm(self.x), v) }
    pub fn remove(self) -> V { match self.m.tkx(self.x) { Some(v) => v, None => unreachable!() } }
    pub fn remove_entry(self) -> (K, V) { let x = self.x; (key(x), self.remove()) }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
    #[inline] pub fn insert(self, v: V) -> &'a mut V { let x = self.x; at!(x, I, { self.m.put::<I>(v); &mut *self.m.v[I] }) }
}
#[cfg(feature = "enum_entry")]
impl<'a, K, V> Entry<'a, K, V> {
    #[inline]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(f()) }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => { let x = f(v.key()); v.insert(x) } }
    }
    pub fn or_insert(self, d: V) -> &'a mut V { self.or_insert_with(move || d) }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(Default::default) }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
}
impl<'a, K: Eq + Hash, V, Q: ?Sized + Hash + Eq> Index<&'a Q> for HashMap<K, V> where K: Borrow<Q> {
    type Output = V;
    fn index(&self, q: &'a Q) -> &V { self.get(q).expect("no entry found for key") }
}
impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap::new() } }
impl<K, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self { let mut m = HashMap::new(); each!(I, if self.p >> I & 1 != 0 { m.put::<I>((*self.v[I]).clone()); }); m }
}
impl<K, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool { let mut e = self.p == o.p; each!(I, if e && self.p >> I & 1 != 0 { e = *self.v[I] == *o.v[I]; }); e }
}
impl<K, V: Eq> Eq for HashMap<K, V> {}
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = HashMap::new(); m.extend(it); m } }
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }

pub struct MapIter<'a, K, V> { m: &'a HashMap<K, V>, c: Cur }
impl<'a, K, V> Iterator for MapIter<'a, K, V> {
    type Item = (&'a K, &'a V);
    #[inline] fn next(&mut self) -> Option<Self::Item> { match self.c.next() { Some(x) => Some((kref(x), self.m.vr(x))), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.c.left())) }
}
impl<'a, K, V> Clone for MapIter<'a, K, V> { fn clone(&self) -> Self { MapIter { m: self.m, c: self.c.clone() } } }
pub struct MapIterMut<'a, K, V> { m: *mut HashMap<K, V>, c: Cur, _p: PhantomData<&'a mut HashMap<K, V>> }
impl<'a, K: 'a, V: 'a> Iterator for MapIterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    #[inline] fn next(&mut self) -> Option<Self::Item> { match self.c.next() { Some(x) => Some((kref(x), unsafe { &mut *self.m }.vm(x))), None => None } }
}
pub struct Keys<'a, K, V> { m: &'a HashMap<K, V>, c: Cur }
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    #[inline] fn next(&mut self) -> Option<&'a K> { let _ = self.m; match self.c.next() { Some(x) => Some(kref(x)), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.c.left())) }
    fn count(self) -> usize { self.c.left() }
}
impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys { m: self.m, c: self.c.clone() } } }
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> { fn len(&self) -> usize { self.c.left() } }
pub struct Values<'a, K, V> { m: &'a HashMap<K, V>, c: Cur }
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    #[inline] fn next(&mut self) -> Option<&'a V> { match self.c.next() { Some(x) => Some(self.m.vr(x)), None => None } }
}
pub struct ValuesMut<'a, K, V> { m: *mut HashMap<K, V>, c: Cur, _p: PhantomData<&'a mut HashMap<K, V>> }
impl<'a, K: 'a, V: 'a> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    #[inline] fn next(&mut self) -> Option<&'a mut V> { match self.c.next() { Some(x) => Some(unsafe { &mut *self.m }.vm(x)), None => None } }
}
pub struct MapDrain<'a, K, V> { m: &'a mut HashMap<K, V>, c: Cur }
impl<'a, K, V> Iterator for MapDrain<'a, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> { match self.c.next() { Some(x) => match self.m.tkx(x) { Some(v) => Some((key(x), v)), None => None }, None => None } }
}
impl<'a, K, V> Drop for MapDrain<'a, K, V> { fn drop(&mut self) { self.m.clear() } }
pub struct MapIntoIter<K, V> { m: HashMap<K, V>, c: Cur }
impl<K, V> Iterator for MapIntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> { match self.c.next() { Some(x) => match self.m.tkx(x) { Some(v) => Some((key(x), v)), None => None }, None => None } }
}
impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = MapIntoIter<K, V>; fn into_iter(self) -> MapIntoIter<K, V> { let c = Cur::new(self.p); MapIntoIter { m: self, c } } }
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = MapIter<'a, K, V>; fn into_iter(self) -> MapIter<'a, K, V> { self.iter() } }
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = MapIterMut<'a, K, V>; fn into_iter(self) -> MapIterMut<'a, K, V> { self.iter_mut() } }

pub struct HashSet<K, S = ()> { p: u8, _k: PhantomData<(K, S)> }
impl<K> HashSet<K> {
    #[inline] pub fn new() -> Self { HashSet { p: 0, _k: PhantomData } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
    pub fn capacity(&self) -> usize { CAP }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    #[inline] pub fn len(&self) -> usize { cnt(self.p) }
    #[inline] pub fn is_empty(&self) -> bool { self.p == 0 }
    #[inline] pub fn clear(&mut self) { self.p = 0 }
    #[inline] pub fn iter(&self) -> SetIter<'_, K> { SetIter { c: Cur::new(self.p), _p: PhantomData } }
    pub fn drain(&mut self) -> SetIntoIter<K> { let p = self.p; self.p = 0; SetIntoIter { c: Cur::new(p), _k: PhantomData } }
    pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) { each!(I, if self.p >> I & 1 != 0 && !f(kref(1 << I)) { self.p &= !(1 << I); }) }
    pub fn is_subset(&self, o: &Self) -> bool { self.p & !o.p == 0 }
    pub fn is_superset(&self, o: &Self) -> bool { o.p & !self.p == 0 }
    pub fn is_disjoint(&self, o: &Self) -> bool { o.p & self.p == 0 }
    pub fn union<'a>(&'a self, o: &'a Self) -> SetIter<'a, K> { SetIter { c: Cur::new(self.p | o.p), _p: PhantomData } }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> SetIter<'a, K> { SetIter { c: Cur::new(self.p & o.p), _p: PhantomData } }
    pub fn difference<'a>(&'a self, o: &'a Self) -> SetIter<'a, K> { SetIter { c: Cur::new(self.p & !o.p), _p: PhantomData } }
}
impl<K: Eq + Hash> HashSet<K> {
    #[inline] pub fn insert(&mut self, k: K) -> bool { let o = self.p; let b = slot(&k); self.p = o | b; o & b == 0 }
    #[inline] pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> bool where K: Borrow<Q> { let o = self.p; let b = slot(q); self.p = o & !b; o & b != 0 }
    #[inline] pub fn contains<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool where K: Borrow<Q> { self.p & slot(q) != 0 }
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<K> where K: Borrow<Q> { let x = slot(q); let o = self.p; self.p = o & !x; if o & x != 0 { Some(key(x)) } else { None } }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&K> where K: Borrow<Q> { let x = slot(q); if self.p & x != 0 { Some(kref(x)) } else { None } }
    pub fn replace(&mut self, k: K) -> Option<K> { if self.insert(k) { None } else { panic!("VSTD-LIMIT: HashSet::replace") } }
}
impl<K> Default for HashSet<K> { fn default() -> Self { HashSet::new() } }
impl<K> Clone for HashSet<K> { fn clone(&self) -> Self { HashSet { p: self.p, _k: PhantomData } } }
impl<K> PartialEq for HashSet<K> { fn eq(&self, o: &Self) -> bool { self.p == o.p } }
impl<K> Eq for HashSet<K> {}
impl<'a, K: Copy + Eq + Hash + 'a> Extend<&'a K> for HashSet<K> { fn extend<I: IntoIterator<Item = &'a K>>(&mut self, it: I) { for k in it { self.insert(*k); } } }
impl<K: Eq + Hash> Extend<K> for HashSet<K> { fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) { for k in it { self.insert(k); } } }
impl<K: Eq + Hash> FromIterator<K> for HashSet<K> { fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self { let mut m = HashSet::new(); for k in it { m.insert(k); } m } }
impl<K: fmt::Debug> fmt::Debug for HashSet<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
pub struct SetIter<'a, K> { c: Cur, _p: PhantomData<&'a K> }
impl<'a, K: 'a> Iterator for SetIter<'a, K> {
    type Item = &'a K;
    #[inline] fn next(&mut self) -> Option<&'a K> { match self.c.next() { Some(x) => Some(kref(x)), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.c.left())) }
    fn count(self) -> usize { self.c.left() }
}
impl<'a, K> Clone for SetIter<'a, K> { fn clone(&self) -> Self { SetIter { c: self.c.clone(), _p: PhantomData } } }
impl<'a, K: 'a> ExactSizeIterator for SetIter<'a, K> { fn len(&self) -> usize { self.c.left() } }
pub struct SetIntoIter<K> { c: Cur, _k: PhantomData<K> }
impl<K> Iterator for SetIntoIter<K> {
    type Item = K;
    #[inline] fn next(&mut self) -> Option<K> { match self.c.next() { Some(x) => Some(key(x)), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.c.left())) }
}
impl<K> IntoIterator for HashSet<K> { type Item = K; type IntoIter = SetIntoIter<K>; fn into_iter(self) -> SetIntoIter<K> { SetIntoIter { c: Cur::new(self.p), _k: PhantomData } } }
impl<'a, K> IntoIterator for &'a HashSet<K> { type Item = &'a K; type IntoIter = SetIter<'a, K>; fn into_iter(self) -> SetIter<'a, K> { self.iter() } }
