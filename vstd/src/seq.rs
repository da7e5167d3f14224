//! Bounded models of `Vec` (as a shifting stack: no symbolic index on
//! push/pop) and `VecDeque`.
use crate::model::un;
use ::std::fmt;
use ::std::iter::FromIterator;
use ::std::marker::PhantomData;
use ::std::mem::ManuallyDrop;
use ::std::ptr;

#[cfg(feature = "vec6")]
pub const VCAP: usize = 6;
#[cfg(all(feature = "cap4", not(feature = "vec6")))]
pub const VCAP: usize = 4;
#[cfg(not(any(feature = "cap4", feature = "vec6")))]
pub const VCAP: usize = 3;

#[cfg(feature = "vec6")]
macro_rules! vsel { ({$($a:tt)*} {$($b:tt)*} {$($c:tt)*}) => { $($a)* } }
#[cfg(all(feature = "cap4", not(feature = "vec6")))]
macro_rules! vsel { ({$($a:tt)*} {$($b:tt)*} {$($c:tt)*}) => { $($b)* } }
#[cfg(not(any(feature = "cap4", feature = "vec6")))]
macro_rules! vsel { ({$($a:tt)*} {$($b:tt)*} {$($c:tt)*}) => { $($c)* } }

/// `d[0]` is the last element, `d[n-1]` the first.
pub struct Vec<T> { d: [ManuallyDrop<T>; VCAP], n: usize }

vsel! {
    { macro_rules! at6 { ($x:expr, $i:ident, $e:expr) => { match $x { 0 => { const $i: usize = 0; $e } 1 => { const $i: usize = 1; $e } 2 => { const $i: usize = 2; $e } 3 => { const $i: usize = 3; $e } 4 => { const $i: usize = 4; $e } _ => { const $i: usize = 5; $e } } } } }
    { macro_rules! at6 { ($x:expr, $i:ident, $e:expr) => { match $x { 0 => { const $i: usize = 0; $e } 1 => { const $i: usize = 1; $e } 2 => { const $i: usize = 2; $e } _ => { const $i: usize = 3; $e } } } } }
    { macro_rules! at6 { ($x:expr, $i:ident, $e:expr) => { match $x { 0 => { const $i: usize = 0; $e } 1 => { const $i: usize = 1; $e } _ => { const $i: usize = 2; $e } } } } }
}

impl<T> Vec<T> {
    #[inline] pub fn new() -> Self { Vec { d: vsel! { {[un(), un(), un(), un(), un(), un()]} {[un(), un(), un(), un()]} {[un(), un(), un()]} }, n: 0 } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn capacity(&self) -> usize { VCAP }
    #[inline] pub fn len(&self) -> usize { self.n }
    #[inline] pub fn is_empty(&self) -> bool { self.n == 0 }
    #[inline]
    pub fn push(&mut self, t: T) {
        if self.n >= VCAP { panic!("VSTD-LIMIT: vector longer than modelled") }
        self.n += 1;
        unsafe {
            #[cfg(feature = "vec6")]
            { self.d[5] = ptr::read(&self.d[4]); self.d[4] = ptr::read(&self.d[3]); }
            #[cfg(any(feature = "vec6", feature = "cap4"))]
            { self.d[3] = ptr::read(&self.d[2]); }
            self.d[2] = ptr::read(&self.d[1]);
            self.d[1] = ptr::read(&self.d[0]);
        }
        self.d[0] = ManuallyDrop::new(t);
    }
    #[inline]
    pub fn pop(&mut self) -> Option<T> {
        if self.n == 0 { return None }
        self.n -= 1;
        unsafe {
            let t = ManuallyDrop::take(&mut self.d[0]);
            self.d[0] = ptr::read(&self.d[1]);
            self.d[1] = ptr::read(&self.d[2]);
            #[cfg(any(feature = "vec6", feature = "cap4"))]
            { self.d[2] = ptr::read(&self.d[3]); }
            #[cfg(feature = "vec6")]
            { self.d[3] = ptr::read(&self.d[4]); self.d[4] = ptr::read(&self.d[5]); }
            Some(t)
        }
    }
    #[inline] fn tk(&mut self, j: usize) -> T { at6!(j, I, unsafe { ManuallyDrop::take(&mut self.d[I]) }) }
    #[inline] fn rf(&self, j: usize) -> &T { at6!(j, I, &*self.d[I]) }
    #[inline] fn rm(&mut self, j: usize) -> &mut T { at6!(j, I, &mut *self.d[I]) }
    pub fn clear(&mut self) { while let Some(x) = self.pop() { drop(x) } }
    pub fn get(&self, i: usize) -> Option<&T> { if i < self.n { Some(self.rf(self.n - 1 - i)) } else { None } }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> { if i < self.n { let j = self.n - 1 - i; Some(self.rm(j)) } else { None } }
    pub fn last(&self) -> Option<&T> { if self.n > 0 { Some(&*self.d[0]) } else { None } }
    pub fn last_mut(&mut self) -> Option<&mut T> { if self.n > 0 { Some(&mut *self.d[0]) } else { None } }
    pub fn first(&self) -> Option<&T> { self.get(0) }
    pub fn iter(&self) -> SeqIter<'_, T> { SeqIter { v: self, i: 0 } }
    pub fn contains(&self, x: &T) -> bool where T: PartialEq { for y in self.iter() { if y == x { return true } } false }
    pub fn drain(&mut self, _r: ::std::ops::RangeFull) -> SeqIntoIter<T> { let v = ::std::mem::replace(self, Vec::new()); v.into_iter() }
    pub fn append(&mut self, o: &mut Vec<T>) { let v = ::std::mem::replace(o, Vec::new()); self.extend(v) }
    pub fn remove(&mut self, i: usize) -> T {
        if i >= self.n { panic!("removal index out of bounds") }
        let old = ::std::mem::replace(self, Vec::new());
        let mut r = None;
        let mut k = 0;
        for x in old { if k == i { r = Some(x) } else { self.push(x) } k += 1; }
        match r { Some(x) => x, None => unreachable!() }
    }
    pub fn extend_from_slice(&mut self, o: &[T]) where T: Clone { for x in o { self.push(x.clone()) } }
}
impl<T> Drop for Vec<T> { fn drop(&mut self) { if ::std::mem::needs_drop::<T>() { self.clear() } } }
impl<T> Default for Vec<T> { fn default() -> Self { Vec::new() } }
impl<T: Clone> Clone for Vec<T> { fn clone(&self) -> Self { let mut v = Vec::new(); for x in self.iter() { v.push(x.clone()) } v } }
impl<T: fmt::Debug> fmt::Debug for Vec<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(self.iter()).finish() } }
impl<T> Extend<T> for Vec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.push(x) } } }
impl<'a, T: Copy + 'a> Extend<&'a T> for Vec<T> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for x in it { self.push(*x) } } }
impl<T> FromIterator<T> for Vec<T> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut v = Vec::new(); for x in it { v.push(x) } v } }
impl<T> ::std::ops::Index<usize> for Vec<T> { type Output = T; fn index(&self, i: usize) -> &T { self.get(i).expect("index out of bounds") } }
impl<T> ::std::ops::IndexMut<usize> for Vec<T> { fn index_mut(&mut self, i: usize) -> &mut T { self.get_mut(i).expect("index out of bounds") } }
pub struct SeqIter<'a, T> { v: &'a Vec<T>, i: usize }
impl<'a, T> Iterator for SeqIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> { if self.i == VCAP || self.i >= self.v.n { return None } let j = self.v.n - 1 - self.i; self.i += 1; Some(self.v.rf(j)) }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(VCAP)) }
}
impl<'a, T> DoubleEndedIterator for SeqIter<'a, T> { fn next_back(&mut self) -> Option<&'a T> { panic!("VSTD-LIMIT: reverse iteration") } }
pub struct SeqIntoIter<T> { v: Vec<T>, i: usize, }
impl<T> Iterator for SeqIntoIter<T> {
    type Item = T;
    #[inline]
    fn next(&mut self) -> Option<T> { if self.i == VCAP || self.i >= self.v.n { return None } let j = self.v.n - 1 - self.i; self.i += 1; Some(self.v.tk(j)) }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(VCAP)) }
}
impl<T> Drop for SeqIntoIter<T> { fn drop(&mut self) { if ::std::mem::needs_drop::<T>() { while let Some(x) = self.next() { drop(x) } } self.v.n = 0; } }
impl<T> IntoIterator for Vec<T> { type Item = T; type IntoIter = SeqIntoIter<T>; fn into_iter(self) -> SeqIntoIter<T> { SeqIntoIter { v: self, i: 0 } } }
impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T; type IntoIter = SeqIter<'a, T>; fn into_iter(self) -> SeqIter<'a, T> { self.iter() } }

pub struct VecDeque<T> { v: Vec<T>, _p: PhantomData<T> }
impl<T> VecDeque<T> {
    pub fn new() -> Self { VecDeque { v: Vec::new(), _p: PhantomData } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn push_back(&mut self, t: T) { self.v.push(t) }
    pub fn pop_back(&mut self) -> Option<T> { self.v.pop() }
    pub fn pop_front(&mut self) -> Option<T> { if self.v.n == 0 { return None } self.v.n -= 1; let j = self.v.n; Some(self.v.tk(j)) }
    pub fn push_front(&mut self, t: T) {
        let old = ::std::mem::replace(&mut self.v, Vec::new());
        self.v.push(t);
        for x in old { self.v.push(x) }
    }
    pub fn iter(&self) -> SeqIter<'_, T> { self.v.iter() }
    pub fn contains(&self, x: &T) -> bool where T: PartialEq { self.v.contains(x) }
}
impl<T> Default for VecDeque<T> { fn default() -> Self { Self::new() } }
impl<T> Extend<T> for VecDeque<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.push_back(x) } } }
impl<'a, T: Copy + 'a> Extend<&'a T> for VecDeque<T> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for x in it { self.push_back(*x) } } }
impl<T> FromIterator<T> for VecDeque<T> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut v = Self::new(); v.extend(it); v } }
impl<T> IntoIterator for VecDeque<T> { type Item = T; type IntoIter = SeqIntoIter<T>; fn into_iter(self) -> SeqIntoIter<T> { self.v.into_iter() } }
