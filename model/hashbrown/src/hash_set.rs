//! `HashSet`: the part of the API that makes sense without looking at hashes.
use crate::verif::{nd, setup, DefaultHashBuilder};
use crate::TryReserveError;
use core::{
    borrow::Borrow,
    fmt,
    hash::{BuildHasher, Hash},
    iter::FusedIterator,
    marker::PhantomData,
};

#[cfg(kani)]
use crate::verif::CAP;
// Pointers and flags keep a set, and whatever a map stores it in, so small that symbolic execution
// tracks it field by field
#[cfg(kani)]
type Slots<T> = [*mut T; CAP];
#[cfg(kani)]
type Full = [bool; CAP];
#[cfg(not(kani))]
type Slots<T> = Vec<*mut T>;
#[cfg(not(kani))]
type Full = Vec<bool>;

/// The elements of a set
struct Store<T> {
    slots: Slots<T>,
    full: Full,
    items: u32,
    /// Whether there is a table: capacities are those of the real tables
    room: bool,
    marker: PhantomData<T>,
}

unsafe impl<T: Send> Send for Store<T> {}
unsafe impl<T: Sync> Sync for Store<T> {}

impl<T> Store<T> {
    #[inline]
    fn new() -> Self {
        Self {
            #[cfg(kani)]
            slots: [core::ptr::null_mut(); CAP],
            #[cfg(kani)]
            full: [false; CAP],
            #[cfg(not(kani))]
            slots: Vec::new(),
            #[cfg(not(kani))]
            full: Vec::new(),
            items: 0,
            room: false,
            marker: PhantomData,
        }
    }
    #[inline]
    fn with_room(room: bool) -> Self {
        let mut store = Self::new();
        store.room = room;
        store
    }
    #[inline]
    fn get(&self, i: usize) -> Option<&T> {
        if self.full[i] {
            Some(unsafe { &*self.slots[i] })
        } else {
            None
        }
    }
    #[inline]
    fn take(&mut self, i: usize) -> T {
        self.full[i] = false;
        self.items -= 1;
        let ptr = self.slots[i];
        let value = unsafe { core::ptr::read(ptr) };
        // As in `raw.rs`: the memory of an element is not reused under Kani
        #[cfg(not(kani))]
        unsafe {
            drop(Box::from_raw(ptr as *mut core::mem::MaybeUninit<T>))
        };
        value
    }
    #[inline]
    fn first(&mut self) -> Option<T> {
        let mut i = 0;
        while i < self.slots.len() {
            if self.full[i] {
                return Some(self.take(i));
            }
            i += 1;
        }
        None
    }
}

impl<T> Drop for Store<T> {
    #[inline]
    fn drop(&mut self) {
        #[cfg(kani)]
        if !core::mem::needs_drop::<T>() {
            return;
        }
        let mut i = 0;
        while i < self.slots.len() {
            if self.full[i] {
                drop(self.take(i));
            }
            i += 1;
        }
    }
}

/// A hash set.
pub struct HashSet<T, S = DefaultHashBuilder> {
    store: Store<T>,
    hash_builder: S,
}

impl<T> HashSet<T, DefaultHashBuilder> {
    #[inline]
    pub fn new() -> Self {
        Self::default()
    }
    #[inline]
    pub fn with_capacity(capacity: usize) -> Self {
        Self::with_capacity_and_hasher(capacity, DefaultHashBuilder::default())
    }
}

impl<T, S> HashSet<T, S> {
    #[inline]
    pub fn with_hasher(hash_builder: S) -> Self {
        Self {
            store: Store::new(),
            hash_builder,
        }
    }
    pub fn with_capacity_and_hasher(capacity: usize, hash_builder: S) -> Self {
        Self {
            store: Store::with_room(capacity != 0),
            hash_builder,
        }
    }
    pub fn hasher(&self) -> &S {
        &self.hash_builder
    }
    pub fn capacity(&self) -> usize {
        match self.store.items {
            0 if !self.store.room => 0,
            n if n < 4 => 3,
            n if n < 8 => 7,
            n => ((n as usize * 8 / 7).next_power_of_two() / 8) * 7,
        }
    }
    #[inline]
    pub fn len(&self) -> usize {
        self.store.items as usize
    }
    #[inline]
    pub fn is_empty(&self) -> bool {
        self.store.items == 0
    }
    #[inline]
    pub fn iter(&self) -> Iter<'_, T> {
        Iter {
            slots: self.store.slots.clone(),
            full: self.store.full.clone(),
            items: self.store.items,
            marker: PhantomData,
        }
    }
    pub fn drain(&mut self) -> Drain<'_, T> {
        Drain {
            inner: IntoIter {
                store: {
                    let room = self.store.room;
                    core::mem::replace(&mut self.store, Store::with_room(room))
                },
            },
            marker: PhantomData,
        }
    }
    pub fn clear(&mut self) {
        self.store = Store::with_room(self.store.room);
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        while i < self.store.slots.len() {
            let keep = match self.store.get(i) {
                Some(x) => f(x),
                None => true,
            };
            if !keep {
                drop(self.store.take(i));
            }
            i += 1;
        }
    }
}

impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
    #[inline]
    fn find<Q: ?Sized + Eq>(&self, value: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.store.slots.len() {
            if let Some(x) = self.store.get(i) {
                if value.eq(x.borrow()) {
                    return Some(x);
                }
            }
            i += 1;
        }
        None
    }

    // Only constant indices: that keeps the formula small
    #[cfg(kani)]
    #[inline]
    fn put(&mut self, value: T) -> *const T {
        let store = &mut self.store;
        assert!((store.items as usize) < CAP, "MODEL-CAPACITY exceeded");
        store.items += 1;
        store.room = true;
        // Any free slot would do: the first or the last one
        let last = if setup() { false } else { nd::flag() };
        let mut index = CAP;
        let mut i = 0;
        while i < CAP {
            if !store.full[i] && (last || index == CAP) {
                index = i;
            }
            i += 1;
        }
        let ptr = Box::into_raw(Box::new(value));
        let mut i = 0;
        while i < CAP {
            if i == index {
                store.slots[i] = ptr;
                store.full[i] = true;
            }
            i += 1;
        }
        ptr
    }

    #[cfg(not(kani))]
    fn put(&mut self, value: T) -> *const T {
        let store = &mut self.store;
        store.items += 1;
        store.room = true;
        let _ = setup();
        let ptr = Box::into_raw(Box::new(value));
        if !store.slots.is_empty() {
            let i = nd::pick(store.slots.len());
            if !store.full[i] {
                store.slots[i] = ptr;
                store.full[i] = true;
                return ptr;
            }
        }
        store.slots.push(ptr);
        store.full.push(true);
        let last = store.slots.len() - 1;
        let i = nd::pick(last + 1);
        store.slots.swap(i, last);
        store.full.swap(i, last);
        ptr
    }

    pub fn reserve(&mut self, additional: usize) {
        self.store.room |= additional != 0;
    }
    pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
        self.reserve(additional);
        Ok(())
    }
    pub fn shrink_to_fit(&mut self) {
        self.shrink_to(0);
    }
    pub fn shrink_to(&mut self, min_capacity: usize) {
        self.store.room &= self.store.items != 0 || min_capacity != 0;
    }

    #[inline]
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, value: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.find(value).is_some()
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, value: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        self.find(value)
    }
    #[inline]
    pub fn insert(&mut self, value: T) -> bool {
        if self.find::<T>(&value).is_some() {
            return false;
        }
        self.put(value);
        true
    }
    pub fn replace(&mut self, value: T) -> Option<T> {
        let old = self.take::<T>(&value);
        self.put(value);
        old
    }
    #[inline]
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, value: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.take(value).is_some()
    }
    #[inline]
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, value: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.store.slots.len() {
            let there = match self.store.get(i) {
                Some(x) => value.eq(x.borrow()),
                None => false,
            };
            if there {
                return Some(self.store.take(i));
            }
            i += 1;
        }
        None
    }
    pub fn get_or_insert(&mut self, value: T) -> &T {
        let mut i = 0;
        while i < self.store.slots.len() {
            let there = match self.store.get(i) {
                Some(x) => value.eq(x),
                None => false,
            };
            if there {
                break;
            }
            i += 1;
        }
        if i < self.store.slots.len() {
            return self.store.get(i).unwrap();
        }
        let last: *const T = self.put(value);
        unsafe { &*last }
    }
    pub fn difference<'a>(&'a self, other: &'a Self) -> Among<'a, T, S> {
        Among { iter: self.iter(), other, inside: false }
    }
    pub fn intersection<'a>(&'a self, other: &'a Self) -> Among<'a, T, S> {
        Among { iter: self.iter(), other, inside: true }
    }
    pub fn union<'a>(&'a self, other: &'a Self) -> core::iter::Chain<Iter<'a, T>, Among<'a, T, S>> {
        self.iter().chain(other.difference(self))
    }
    pub fn symmetric_difference<'a>(
        &'a self,
        other: &'a Self,
    ) -> core::iter::Chain<Among<'a, T, S>, Among<'a, T, S>> {
        self.difference(other).chain(other.difference(self))
    }
    pub fn is_subset(&self, other: &Self) -> bool {
        self.len() <= other.len() && self.iter().all(|v| other.contains(v))
    }
    pub fn is_superset(&self, other: &Self) -> bool {
        other.is_subset(self)
    }
    pub fn is_disjoint(&self, other: &Self) -> bool {
        self.iter().all(|v| !other.contains(v))
    }
}

impl<T: Clone, S: Clone> Clone for HashSet<T, S> {
    fn clone(&self) -> Self {
        let mut store = Store::new();
        #[cfg(not(kani))]
        {
            store.slots = vec![core::ptr::null_mut(); self.store.slots.len()];
        }
        store.full = self.store.full.clone();
        store.items = self.store.items;
        store.room = self.store.room;
        let mut i = 0;
        while i < self.store.slots.len() {
            if let Some(x) = self.store.get(i) {
                store.slots[i] = Box::into_raw(Box::new(x.clone()));
            }
            i += 1;
        }
        Self {
            store,
            hash_builder: self.hash_builder.clone(),
        }
    }
}

impl<T, S: Default> Default for HashSet<T, S> {
    #[inline]
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}

impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
    fn eq(&self, other: &Self) -> bool {
        self.len() == other.len() && self.iter().all(|v| other.contains(v))
    }
}
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}

impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}

impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for x in iter {
            self.insert(x);
        }
    }
}
impl<'a, T: 'a + Eq + Hash + Copy, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
        for x in iter {
            self.insert(*x);
        }
    }
}
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut set = Self::default();
        set.extend(iter);
        set
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, DefaultHashBuilder> {
    fn from(arr: [T; N]) -> Self {
        arr.into_iter().collect()
    }
}

/// An iterator over the items of a `HashSet`.
pub struct Iter<'a, T> {
    slots: Slots<T>,
    /// What is still to come
    full: Full,
    items: u32,
    marker: PhantomData<&'a T>,
}

impl<T> Clone for Iter<'_, T> {
    #[inline]
    fn clone(&self) -> Self {
        Self {
            slots: self.slots.clone(),
            full: self.full.clone(),
            items: self.items,
            marker: PhantomData,
        }
    }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    #[inline]
    fn next(&mut self) -> Option<&'a T> {
        let mut i = 0;
        while i < self.slots.len() {
            if self.full[i] {
                self.full[i] = false;
                self.items -= 1;
                return Some(unsafe { &*self.slots[i] });
            }
            i += 1;
        }
        None
    }
    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.items as usize, Some(self.items as usize))
    }
}
impl<T> ExactSizeIterator for Iter<'_, T> {
    #[inline]
    fn len(&self) -> usize {
        self.items as usize
    }
}
impl<T> FusedIterator for Iter<'_, T> {}
impl<T: fmt::Debug> fmt::Debug for Iter<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}

/// The elements of a set that are in another one, or that are not.
pub struct Among<'a, T, S> {
    iter: Iter<'a, T>,
    other: &'a HashSet<T, S>,
    inside: bool,
}
impl<'a, T: Eq + Hash, S: BuildHasher> Iterator for Among<'a, T, S> {
    type Item = &'a T;
    #[inline]
    fn next(&mut self) -> Option<&'a T> {
        loop {
            let x = self.iter.next()?;
            if self.other.contains(x) == self.inside {
                return Some(x);
            }
        }
    }
}

/// An owning iterator over the items of a `HashSet`.
pub struct IntoIter<T> {
    store: Store<T>,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    #[inline]
    fn next(&mut self) -> Option<T> {
        self.store.first()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.store.items as usize, Some(self.store.items as usize))
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> FusedIterator for IntoIter<T> {}

/// A draining iterator over the items of a `HashSet`.
pub struct Drain<'a, T> {
    inner: IntoIter<T>,
    marker: PhantomData<&'a mut T>,
}
impl<T> Iterator for Drain<'_, T> {
    type Item = T;
    #[inline]
    fn next(&mut self) -> Option<T> {
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<T> ExactSizeIterator for Drain<'_, T> {}
impl<T> FusedIterator for Drain<'_, T> {}

impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { store: self.store }
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
