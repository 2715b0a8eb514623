//! `RawTable` and its iterators.
use crate::verif::{nd, setup, wide};
use crate::TryReserveError;
use core::{fmt, iter::FusedIterator, marker::PhantomData, mem, ptr};

#[cfg(kani)]
use crate::verif::CAP;
#[cfg(kani)]
type Slots<T> = [*mut T; CAP];
#[cfg(kani)]
type Hashes = [u64; CAP];
/// Which slots are full. Apart from the pointers because "is this pointer null" is not something
/// that symbolic execution simplifies.
#[cfg(kani)]
type Full = [bool; CAP];
#[cfg(not(kani))]
type Slots<T> = Vec<*mut T>;
#[cfg(not(kani))]
type Hashes = Vec<u64>;
#[cfg(not(kani))]
type Full = Vec<bool>;

/// More buckets than this can't be allocated
const MAX_CAPACITY: usize = (isize::MAX as usize) / 16;

/// A reference to a table bucket containing a `T`.
pub struct Bucket<T> {
    ptr: *mut T,
    index: usize,
}

unsafe impl<T> Send for Bucket<T> {}

impl<T> Clone for Bucket<T> {
    #[inline]
    fn clone(&self) -> Self {
        Self {
            ptr: self.ptr,
            index: self.index,
        }
    }
}

impl<T> Bucket<T> {
    #[inline]
    pub fn as_ptr(&self) -> *mut T {
        self.ptr
    }
    #[inline]
    pub unsafe fn drop(&self) {
        self.ptr.drop_in_place()
    }
    #[inline]
    pub unsafe fn read(&self) -> T {
        self.ptr.read()
    }
    #[inline]
    pub unsafe fn write(&self, val: T) {
        self.ptr.write(val)
    }
    #[inline]
    pub unsafe fn as_ref<'a>(&self) -> &'a T {
        &*self.ptr
    }
    #[inline]
    pub unsafe fn as_mut<'a>(&self) -> &'a mut T {
        &mut *self.ptr
    }
    #[inline]
    pub unsafe fn copy_from_nonoverlapping(&self, other: &Self) {
        self.ptr.copy_from_nonoverlapping(other.ptr, 1)
    }
}

/// A raw hash table with an unsafe API.
pub struct RawTable<T> {
    slots: Slots<T>,
    full: Full,
    hashes: Hashes,
    items: usize,
    /// Elements that can be inserted without growing
    growth_left: usize,
    /// Whether the table is iterated backwards
    rev: bool,
    marker: PhantomData<T>,
}

unsafe impl<T: Send> Send for RawTable<T> {}
unsafe impl<T: Sync> Sync for RawTable<T> {}

#[inline]
fn dealloc<T>(ptr: *mut T) {
    unsafe { drop(Box::from_raw(ptr as *mut mem::ManuallyDrop<T>)) }
}

#[inline]
fn h2(hash: u64) -> u64 {
    hash >> 57
}

/// The capacity of a table that was asked for room for `n` elements
fn usable(n: usize) -> usize {
    #[cfg(kani)]
    {
        if setup() {
            return n;
        }
        let c = nd::any_usize();
        nd::assume(if n == 0 {
            c == 0
        } else {
            c >= n && c <= n.saturating_mul(2).saturating_add(2)
        });
        c
    }
    #[cfg(not(kani))]
    {
        if n == 0 {
            0
        } else if n < 4 {
            3
        } else if n < 8 {
            7
        } else {
            (n * 8 / 7).next_power_of_two() / 8 * 7
        }
    }
}

impl<T> RawTable<T> {
    #[inline]
    pub const fn new() -> Self {
        Self {
            #[cfg(kani)]
            slots: [ptr::null_mut(); CAP],
            #[cfg(kani)]
            full: [false; CAP],
            #[cfg(kani)]
            hashes: [0; CAP],
            #[cfg(not(kani))]
            slots: Vec::new(),
            #[cfg(not(kani))]
            full: Vec::new(),
            #[cfg(not(kani))]
            hashes: Vec::new(),
            items: 0,
            growth_left: 0,
            rev: false,
            marker: PhantomData,
        }
    }

    pub fn try_with_capacity(capacity: usize) -> Result<Self, TryReserveError> {
        if capacity > MAX_CAPACITY {
            return Err(TryReserveError::CapacityOverflow);
        }
        let mut table = Self::new();
        table.growth_left = usable(capacity);
        Ok(table)
    }

    pub fn with_capacity(capacity: usize) -> Self {
        match Self::try_with_capacity(capacity) {
            Ok(table) => table,
            Err(_) => panic!("Hash table capacity overflow"),
        }
    }

    #[inline]
    fn slots(&self) -> usize {
        self.slots.len()
    }

    #[inline]
    unsafe fn check(&self, item: &Bucket<T>) {
        let mut there = false;
        let mut i = 0;
        while i < self.slots() {
            there |= i == item.index && self.full[i];
            i += 1;
        }
        assert!(there, "a bucket was used after its element had been removed");
    }

    #[inline]
    pub unsafe fn bucket_index(&self, bucket: &Bucket<T>) -> usize {
        bucket.index
    }

    #[inline]
    pub unsafe fn bucket(&self, index: usize) -> Bucket<T> {
        let mut ptr = ptr::null_mut();
        let mut i = 0;
        while i < self.slots() {
            if i == index {
                ptr = self.slots[i];
            }
            i += 1;
        }
        Bucket { ptr, index }
    }

    #[inline]
    fn take_slot(&mut self, index: usize) {
        // Constant indices keep the formula small
        let mut i = 0;
        while i < self.slots() {
            if i == index {
                self.full[i] = false;
            }
            i += 1;
        }
        self.items -= 1;
        // The slot may become a tombstone
        if setup() || nd::flag() {
            self.growth_left += 1;
        }
    }

    pub unsafe fn erase_no_drop(&mut self, item: &Bucket<T>) {
        self.check(item);
        self.take_slot(item.index);
        // The memory stays readable as it does in a real table
    }

    pub unsafe fn erase(&mut self, item: Bucket<T>) {
        drop(self.remove(item));
    }

    pub fn erase_entry(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> bool {
        self.remove_entry(hash, eq).is_some()
    }

    #[inline]
    pub unsafe fn remove(&mut self, item: Bucket<T>) -> T {
        self.check(&item);
        self.take_slot(item.index);
        let value = item.ptr.read();
        dealloc(item.ptr);
        value
    }

    #[inline]
    pub fn remove_entry(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<T> {
        match self.find(hash, eq) {
            Some(bucket) => Some(unsafe { self.remove(bucket) }),
            None => None,
        }
    }

    pub fn clear_no_drop(&mut self) {
        let capacity = self.capacity();
        let mut i = 0;
        while i < self.slots() {
            if self.full[i] {
                dealloc(self.slots[i]);
                self.full[i] = false;
            }
            i += 1;
        }
        self.reset(capacity);
    }

    pub fn clear(&mut self) {
        let capacity = self.capacity();
        self.drop_elements();
        self.reset(capacity);
    }

    // Tombstones are gone, so the capacity is the full one again
    fn reset(&mut self, capacity: usize) {
        self.items = 0;
        #[cfg(kani)]
        if !setup() {
            let full = nd::any_usize();
            nd::assume(full >= capacity && full - capacity <= 8 && (capacity > 0 || full <= 8));
            self.growth_left = full;
            return;
        }
        self.growth_left = capacity;
    }

    fn drop_elements(&mut self) {
        let mut i = 0;
        while i < self.slots() {
            let ptr = self.slots[i];
            if self.full[i] {
                self.full[i] = false;
                self.items -= 1;
                unsafe { drop(Box::from_raw(ptr)) };
            }
            i += 1;
        }
    }

    fn rehash(&mut self, hasher: &impl Fn(&T) -> u64) {
        let mut i = 0;
        while i < self.slots() {
            if self.full[i] {
                self.hashes[i] = hasher(unsafe { &*self.slots[i] });
            }
            i += 1;
        }
    }

    pub fn shrink_to(&mut self, min_size: usize, hasher: impl Fn(&T) -> u64) {
        let min_size = core::cmp::max(self.items, min_size);
        if min_size == 0 {
            self.growth_left = 0;
            return;
        }
        if min_size < self.capacity() && (setup() || nd::flag()) {
            let capacity = usable(min_size);
            if capacity < self.capacity() {
                self.growth_left = capacity - self.items;
                self.rehash(&hasher);
            }
        }
    }

    pub fn reserve(&mut self, additional: usize, hasher: impl Fn(&T) -> u64) {
        if self.try_reserve(additional, hasher).is_err() {
            panic!("Hash table capacity overflow");
        }
    }

    pub fn try_reserve(
        &mut self,
        additional: usize,
        hasher: impl Fn(&T) -> u64,
    ) -> Result<(), TryReserveError> {
        if additional <= self.growth_left {
            return Ok(());
        }
        let n = match self.items.checked_add(additional) {
            Some(n) if n <= MAX_CAPACITY => n,
            _ => return Err(TryReserveError::CapacityOverflow),
        };
        let mut capacity = usable(n);
        if capacity <= self.capacity() {
            capacity = self.capacity();
        }
        self.growth_left = capacity - self.items;
        self.rehash(&hasher);
        Ok(())
    }

    #[cfg(kani)]
    #[inline]
    fn free_slot(&mut self) -> usize {
        assert!(self.items < CAP, "MODEL-CAPACITY exceeded");
        if setup() {
            let pref = unsafe { crate::verif::PREF };
            if !self.full[pref] {
                return pref;
            }
            let mut i = 0;
            while i < CAP {
                if !self.full[i] {
                    return i;
                }
                i += 1;
            }
            unreachable!()
        }
        // Any free slot would do: the first or the last one
        let last = nd::flag();
        let mut index = CAP;
        let mut i = 0;
        while i < CAP {
            if !self.full[i] && (last || index == CAP) {
                index = i;
            }
            i += 1;
        }
        index
    }

    #[cfg(not(kani))]
    fn free_slot(&mut self) -> usize {
        let len = self.slots.len();
        if len > 0 {
            let start = nd::pick(len);
            for k in 0..4.min(len) {
                let i = (start + k) % len;
                if !self.full[i] {
                    return i;
                }
            }
        }
        self.slots.push(ptr::null_mut());
        self.full.push(false);
        self.hashes.push(0);
        let i = nd::pick(len + 1);
        if !self.full[i] {
            return i;
        }
        len
    }

    #[inline]
    fn put(&mut self, hash: u64, value: T) -> Bucket<T> {
        if self.items == 0 {
            self.rev = crate::verif::direction();
        }
        let index = self.free_slot();
        let ptr = Box::into_raw(Box::new(value));
        let mut i = 0;
        while i < self.slots() {
            if i == index {
                self.slots[i] = ptr;
                self.full[i] = true;
                self.hashes[i] = hash;
            }
            i += 1;
        }
        self.items += 1;
        Bucket { ptr, index }
    }

    #[inline]
    pub fn insert(&mut self, hash: u64, value: T, hasher: impl Fn(&T) -> u64) -> Bucket<T> {
        if setup() {
            self.growth_left = self.growth_left.saturating_sub(1);
            return self.put(hash, value);
        }
        // With no room left the table grows, unless the element takes the place of a tombstone
        if self.growth_left == 0 {
            if self.items == 0 || nd::flag() {
                unsafe { crate::verif::GROWTHS += 1 };
                #[cfg(kani)]
                {
                    let room = nd::any_usize();
                    nd::assume(room >= 1 && room <= 64);
                    self.growth_left = room - 1;
                }
                #[cfg(not(kani))]
                {
                    self.growth_left = usable(self.items + 1) - self.items - 1;
                }
                self.rehash(&hasher);
            }
        } else {
            self.growth_left -= 1;
        }
        self.put(hash, value)
    }

    pub fn try_insert_no_grow(&mut self, hash: u64, value: T) -> Result<Bucket<T>, T> {
        if self.growth_left == 0 {
            return Err(value);
        }
        Ok(unsafe { self.insert_no_grow(hash, value) })
    }

    pub fn insert_entry(&mut self, hash: u64, value: T, hasher: impl Fn(&T) -> u64) -> &mut T {
        unsafe { self.insert(hash, value, hasher).as_mut() }
    }

    pub unsafe fn insert_no_grow(&mut self, hash: u64, value: T) -> Bucket<T> {
        self.growth_left = self.growth_left.saturating_sub(1);
        self.put(hash, value)
    }

    pub unsafe fn replace_bucket_with<F>(&mut self, bucket: Bucket<T>, f: F) -> bool
    where
        F: FnOnce(T) -> Option<T>,
    {
        self.check(&bucket);
        match f(bucket.read()) {
            Some(value) => {
                bucket.write(value);
                true
            }
            None => {
                self.take_slot(bucket.index);
                dealloc(bucket.ptr);
                false
            }
        }
    }

    #[inline]
    pub fn find(&self, hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<Bucket<T>> {
        let wide = wide();
        let mut i = 0;
        while i < self.slots() {
            let ptr = self.slots[i];
            if self.full[i] {
                let h = self.hashes[i];
                // `eq` first: a table may show any element to `eq`, and most of these tests are decided
                // during symbolic execution, unlike those of hashes
                if eq(unsafe { &*ptr }) {
                    let seen = setup() || h == hash || (wide && h2(h) == h2(hash));
                    // Nearly always, an element that is looked for is looked for by its hash. Then
                    // there is no need to look at what happens if it is not.
                    #[cfg(all(kani, not(branchy)))]
                    assert!(seen, "MODEL-HASH: an element is looked for by another hash");
                    #[cfg(not(all(kani, not(branchy))))]
                    if !seen {
                        i += 1;
                        continue;
                    }
                    return Some(Bucket { ptr, index: i });
                }
            }
            i += 1;
        }
        None
    }

    #[inline]
    pub fn get(&self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<&T> {
        match self.find(hash, eq) {
            Some(bucket) => Some(unsafe { &*bucket.ptr }),
            None => None,
        }
    }

    #[inline]
    pub fn get_mut(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<&mut T> {
        match self.find(hash, eq) {
            Some(bucket) => Some(unsafe { &mut *bucket.ptr }),
            None => None,
        }
    }

    pub fn get_many_mut<const N: usize>(
        &mut self,
        hashes: [u64; N],
        mut eq: impl FnMut(usize, &T) -> bool,
    ) -> Option<[&'_ mut T; N]> {
        let mut ptrs = [ptr::null_mut::<T>(); N];
        for i in 0..N {
            ptrs[i] = self.find(hashes[i], |k| eq(i, k))?.ptr;
            for j in 0..i {
                if ptrs[i] == ptrs[j] {
                    return None;
                }
            }
        }
        Some(ptrs.map(|p| unsafe { &mut *p }))
    }

    #[inline]
    pub fn capacity(&self) -> usize {
        self.items + self.growth_left
    }

    #[inline]
    pub fn len(&self) -> usize {
        self.items
    }

    #[inline]
    pub fn is_empty(&self) -> bool {
        self.items == 0
    }

    #[inline]
    pub fn buckets(&self) -> usize {
        self.slots()
    }

    #[inline]
    pub unsafe fn iter(&self) -> RawIter<T> {
        let mut slots = self.slots.clone();
        let mut full = self.full.clone();
        if self.rev {
            let mut i = 0;
            while i < self.slots() {
                slots[i] = self.slots[self.slots() - 1 - i];
                full[i] = self.full[self.slots() - 1 - i];
                i += 1;
            }
        }
        RawIter {
            slots,
            full,
            rev: self.rev,
            items: self.items,
        }
    }

    pub unsafe fn iter_hash(&self, hash: u64) -> RawIterHash<'_, T> {
        RawIterHash {
            table: self,
            hash,
            next: 0,
        }
    }

    pub fn drain(&mut self) -> RawDrain<'_, T> {
        let iter = unsafe { self.iter() };
        unsafe { self.drain_iter_from(iter) }
    }

    pub unsafe fn drain_iter_from(&mut self, iter: RawIter<T>) -> RawDrain<'_, T> {
        let capacity = self.capacity();
        let orig: *mut Self = self;
        // The table is empty while it is being drained
        mem::forget(mem::replace(self, Self::new()));
        RawDrain {
            iter,
            orig,
            capacity,
            marker: PhantomData,
        }
    }

    pub unsafe fn into_iter_from(self, iter: RawIter<T>) -> RawIntoIter<T> {
        mem::forget(self);
        RawIntoIter { iter }
    }
}

impl<T: Clone> Clone for RawTable<T> {
    fn clone(&self) -> Self {
        let mut new = Self::new();
        #[cfg(not(kani))]
        {
            new.slots = vec![ptr::null_mut(); self.slots()];
        }
        new.full = self.full.clone();
        new.hashes = self.hashes.clone();
        let mut i = 0;
        while i < self.slots() {
            let ptr = self.slots[i];
            if self.full[i] {
                new.slots[i] = Box::into_raw(Box::new(unsafe { (*ptr).clone() }));
                new.items += 1;
            }
            i += 1;
        }
        new.growth_left = self.growth_left;
        new.rev = self.rev;
        new
    }
}

impl<T> Default for RawTable<T> {
    #[inline]
    fn default() -> Self {
        Self::new()
    }
}

impl<T> Drop for RawTable<T> {
    #[inline]
    fn drop(&mut self) {
        // What is left in a table at the end of a symbolic execution is of no interest, unless
        // the elements watch their own drops
        #[cfg(kani)]
        if !mem::needs_drop::<T>() {
            return;
        }
        self.drop_elements();
    }
}

impl<T> IntoIterator for RawTable<T> {
    type Item = T;
    type IntoIter = RawIntoIter<T>;
    fn into_iter(self) -> RawIntoIter<T> {
        unsafe {
            let iter = self.iter();
            self.into_iter_from(iter)
        }
    }
}

impl<T> fmt::Debug for RawTable<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RawTable")
    }
}

/// Iterator over the full buckets of a table.
pub struct RawIter<T> {
    slots: Slots<T>,
    /// What is still to come, in order
    full: Full,
    rev: bool,
    items: usize,
}

unsafe impl<T> Send for RawIter<T> {}

impl<T> RawIter<T> {
    #[inline]
    fn index(&self, i: usize) -> usize {
        if self.rev {
            self.slots.len() - 1 - i
        } else {
            i
        }
    }
    pub fn reflect_remove(&mut self, b: &Bucket<T>) {
        let mut i = 0;
        while i < self.slots.len() {
            if self.full[i] && self.index(i) == b.index {
                self.full[i] = false;
                self.items -= 1;
            }
            i += 1;
        }
    }
    unsafe fn drop_elements(&mut self) {
        while let Some(b) = self.next() {
            drop(Box::from_raw(b.ptr));
        }
    }
}

impl<T> Clone for RawIter<T> {
    #[inline]
    fn clone(&self) -> Self {
        Self {
            slots: self.slots.clone(),
            full: self.full.clone(),
            rev: self.rev,
            items: self.items,
        }
    }
}

impl<T> Iterator for RawIter<T> {
    type Item = Bucket<T>;

    #[inline]
    fn next(&mut self) -> Option<Bucket<T>> {
        let mut i = 0;
        while i < self.slots.len() {
            let ptr = self.slots[i];
            if self.full[i] {
                self.full[i] = false;
                self.items -= 1;
                return Some(Bucket {
                    ptr,
                    index: self.index(i),
                });
            }
            i += 1;
        }
        None
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.items, Some(self.items))
    }
}

impl<T> ExactSizeIterator for RawIter<T> {
    #[inline]
    fn len(&self) -> usize {
        self.items
    }
}
impl<T> FusedIterator for RawIter<T> {}

/// Iterator over the elements of a consumed table.
pub struct RawIntoIter<T> {
    iter: RawIter<T>,
}

impl<T> RawIntoIter<T> {
    pub fn iter(&self) -> RawIter<T> {
        self.iter.clone()
    }
}

impl<T> Drop for RawIntoIter<T> {
    fn drop(&mut self) {
        unsafe { self.iter.drop_elements() }
    }
}

impl<T> Iterator for RawIntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let b = self.iter.next()?;
        let value = unsafe { b.read() };
        dealloc(b.ptr);
        Some(value)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}

impl<T> ExactSizeIterator for RawIntoIter<T> {}
impl<T> FusedIterator for RawIntoIter<T> {}

/// Consuming iterator over the elements of a table that keeps its allocation.
pub struct RawDrain<'a, T> {
    iter: RawIter<T>,
    orig: *mut RawTable<T>,
    capacity: usize,
    marker: PhantomData<&'a RawTable<T>>,
}

unsafe impl<T: Send> Send for RawDrain<'_, T> {}

impl<T> RawDrain<'_, T> {
    pub fn iter(&self) -> RawIter<T> {
        self.iter.clone()
    }
}

impl<T> Drop for RawDrain<'_, T> {
    fn drop(&mut self) {
        unsafe {
            self.iter.drop_elements();
            (*self.orig).reset(self.capacity);
        }
    }
}

impl<T> Iterator for RawDrain<'_, T> {
    type Item = T;
    #[inline]
    fn next(&mut self) -> Option<T> {
        match self.iter.next() {
            Some(b) => {
                let value = unsafe { b.read() };
                dealloc(b.ptr);
                Some(value)
            }
            None => None,
        }
    }
    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}

impl<T> ExactSizeIterator for RawDrain<'_, T> {}
impl<T> FusedIterator for RawDrain<'_, T> {}

/// Iterator over the buckets that may hold an element with the given hash.
pub struct RawIterHash<'a, T> {
    table: &'a RawTable<T>,
    hash: u64,
    next: usize,
}

impl<'a, T> Iterator for RawIterHash<'a, T> {
    type Item = Bucket<T>;
    fn next(&mut self) -> Option<Bucket<T>> {
        while self.next < self.table.slots() {
            let index = self.next;
            self.next += 1;
            let ptr = self.table.slots[index];
            if self.table.full[index] {
                let h = self.table.hashes[index];
                if h == self.hash || (wide() && h2(h) == h2(self.hash)) {
                    return Some(Bucket { ptr, index });
                }
            }
        }
        None
    }
}
