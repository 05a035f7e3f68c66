//! In-memory stand-in for the part of rust-rocksdb's API that /repo names. Type shapes matter;
//! the behaviour is a process-global ordered map per path.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock, RwLock};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Error { pub fn into_string(self) -> String { self.0 } }

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Store = Arc<RwLock<Map>>;
fn registry() -> &'static Mutex<HashMap<PathBuf, Store>> { static R: OnceLock<Mutex<HashMap<PathBuf, Store>>> = OnceLock::new(); R.get_or_init(Default::default) }
fn open_store(p: &Path, create: bool) -> Result<Store, Error> {
    let mut r = registry().lock().unwrap();
    if let Some(s) = r.get(p) { if p.exists() { return Ok(s.clone()); } r.remove(p); }
    if !create && !p.exists() { return Err(Error(format!("{}: does not exist", p.display()))); }
    std::fs::create_dir_all(p).map_err(|e| Error(e.to_string()))?;
    let s: Store = Default::default();
    r.insert(p.to_path_buf(), s.clone());
    Ok(s)
}

#[derive(Clone)] pub struct Cache(Arc<()>);
impl Cache { pub fn new_lru_cache(_n: usize) -> Self { Cache(Arc::new(())) } pub fn get_usage(&self) -> usize { 1 } pub fn get_pinned_usage(&self) -> usize { 0 } }
#[derive(Copy, Clone, Debug, PartialEq, Eq)] pub enum DBCompressionType { None, Snappy, Zlib, Bz2, Lz4, Lz4hc, Zstd }
#[derive(Clone, Default)] pub struct BlockBasedOptions {}
impl BlockBasedOptions { pub fn set_block_cache(&mut self, _c: &Cache) {} pub fn set_cache_index_and_filter_blocks(&mut self, _b: bool) {} pub fn set_pin_l0_filter_and_index_blocks_in_cache(&mut self, _b: bool) {} }
#[derive(Clone, Default)] pub struct Options { create: bool }
impl Options {
    pub fn create_if_missing(&mut self, b: bool) { self.create = b; }
    pub fn set_write_buffer_size(&mut self, _n: usize) {} pub fn increase_parallelism(&mut self, _n: i32) {} pub fn set_max_write_buffer_number(&mut self, _n: i32) {}
    pub fn set_min_write_buffer_number_to_merge(&mut self, _n: i32) {} pub fn set_compression_type(&mut self, _t: DBCompressionType) {} pub fn set_block_based_table_factory(&mut self, _b: &BlockBasedOptions) {}
}
#[derive(Default)] pub struct TransactionDBOptions {}
impl TransactionDBOptions { pub fn set_default_lock_timeout(&mut self, _n: i64) {} }
#[derive(Default)] pub struct ReadOptions { lower: Option<Vec<u8>>, upper: Option<Vec<u8>> }
impl ReadOptions {
    pub fn set_iterate_lower_bound<K: Into<Vec<u8>>>(&mut self, k: K) { self.lower = Some(k.into()); }
    pub fn set_iterate_upper_bound<K: Into<Vec<u8>>>(&mut self, k: K) { self.upper = Some(k.into()); }
    pub fn fill_cache(&mut self, _b: bool) {}
}
#[derive(Default)] pub struct WriteOptions {}
impl WriteOptions { pub fn disable_wal(&mut self, _b: bool) {} pub fn set_sync(&mut self, _b: bool) {} }
#[derive(Default)] pub struct WriteBatch { ops: Vec<(Vec<u8>, Option<Vec<u8>>)> }
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) { self.ops.push((k.as_ref().to_vec(), Some(v.as_ref().to_vec()))); }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) { self.ops.push((k.as_ref().to_vec(), None)); }
    pub fn len(&self) -> usize { self.ops.len() }
}
pub enum IteratorMode<'a> { Start, End, From(&'a [u8], Direction) }
pub enum Direction { Forward, Reverse }
pub struct DBIterator<'a> { items: std::vec::IntoIter<(Vec<u8>, Vec<u8>)>, p: PhantomData<&'a ()> }
impl<'a> Iterator for DBIterator<'a> { type Item = Result<(Box<[u8]>, Box<[u8]>), Error>; fn next(&mut self) -> Option<Self::Item> { self.items.next().map(|(k, v)| Ok((k.into_boxed_slice(), v.into_boxed_slice()))) } }
fn iter_of<'a>(s: &Store, m: IteratorMode<'_>) -> DBIterator<'a> {
    let g = s.read().unwrap();
    let mut v: Vec<_> = g.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if let IteratorMode::End = m { v.reverse(); }
    DBIterator { items: v.into_iter(), p: PhantomData }
}
pub struct DBRawIterator<'a> { items: Vec<(Vec<u8>, Vec<u8>)>, pos: Option<usize>, p: PhantomData<&'a ()> }
impl<'a> DBRawIterator<'a> {
    fn of(s: &Store, o: ReadOptions) -> Self {
        let g = s.read().unwrap();
        let items = g.iter().filter(|(k, _)| o.lower.as_ref().map_or(true, |l| *k >= l) && o.upper.as_ref().map_or(true, |u| *k < u)).map(|(k, v)| (k.clone(), v.clone())).collect();
        Self { items, pos: None, p: PhantomData }
    }
    pub fn seek_to_first(&mut self) { self.pos = if self.items.is_empty() { None } else { Some(0) }; }
    pub fn seek_to_last(&mut self) { self.pos = self.items.len().checked_sub(1); }
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) { self.pos = self.items.iter().position(|(x, _)| &x[..] >= k.as_ref()); }
    pub fn valid(&self) -> bool { self.pos.is_some() }
    pub fn item(&self) -> Option<(&[u8], &[u8])> { self.pos.map(|i| (&self.items[i].0[..], &self.items[i].1[..])) }
    pub fn key(&self) -> Option<&[u8]> { self.item().map(|x| x.0) }
    pub fn value(&self) -> Option<&[u8]> { self.item().map(|x| x.1) }
    pub fn next(&mut self) { self.pos = self.pos.and_then(|i| if i + 1 < self.items.len() { Some(i + 1) } else { None }); }
    pub fn prev(&mut self) { self.pos = self.pos.and_then(|i| i.checked_sub(1)); }
}
macro_rules! reads { () => {
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> { Ok(self.s.read().unwrap().get(k.as_ref()).cloned()) }
    pub fn multi_get<K: AsRef<[u8]>, I: IntoIterator<Item = K>>(&self, ks: I) -> Vec<Result<Option<Vec<u8>>, Error>> { ks.into_iter().map(|k| self.get(k)).collect() }
    pub fn raw_iterator_opt(&self, o: ReadOptions) -> DBRawIterator<'_> { DBRawIterator::of(&self.s, o) }
    pub fn raw_iterator(&self) -> DBRawIterator<'_> { DBRawIterator::of(&self.s, ReadOptions::default()) }
    pub fn iterator(&self, m: IteratorMode<'_>) -> DBIterator<'_> { iter_of(&self.s, m) }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> { self.s.write().unwrap().insert(k.as_ref().to_vec(), v.as_ref().to_vec()); Ok(()) }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> { self.s.write().unwrap().remove(k.as_ref()); Ok(()) }
    pub fn flush(&self) -> Result<(), Error> { Ok(()) }
    pub fn property_value<K: AsRef<str>>(&self, _k: K) -> Result<Option<String>, Error> { Ok(None) }
    pub fn property_int_value<K: AsRef<str>>(&self, _k: K) -> Result<Option<u64>, Error> { Ok(None) }
} }
pub struct TransactionDB { s: Store, lock: Arc<Mutex<()>> }
impl TransactionDB {
    pub fn open<P: AsRef<Path>>(o: &Options, _t: &TransactionDBOptions, p: P) -> Result<Self, Error> { Ok(Self { s: open_store(p.as_ref(), o.create)?, lock: Default::default() }) }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB> { Transaction { s: self.s.clone(), ops: Mutex::new(vec![]), lock: self.lock.clone(), p: PhantomData } }
    pub fn snapshot(&self) -> Snapshot<'_> { Snapshot { s: Arc::new(RwLock::new(self.s.read().unwrap().clone())), p: PhantomData } }
    reads!();
}
pub struct Snapshot<'a> { s: Store, p: PhantomData<&'a ()> }
impl<'a> Snapshot<'a> { pub fn iterator(&self, m: IteratorMode<'_>) -> DBIterator<'_> { iter_of(&self.s, m) } }
pub struct Transaction<'db, DB> { s: Store, ops: Mutex<Vec<(Vec<u8>, Option<Vec<u8>>)>>, lock: Arc<Mutex<()>>, p: PhantomData<&'db DB> }
impl<'db, DB> Transaction<'db, DB> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> { self.ops.lock().unwrap().push((k.as_ref().to_vec(), Some(v.as_ref().to_vec()))); Ok(()) }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> { self.ops.lock().unwrap().push((k.as_ref().to_vec(), None)); Ok(()) }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        for (x, v) in self.ops.lock().unwrap().iter().rev() { if x == k.as_ref() { return Ok(v.clone()); } }
        Ok(self.s.read().unwrap().get(k.as_ref()).cloned())
    }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, k: K, _excl: bool) -> Result<Option<Vec<u8>>, Error> { self.get(k) }
    pub fn commit(self) -> Result<(), Error> {
        let _g = self.lock.lock().unwrap();
        let mut m = self.s.write().unwrap();
        for (k, v) in self.ops.into_inner().unwrap() { match v { Some(v) => { m.insert(k, v); } None => { m.remove(&k); } } }
        Ok(())
    }
    pub fn rollback(&self) -> Result<(), Error> { self.ops.lock().unwrap().clear(); Ok(()) }
}
pub struct DB { s: Store }
impl DB {
    pub fn open<P: AsRef<Path>>(o: &Options, p: P) -> Result<Self, Error> { Ok(Self { s: open_store(p.as_ref(), o.create)? }) }
    pub fn open_for_read_only<P: AsRef<Path>>(_o: &Options, p: P, _e: bool) -> Result<Self, Error> { Ok(Self { s: open_store(p.as_ref(), false)? }) }
    pub fn destroy<P: AsRef<Path>>(_o: &Options, p: P) -> Result<(), Error> { registry().lock().unwrap().remove(p.as_ref()); Ok(()) }
    pub fn write_opt(&self, b: WriteBatch, _o: &WriteOptions) -> Result<(), Error> { let mut m = self.s.write().unwrap(); for (k, v) in b.ops { match v { Some(v) => { m.insert(k, v); } None => { m.remove(&k); } } } Ok(()) }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> { self.write_opt(b, &WriteOptions::default()) }
    reads!();
}
