//! Stand-in for the forked `rocksdb` crate (0.12): an ordered key/value store kept in memory, with
//! the same interface. Databases live in a registry keyed by their path.
//!
//! What the model checker adds, in `sim`: a log of every operation, the state a crash after any
//! operation leaves, a fault injected at any operation, and a scheduling point at each operation.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Bound, Deref};
use std::path::{Path, PathBuf};
use vsched::quiet::{Arc, Guard, Mutex};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}

impl Error {
    fn new(message: String) -> Error {
        Error { message }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.message.fmt(f)
    }
}
impl std::error::Error for Error {
    fn description(&self) -> &str {
        &self.message
    }
}

type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Change {
    Put(Vec<u8>, Vec<u8>),
    Delete(Vec<u8>),
}

/// One entry of the operation log.
#[derive(Clone, Debug, PartialEq)]
pub enum LogOp {
    /// applied atomically; the flag says whether it went through the write-ahead log
    Write(Vec<Change>, bool),
    Flush,
}

#[derive(Default)]
struct Store {
    map: Arc<Map>,
    log: Vec<LogOp>,
    writer_open: bool,
}

type Shared = Arc<Mutex<Store>>;

fn lock<T>(m: &Mutex<T>) -> Guard<'_, T> {
    m.lock()
}

fn registry() -> &'static Mutex<HashMap<PathBuf, Shared>> {
    static R: std::sync::OnceLock<Mutex<HashMap<PathBuf, Shared>>> = std::sync::OnceLock::new();
    R.get_or_init(|| Mutex::new(HashMap::new()))
}

/// What the model checker uses.
pub mod sim {
    use super::*;
    use std::cell::RefCell;

    pub use super::{Change, LogOp};

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum OpKind {
        Open,
        Get,
        Put,
        Delete,
        Write,
        Flush,
        Iter,
        Next,
    }

    #[derive(Default)]
    struct Plan {
        // counts operations since `arm`, and fails the one with this number
        counting: bool,
        seen: Vec<OpKind>,
        fail_at: Option<usize>,
        fired: bool,
    }

    thread_local! {
        static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
    }

    /// Starts counting operations of this thread; operation number `fail_at` (from 0) fails.
    /// Iterator steps cannot report a failure in this interface and are not counted.
    pub fn arm(fail_at: Option<usize>) {
        PLAN.with(|p| *p.borrow_mut() = Plan { counting: true, seen: vec![], fail_at, fired: false });
    }
    /// Stops counting: the operations seen, and whether the fault happened.
    pub fn disarm() -> (Vec<OpKind>, bool) {
        PLAN.with(|p| {
            let p = std::mem::take(&mut *p.borrow_mut());
            (p.seen, p.fired)
        })
    }

    pub(super) fn step(kind: OpKind) -> Result<(), Error> {
        vsched::point();
        if matches!(kind, OpKind::Iter | OpKind::Next) {
            return Ok(());
        }
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            if !p.counting {
                return Ok(());
            }
            let n = p.seen.len();
            p.seen.push(kind);
            if p.fail_at == Some(n) {
                p.fired = true;
                return Err(Error::new(format!("IO error: injected at operation {} ({:?})", n, kind)));
            }
            Ok(())
        })
    }

    pub fn remove(path: &Path) {
        lock(registry()).remove(path);
    }
    pub fn exists(path: &Path) -> bool {
        lock(registry()).contains_key(path)
    }
    pub fn log(path: &Path) -> Vec<LogOp> {
        let s = lock(registry()).get(path).cloned();
        s.map(|s| lock(&s).log.clone()).unwrap_or_default()
    }
    pub fn contents(path: &Path) -> Option<BTreeMap<Vec<u8>, Vec<u8>>> {
        let s = lock(registry()).get(path).cloned();
        s.map(|s| (*lock(&s).map).clone())
    }
    /// Creates a database at `path` with this content.
    pub fn create(path: &Path, map: BTreeMap<Vec<u8>, Vec<u8>>) {
        lock(registry()).insert(
            path.to_owned(),
            Arc::new(Mutex::new(Store { map: Arc::new(map), log: vec![], writer_open: false })),
        );
    }
    /// The content that survives a crash right after the first `n` operations of `log`: everything
    /// in the write-ahead log, and what bypassed it only if it was flushed afterwards.
    pub fn after_crash(base: &BTreeMap<Vec<u8>, Vec<u8>>, log: &[LogOp], n: usize) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let mut map = base.clone();
        for (i, op) in log[..n].iter().enumerate() {
            if let LogOp::Write(changes, wal) = op {
                let kept = *wal || log[i..n].iter().any(|o| *o == LogOp::Flush);
                if kept {
                    for c in changes {
                        match c {
                            Change::Put(k, v) => {
                                map.insert(k.clone(), v.clone());
                            }
                            Change::Delete(k) => {
                                map.remove(k);
                            }
                        }
                    }
                }
            }
        }
        map
    }
    /// how many databases the registry holds
    pub fn count() -> usize {
        lock(registry()).len()
    }
}

use sim::{step, OpKind};

#[derive(Clone, Debug)]
pub struct Options {
    create_if_missing: bool,
    error_if_exists: bool,
    read_only: bool,
}

impl Default for Options {
    fn default() -> Self {
        Options { create_if_missing: false, error_if_exists: false, read_only: false }
    }
}

macro_rules! ignored_setters {
    ($($name:ident($($arg:ident: $ty:ty),*);)*) => {
        $(pub fn $name(&mut self, $($arg: $ty),*) { $(let _ = $arg;)* })*
    };
}

#[derive(Debug, Copy, Clone, PartialEq)]
pub enum DBCompressionType {
    None = 0,
    Snappy = 1,
    Zlib = 2,
    Bz2 = 3,
    Lz4 = 4,
    Lz4hc = 5,
    Zstd = 7,
}
#[derive(Debug, Copy, Clone, PartialEq)]
pub enum DBCompactionStyle {
    Level = 0,
    Universal = 1,
    Fifo = 2,
}
#[derive(Debug, Copy, Clone, PartialEq)]
pub enum DBRecoveryMode {
    TolerateCorruptedTailRecords = 0,
    AbsoluteConsistency = 1,
    PointInTime = 2,
    SkipAnyCorruptedRecord = 3,
}

impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn set_error_if_exists(&mut self, v: bool) {
        self.error_if_exists = v;
    }
    pub fn set_read_only(&mut self, v: bool) {
        self.read_only = v;
    }
    ignored_setters! {
        set_disable_auto_compactions(v: bool);
        set_allow_mmap_reads(v: bool);
        set_allow_mmap_writes(v: bool);
        increase_parallelism(v: i32);
        optimize_level_style_compaction(v: usize);
        optimize_for_point_lookup(v: u64);
        create_missing_column_families(v: bool);
        set_compression_type(v: DBCompressionType);
        set_compaction_style(v: DBCompactionStyle);
        set_max_open_files(v: i32);
        set_use_fsync(v: bool);
        set_bytes_per_sync(v: u64);
        set_write_buffer_size(v: usize);
        set_max_write_buffer_number(v: i32);
        set_min_write_buffer_number(v: i32);
        set_max_background_compactions(v: i32);
        set_max_background_flushes(v: i32);
        set_target_file_size_base(v: u64);
        set_level_zero_file_num_compaction_trigger(v: i32);
        set_level_zero_slowdown_writes_trigger(v: i32);
        set_level_zero_stop_writes_trigger(v: i32);
        set_max_bytes_for_level_base(v: u64);
        set_num_levels(v: i32);
        set_table_cache_num_shard_bits(v: i32);
        set_use_direct_reads(v: bool);
        set_use_direct_io_for_flush_and_compaction(v: bool);
        set_allow_os_buffer(v: bool);
        set_is_fd_close_on_exec(v: bool);
        set_advise_random_on_open(v: bool);
        set_keep_log_file_num(v: usize);
        set_wal_recovery_mode(v: DBRecoveryMode);
        set_paranoid_checks(v: bool);
    }
    pub fn prepare_for_bulk_load(&mut self) {}
}

#[derive(Clone, Debug, Default)]
pub struct WriteOptions {
    disable_wal: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, _v: bool) {}
    pub fn disable_wal(&mut self, v: bool) {
        self.disable_wal = v;
    }
}
#[derive(Clone, Debug, Default)]
pub struct ReadOptions {
    upper: Option<Vec<u8>>,
}
impl ReadOptions {
    pub fn fill_cache(&mut self, _v: bool) {}
    pub fn set_verify_checksums(&mut self, _v: bool) {}
    pub fn set_total_order_seek(&mut self, _v: bool) {}
    pub fn set_prefix_same_as_start(&mut self, _v: bool) {}
    pub fn set_iterate_upper_bound<K: AsRef<[u8]>>(&mut self, key: K) {
        self.upper = Some(key.as_ref().to_vec());
    }
}
#[derive(Clone, Debug, Default)]
pub struct FlushOptions;

impl FlushOptions {
    pub fn new() -> Self {
        FlushOptions
    }
    pub fn set_wait(&mut self, _v: bool) {}
}

#[derive(Clone, Debug, Default)]
pub struct WriteBatch {
    changes: Vec<Change>,
}
impl WriteBatch {
    pub fn len(&self) -> usize {
        self.changes.len()
    }
    pub fn is_empty(&self) -> bool {
        self.changes.is_empty()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) -> Result<(), Error> {
        self.changes.push(Change::Put(k.as_ref().to_vec(), v.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) -> Result<(), Error> {
        self.changes.push(Change::Delete(k.as_ref().to_vec()));
        Ok(())
    }
    pub fn clear(&mut self) -> Result<(), Error> {
        self.changes.clear();
        Ok(())
    }
}

pub struct DB {
    path: PathBuf,
    store: Shared,
    read_only: bool,
}

impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.path())
    }
}

impl Drop for DB {
    fn drop(&mut self) {
        if !self.read_only {
            lock(&self.store).writer_open = false;
        }
    }
}

impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        let mut opts = Options::default();
        opts.create_if_missing(true);
        DB::open(&opts, path)
    }

    pub fn open_for_read_only<P: AsRef<Path>>(opts: &Options, path: P, _e: bool) -> Result<DB, Error> {
        let mut opts = opts.clone();
        opts.set_read_only(true);
        DB::open(&opts, path)
    }

    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> {
        step(OpKind::Open)?;
        let path = path.as_ref();
        let mut reg = lock(registry());
        let store = match reg.get(path) {
            Some(s) => {
                if opts.error_if_exists {
                    return Err(Error::new(format!("Invalid argument: {}: exists", path.display())));
                }
                s.clone()
            }
            None => {
                if opts.read_only || !opts.create_if_missing {
                    return Err(Error::new(format!(
                        "Invalid argument: {}: does not exist (create_if_missing is false)",
                        path.display()
                    )));
                }
                let s: Shared = Arc::new(Mutex::new(Store::default()));
                reg.insert(path.to_owned(), s.clone());
                s
            }
        };
        if !opts.read_only {
            let mut st = lock(&store);
            if st.writer_open {
                return Err(Error::new(format!("IO error: lock {}/LOCK: already held", path.display())));
            }
            st.writer_open = true;
        }
        Ok(DB { path: path.to_owned(), store, read_only: opts.read_only })
    }

    pub fn destroy<P: AsRef<Path>>(_opts: &Options, path: P) -> Result<(), Error> {
        lock(registry()).remove(path.as_ref());
        Ok(())
    }

    pub fn path(&self) -> &Path {
        &self.path
    }

    fn apply(&self, changes: Vec<Change>, wal: bool) -> Result<(), Error> {
        if self.read_only {
            return Err(Error::new("Not implemented: Not supported operation in read only mode.".into()));
        }
        let mut st = lock(&self.store);
        let map = Arc::make_mut(&mut st.map);
        for c in &changes {
            match c {
                Change::Put(k, v) => {
                    map.insert(k.clone(), v.clone());
                }
                Change::Delete(k) => {
                    map.remove(k);
                }
            }
        }
        st.log.push(LogOp::Write(changes, wal));
        Ok(())
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.put_opt(k, v, &WriteOptions::default())
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V, o: &WriteOptions) -> Result<(), Error> {
        step(OpKind::Put)?;
        self.apply(vec![Change::Put(k.as_ref().to_vec(), v.as_ref().to_vec())], !o.disable_wal)
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        step(OpKind::Delete)?;
        self.apply(vec![Change::Delete(k.as_ref().to_vec())], true)
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        self.write_opt(batch, &WriteOptions::default())
    }
    pub fn write_without_wal(&self, batch: WriteBatch) -> Result<(), Error> {
        self.write_opt(batch, &WriteOptions { disable_wal: true })
    }
    pub fn write_opt(&self, batch: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        step(OpKind::Write)?;
        self.apply(batch.changes, !o.disable_wal)
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> {
        step(OpKind::Get)?;
        let map = lock(&self.store).map.clone();
        Ok(map.get(k.as_ref()).map(|v| DBVector(v.clone().into_boxed_slice())))
    }
    pub fn get_opt<K: AsRef<[u8]>>(&self, k: K, _o: &ReadOptions) -> Result<Option<DBVector>, Error> {
        self.get(k)
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBPinnableSlice<'_>>, Error> {
        Ok(self.get(k)?.map(|v| DBPinnableSlice { value: v, phantom: PhantomData }))
    }
    pub fn flush(&self) -> Result<(), Error> {
        step(OpKind::Flush)?;
        if self.read_only {
            return Err(Error::new("Not implemented: Not supported operation in read only mode.".into()));
        }
        lock(&self.store).log.push(LogOp::Flush);
        Ok(())
    }
    pub fn flush_opt(&self, _o: &FlushOptions) -> Result<(), Error> {
        self.flush()
    }
    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, start: Option<S>, end: Option<E>) {
        let _ = (start.map(|s| s.as_ref().to_vec()), end.map(|e| e.as_ref().to_vec()));
        vsched::point();
        if !self.read_only {
            lock(&self.store).log.push(LogOp::Flush);
        }
    }
    pub fn property_value(&self, _name: &str) -> Result<Option<String>, Error> {
        Ok(None)
    }
    pub fn property_int_value(&self, _name: &str) -> Result<Option<u64>, Error> {
        Ok(None)
    }
    pub fn latest_sequence_number(&self) -> u64 {
        lock(&self.store).log.len() as u64
    }
    pub fn iterator(&self, mode: IteratorMode<'_>) -> DBIterator<'_> {
        self.iterator_opt(mode, &ReadOptions::default())
    }
    pub fn full_iterator(&self, mode: IteratorMode<'_>) -> DBIterator<'_> {
        self.iterator(mode)
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator<'_> {
        self.iterator(IteratorMode::From(prefix.as_ref(), Direction::Forward))
    }
    pub fn iterator_opt(&self, mode: IteratorMode<'_>, o: &ReadOptions) -> DBIterator<'_> {
        let _ = step(OpKind::Iter);
        let map = lock(&self.store).map.clone();
        let mut it = DBIterator {
            map,
            upper: o.upper.clone(),
            at: At::End,
            direction: Direction::Forward,
            phantom: PhantomData,
        };
        it.set_mode(mode);
        it
    }
    pub fn raw_iterator(&self) -> DBRawIterator<'_> {
        let _ = step(OpKind::Iter);
        DBRawIterator { map: lock(&self.store).map.clone(), key: None, phantom: PhantomData }
    }
    pub fn raw_iterator_opt(&self, _o: &ReadOptions) -> DBRawIterator<'_> {
        self.raw_iterator()
    }
    pub fn snapshot(&self) -> Snapshot<'_> {
        Snapshot { db: self, map: lock(&self.store).map.clone() }
    }
}

pub struct Snapshot<'a> {
    db: &'a DB,
    map: Arc<Map>,
}
impl<'a> Snapshot<'a> {
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> {
        step(OpKind::Get)?;
        Ok(self.map.get(k.as_ref()).map(|v| DBVector(v.clone().into_boxed_slice())))
    }
    pub fn iterator(&self, mode: IteratorMode<'_>) -> DBIterator<'a> {
        let mut it = self.db.iterator(IteratorMode::Start);
        it.map = self.map.clone();
        it.set_mode(mode);
        it
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Direction {
    Forward,
    Reverse,
}

#[derive(Clone, Debug)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

enum At {
    /// the next key is the first one at or after (before) this one
    From(Vec<u8>),
    /// the next key is the first one after (before) this one
    After(Vec<u8>),
    Begin,
    End,
}

pub type KVBytes = (Box<[u8]>, Box<[u8]>);

pub struct DBIterator<'a> {
    map: Arc<Map>,
    upper: Option<Vec<u8>>,
    at: At,
    direction: Direction,
    phantom: PhantomData<&'a DB>,
}

impl<'a> DBIterator<'a> {
    pub fn set_mode(&mut self, mode: IteratorMode<'_>) {
        match mode {
            IteratorMode::Start => {
                self.at = At::Begin;
                self.direction = Direction::Forward;
            }
            IteratorMode::End => {
                self.at = At::Begin;
                self.direction = Direction::Reverse;
            }
            IteratorMode::From(key, dir) => {
                self.at = At::From(key.to_vec());
                self.direction = dir;
            }
        }
    }
    pub fn valid(&self) -> bool {
        self.peek().is_some()
    }
    fn peek(&self) -> Option<(&Vec<u8>, &Vec<u8>)> {
        let forward = self.direction == Direction::Forward;
        let e = match (&self.at, forward) {
            (At::End, _) => None,
            (At::Begin, true) => self.map.iter().next(),
            (At::Begin, false) => self.map.iter().next_back(),
            (At::From(k), true) => {
                self.map.range::<[u8], _>((Bound::Included(&k[..]), Bound::Unbounded)).next()
            }
            (At::From(k), false) => {
                self.map.range::<[u8], _>((Bound::Unbounded, Bound::Included(&k[..]))).next_back()
            }
            (At::After(k), true) => {
                self.map.range::<[u8], _>((Bound::Excluded(&k[..]), Bound::Unbounded)).next()
            }
            (At::After(k), false) => {
                self.map.range::<[u8], _>((Bound::Unbounded, Bound::Excluded(&k[..]))).next_back()
            }
        };
        match (&self.upper, e) {
            (Some(u), Some((k, _))) if k >= u => None,
            _ => e,
        }
    }
}

impl<'a> Iterator for DBIterator<'a> {
    type Item = KVBytes;
    fn next(&mut self) -> Option<KVBytes> {
        let _ = step(OpKind::Next);
        match self.peek() {
            None => {
                self.at = At::End;
                None
            }
            Some((k, v)) => {
                let (k, v) = (k.clone(), v.clone());
                self.at = At::After(k.clone());
                Some((k.into_boxed_slice(), v.into_boxed_slice()))
            }
        }
    }
}

pub struct DBRawIterator<'a> {
    map: Arc<Map>,
    key: Option<Vec<u8>>,
    phantom: PhantomData<&'a DB>,
}
impl<'a> DBRawIterator<'a> {
    pub fn valid(&self) -> bool {
        self.key.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn seek_to_first(&mut self) {
        self.key = self.map.keys().next().cloned();
    }
    pub fn seek_to_last(&mut self) {
        self.key = self.map.keys().next_back().cloned();
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) {
        self.key = self
            .map
            .range::<[u8], _>((Bound::Included(k.as_ref()), Bound::Unbounded))
            .next()
            .map(|e| e.0.clone());
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, k: K) {
        self.key = self
            .map
            .range::<[u8], _>((Bound::Unbounded, Bound::Included(k.as_ref())))
            .next_back()
            .map(|e| e.0.clone());
    }
    pub fn next(&mut self) {
        let _ = step(OpKind::Next);
        if let Some(k) = self.key.take() {
            self.key = self
                .map
                .range::<[u8], _>((Bound::Excluded(&k[..]), Bound::Unbounded))
                .next()
                .map(|e| e.0.clone());
        }
    }
    pub fn prev(&mut self) {
        let _ = step(OpKind::Next);
        if let Some(k) = self.key.take() {
            self.key = self
                .map
                .range::<[u8], _>((Bound::Unbounded, Bound::Excluded(&k[..])))
                .next_back()
                .map(|e| e.0.clone());
        }
    }
    pub fn key(&self) -> Option<Vec<u8>> {
        self.key.clone()
    }
    pub fn value(&self) -> Option<Vec<u8>> {
        self.key.as_ref().and_then(|k| self.map.get(k).cloned())
    }
    /// # Safety
    /// the slice is valid until the iterator moves
    pub unsafe fn key_inner(&self) -> Option<&[u8]> {
        self.key.as_deref()
    }
    /// # Safety
    /// the slice is valid until the iterator moves
    pub unsafe fn value_inner(&self) -> Option<&[u8]> {
        self.key.as_ref().and_then(|k| self.map.get(k).map(|v| &v[..]))
    }
}

/// A value owned by the engine, freed (and here overwritten) when it is dropped.
pub struct DBVector(Box<[u8]>);

impl Drop for DBVector {
    fn drop(&mut self) {
        for b in self.0.iter_mut() {
            // SAFETY: a plain store to memory we own, which must not be optimised away
            unsafe { std::ptr::write_volatile(b, 0xDD) };
        }
    }
}
impl DBVector {
    pub fn to_utf8(&self) -> Option<&str> {
        std::str::from_utf8(&self.0).ok()
    }
}
impl Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Debug for DBVector {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl PartialEq for DBVector {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

pub struct DBPinnableSlice<'a> {
    value: DBVector,
    phantom: PhantomData<&'a DB>,
}
impl<'a> Deref for DBPinnableSlice<'a> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.value
    }
}
impl<'a> AsRef<[u8]> for DBPinnableSlice<'a> {
    fn as_ref(&self) -> &[u8] {
        &self.value
    }
}
