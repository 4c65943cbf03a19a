//! Stand-in for `rayon`: the same calls, with the tasks run by `vsched`: one after another in the
//! caller's thread, or, inside an exploration, in every interleaving up to the preemption bound.
use std::iter::FromIterator;
use vsched::quiet::Mutex;

/// in the order in which the tasks end
fn run_unordered<T: Send, R: Send>(items: Vec<T>, f: &(dyn Fn(T) -> R + Sync)) -> Vec<R> {
    let done: Mutex<Vec<R>> = Mutex::new(Vec::new());
    run_map(items, &|x| {
        let r = f(x);
        done.lock().push(r);
    });
    done.into_inner()
}

fn run_map<T: Send, R: Send>(items: Vec<T>, f: &(dyn Fn(T) -> R + Sync)) -> Vec<R> {
    if !vsched::controlled() {
        return items.into_iter().map(f).collect();
    }
    let n = items.len();
    let out: Vec<Mutex<Option<R>>> = (0..n).map(|_| Mutex::new(None)).collect();
    {
        let out = &out;
        let tasks: Vec<vsched::Task<'_>> = items
            .into_iter()
            .enumerate()
            .map(|(i, item)| {
                Box::new(move || {
                    vsched::point();
                    let r = f(item);
                    *out[i].lock() = Some(r);
                }) as vsched::Task<'_>
            })
            .collect();
        vsched::run_tasks(tasks);
    }
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}

pub mod iter {
    use super::*;

    /// items that are there already
    pub struct Par<T> {
        pub(crate) items: Vec<T>,
    }

    /// `drive` runs one task for each item, in which everything that the iterator does to the item
    /// happens, and then `f`.
    pub trait ParallelIterator: Sized + Send {
        type Item: Send;
        fn drive<R: Send>(self, f: &(dyn Fn(Self::Item) -> R + Sync)) -> Vec<R>;

        fn into_items(self) -> Vec<Self::Item> {
            self.drive(&|x| x)
        }
        fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Map<Self, F> {
            Map { base: self, f }
        }
        fn map_with<T: Send + Sync + Clone, R: Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(
            self,
            init: T,
            f: F,
        ) -> Par<R> {
            Par { items: self.drive(&|x| f(&mut init.clone(), x)) }
        }
        fn map_init<T, R: Send, INIT: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(
            self,
            init: INIT,
            f: F,
        ) -> MapInit<Self, INIT, F> {
            MapInit { base: self, init, f }
        }
        fn update<F: Fn(&mut Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par { items: self.drive(&|mut x| { f(&mut x); x }) }
        }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            self.drive(&f);
        }
        fn for_each_with<T: Send + Sync + Clone, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: T, f: F) {
            self.drive(&|x| f(&mut init.clone(), x));
        }
        fn for_each_init<T, INIT: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: INIT, f: F) {
            self.drive(&|x| f(&mut init(), x));
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Filter<Self, F> {
            Filter { base: self, f }
        }
        fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> FilterMap<Self, F> {
            FilterMap { base: self, f }
        }
        fn flat_map<I, F>(self, f: F) -> Par<<I as IntoParallelIterator>::Item>
        where
            I: IntoParallelIterator + Send,
            F: Fn(Self::Item) -> I + Sync + Send,
        {
            let v = self.drive(&|x| f(x).into_par_iter().into_items());
            Par { items: v.into_iter().flatten().collect() }
        }
        fn flat_map_iter<I, F>(self, f: F) -> FlatMapIter<Self, F>
        where
            I: IntoIterator,
            I::Item: Send,
            F: Fn(Self::Item) -> I + Sync + Send,
        {
            FlatMapIter { base: self, f }
        }
        fn flatten(self) -> Par<<Self::Item as IntoParallelIterator>::Item>
        where
            Self::Item: IntoParallelIterator,
        {
            let v = self.drive(&|x| x.into_par_iter().into_items());
            Par { items: v.into_iter().flatten().collect() }
        }
        fn flatten_iter(self) -> Par<<Self::Item as IntoIterator>::Item>
        where
            Self::Item: IntoIterator,
            <Self::Item as IntoIterator>::Item: Send,
        {
            let v = self.drive(&|x| x.into_iter().collect::<Vec<_>>());
            Par { items: v.into_iter().flatten().collect() }
        }
        fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par { items: self.drive(&|x| { f(&x); x }) }
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            self.into_items().into_iter().collect()
        }
        fn collect_into_vec(self, target: &mut Vec<Self::Item>) {
            *target = self.into_items();
        }
        fn unzip<A, B, FA, FB>(self) -> (FA, FB)
        where
            Self: ParallelIterator<Item = (A, B)>,
            FA: Default + Extend<A>,
            FB: Default + Extend<B>,
            A: Send,
            B: Send,
        {
            self.into_items().into_iter().unzip()
        }
        fn reduce<ID, OP>(self, identity: ID, op: OP) -> Self::Item
        where
            OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send,
            ID: Fn() -> Self::Item + Sync + Send,
        {
            self.into_items().into_iter().fold(identity(), op)
        }
        fn reduce_with<OP>(self, op: OP) -> Option<Self::Item>
        where
            OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send,
        {
            self.into_items().into_iter().reduce(op)
        }
        fn try_reduce<T, E, OP, ID>(self, identity: ID, op: OP) -> Result<T, E>
        where
            Self: ParallelIterator<Item = Result<T, E>>,
            OP: Fn(T, T) -> Result<T, E> + Sync + Send,
            ID: Fn() -> T + Sync + Send,
            T: Send,
            E: Send,
        {
            self.into_items().into_iter().try_fold(identity(), |a, b| op(a, b?))
        }
        /// no two items go to the same accumulator: the finest split that there can be
        fn fold<T: Send, ID, F>(self, identity: ID, f: F) -> Par<T>
        where
            F: Fn(T, Self::Item) -> T + Sync + Send,
            ID: Fn() -> T + Sync + Send,
        {
            let mut items = self.drive(&|x| f(identity(), x));
            if items.is_empty() {
                items.push(identity());
            }
            Par { items }
        }
        fn try_fold<T: Send, E: Send, ID, F>(self, identity: ID, f: F) -> Par<Result<T, E>>
        where
            F: Fn(T, Self::Item) -> Result<T, E> + Sync + Send,
            ID: Fn() -> T + Sync + Send,
        {
            Par { items: self.drive(&|x| f(identity(), x)) }
        }
        fn try_for_each<E: Send, F>(self, f: F) -> Result<(), E>
        where
            F: Fn(Self::Item) -> Result<(), E> + Sync + Send,
        {
            self.drive(&f).into_iter().collect()
        }
        fn enumerate(self) -> Par<(usize, Self::Item)> {
            Par { items: self.into_items().into_iter().enumerate().collect() }
        }
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            Par { items: self.into_items().into_iter().zip(z.into_par_iter().into_items()).collect() }
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            self.zip(z)
        }
        fn chain<Z: IntoParallelIterator<Item = Self::Item>>(self, z: Z) -> Par<Self::Item> {
            let mut items = self.into_items();
            items.extend(z.into_par_iter().into_items());
            Par { items }
        }
        fn rev(self) -> Par<Self::Item> {
            let mut items = self.into_items();
            items.reverse();
            Par { items }
        }
        fn take(self, n: usize) -> Par<Self::Item> {
            Par { items: self.into_items().into_iter().take(n).collect() }
        }
        fn skip(self, n: usize) -> Par<Self::Item> {
            Par { items: self.into_items().into_iter().skip(n).collect() }
        }
        fn with_min_len(self, _n: usize) -> Self {
            self
        }
        fn with_max_len(self, _n: usize) -> Self {
            self
        }
        fn chunks(self, n: usize) -> Par<Vec<Self::Item>> {
            let mut out = Vec::new();
            let mut it = self.into_items().into_iter().peekable();
            while it.peek().is_some() {
                out.push(it.by_ref().take(n).collect());
            }
            Par { items: out }
        }
        fn count(self) -> usize {
            self.into_items().len()
        }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
            self.into_items().into_iter().sum()
        }
        fn product<S: std::iter::Product<Self::Item>>(self) -> S {
            self.into_items().into_iter().product()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.into_items().into_iter().max()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.into_items().into_iter().min()
        }
        fn max_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.into_items().into_iter().max_by(f)
        }
        fn min_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.into_items().into_iter().min_by(f)
        }
        fn max_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.into_items().into_iter().max_by_key(f)
        }
        fn min_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.into_items().into_iter().min_by_key(f)
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.drive(&f).into_iter().any(|b| b)
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.drive(&f).into_iter().all(|b| b)
        }
        fn find_first<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.filter(f).into_items().into_iter().next()
        }
        fn find_last<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.filter(f).into_items().into_iter().last()
        }
        /// any of them: the one that is found first
        fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            let found: Mutex<Option<Self::Item>> = Mutex::new(None);
            self.drive(&|x| {
                if f(&x) {
                    let mut g = found.lock();
                    if g.is_none() {
                        *g = Some(x);
                    }
                }
            });
            found.into_inner()
        }
        fn find_map_any<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Option<R> {
            self.filter_map(f).find_any(|_| true)
        }
        fn find_map_first<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Option<R> {
            self.filter_map(f).into_items().into_iter().next()
        }
        fn position_any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
            self.drive(&f).into_iter().position(|b| b)
        }
        fn position_first<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
            self.drive(&f).into_iter().position(|b| b)
        }
        fn partition<A, B, F>(self, f: F) -> (A, B)
        where
            A: Default + Extend<Self::Item>,
            B: Default + Extend<Self::Item>,
            F: Fn(&Self::Item) -> bool + Sync + Send,
        {
            let (mut a, mut b) = (A::default(), B::default());
            for (yes, x) in self.drive(&|x| (f(&x), x)) {
                if yes {
                    a.extend(Some(x));
                } else {
                    b.extend(Some(x));
                }
            }
            (a, b)
        }
        fn cloned<'a, T: 'a + Clone + Send>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
            T: Sync,
        {
            Par { items: self.drive(&|x| x.clone()) }
        }
        fn copied<'a, T: 'a + Copy + Send>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
            T: Sync,
        {
            Par { items: self.drive(&|x| *x) }
        }
    }

    impl<T: Send> ParallelIterator for Par<T> {
        type Item = T;
        fn drive<R: Send>(self, f: &(dyn Fn(T) -> R + Sync)) -> Vec<R> {
            run_map(self.items, f)
        }
        fn into_items(self) -> Vec<T> {
            self.items
        }
    }

    pub struct Map<P, F> {
        base: P,
        f: F,
    }
    impl<P: ParallelIterator, R: Send, F: Fn(P::Item) -> R + Sync + Send> ParallelIterator for Map<P, F> {
        type Item = R;
        fn drive<S: Send>(self, f: &(dyn Fn(R) -> S + Sync)) -> Vec<S> {
            let g = self.f;
            self.base.drive(&|x| f(g(x)))
        }
    }
    pub struct MapInit<P, I, F> {
        base: P,
        init: I,
        f: F,
    }
    impl<P: ParallelIterator, T, R: Send, I: Fn() -> T + Sync + Send, F: Fn(&mut T, P::Item) -> R + Sync + Send> ParallelIterator
        for MapInit<P, I, F>
    {
        type Item = R;
        fn drive<S: Send>(self, f: &(dyn Fn(R) -> S + Sync)) -> Vec<S> {
            let (init, g) = (self.init, self.f);
            self.base.drive(&|x| f(g(&mut init(), x)))
        }
    }
    pub struct Filter<P, F> {
        base: P,
        f: F,
    }
    impl<P: ParallelIterator, F: Fn(&P::Item) -> bool + Sync + Send> ParallelIterator for Filter<P, F> {
        type Item = P::Item;
        fn drive<S: Send>(self, f: &(dyn Fn(P::Item) -> S + Sync)) -> Vec<S> {
            let g = self.f;
            self.base.drive(&|x| if g(&x) { Some(f(x)) } else { None }).into_iter().flatten().collect()
        }
    }
    pub struct FilterMap<P, F> {
        base: P,
        f: F,
    }
    impl<P: ParallelIterator, R: Send, F: Fn(P::Item) -> Option<R> + Sync + Send> ParallelIterator for FilterMap<P, F> {
        type Item = R;
        fn drive<S: Send>(self, f: &(dyn Fn(R) -> S + Sync)) -> Vec<S> {
            let g = self.f;
            self.base.drive(&|x| g(x).map(f)).into_iter().flatten().collect()
        }
    }
    pub struct FlatMapIter<P, F> {
        base: P,
        f: F,
    }
    impl<P: ParallelIterator, I: IntoIterator, F: Fn(P::Item) -> I + Sync + Send> ParallelIterator for FlatMapIter<P, F>
    where
        I::Item: Send,
    {
        type Item = I::Item;
        fn drive<S: Send>(self, f: &(dyn Fn(I::Item) -> S + Sync)) -> Vec<S> {
            let g = self.f;
            self.base.drive(&|x| g(x).into_iter().map(f).collect::<Vec<S>>()).into_iter().flatten().collect()
        }
    }

    /// every stand-in iterator keeps its order
    pub trait IndexedParallelIterator: ParallelIterator {}
    impl<P: ParallelIterator> IndexedParallelIterator for P {}

    pub trait IntoParallelIterator {
        type Item: Send;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I: IntoIterator> IntoParallelIterator for I
    where
        I::Item: Send,
    {
        type Item = I::Item;
        type Iter = Par<I::Item>;
        fn into_par_iter(self) -> Par<I::Item> {
            Par { items: self.into_iter().collect() }
        }
    }
    impl<T: Send> IntoIterator for Par<T> {
        type Item = T;
        type IntoIter = std::vec::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.items.into_iter()
        }
    }
    macro_rules! lazy {
        ($t:ident, $($p:ident),*) => {
            impl<$($p),*> IntoIterator for $t<$($p),*>
            where
                $t<$($p),*>: ParallelIterator,
            {
                type Item = <Self as ParallelIterator>::Item;
                type IntoIter = std::vec::IntoIter<Self::Item>;
                fn into_iter(self) -> Self::IntoIter {
                    self.into_items().into_iter()
                }
            }
        };
    }
    lazy!(Map, P, F);
    lazy!(MapInit, P, I, F);
    lazy!(Filter, P, F);
    lazy!(FilterMap, P, F);
    lazy!(FlatMapIter, P, F);

    pub trait IntoParallelRefIterator<'a> {
        type Item: Send + 'a;
        fn par_iter(&'a self) -> Par<Self::Item>;
    }
    impl<'a, C: 'a + ?Sized> IntoParallelRefIterator<'a> for C
    where
        &'a C: IntoIterator,
        <&'a C as IntoIterator>::Item: Send + 'a,
    {
        type Item = <&'a C as IntoIterator>::Item;
        fn par_iter(&'a self) -> Par<Self::Item> {
            Par { items: self.into_iter().collect() }
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item: Send + 'a;
        fn par_iter_mut(&'a mut self) -> Par<Self::Item>;
    }
    impl<'a, C: 'a + ?Sized> IntoParallelRefMutIterator<'a> for C
    where
        &'a mut C: IntoIterator,
        <&'a mut C as IntoIterator>::Item: Send + 'a,
    {
        type Item = <&'a mut C as IntoIterator>::Item;
        fn par_iter_mut(&'a mut self) -> Par<Self::Item> {
            Par { items: self.into_iter().collect() }
        }
    }
    pub trait ParallelBridge: Sized {
        type Item: Send;
        fn par_bridge(self) -> Bridged<Self::Item>;
    }
    /// what comes from a bridge has no order: results come as the tasks end
    pub struct Bridged<T> {
        items: Vec<T>,
    }
    impl<T: Send> ParallelIterator for Bridged<T> {
        type Item = T;
        fn drive<R: Send>(self, f: &(dyn Fn(T) -> R + Sync)) -> Vec<R> {
            run_unordered(self.items, f)
        }
    }
    impl<I: Iterator + Send> ParallelBridge for I
    where
        I::Item: Send,
    {
        type Item = I::Item;
        fn par_bridge(self) -> Bridged<I::Item> {
            Bridged { items: self.collect() }
        }
    }
    pub trait ParallelExtend<T> {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
    }
    impl<T: Send, C: Extend<T>> ParallelExtend<T> for C {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
            self.extend(i.into_par_iter().into_items())
        }
    }
}

pub mod slice {
    use super::iter::Par;
    pub trait ParallelSlice<T: Sync> {
        fn par_chunks(&self, n: usize) -> Par<&[T]>;
        fn par_windows(&self, n: usize) -> Par<&[T]>;
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> Par<&[T]> {
            Par { items: self.chunks(n).collect() }
        }
        fn par_windows(&self, n: usize) -> Par<&[T]> {
            Par { items: self.windows(n).collect() }
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn as_mut_slice_(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par { items: self.as_mut_slice_().chunks_mut(n).collect() }
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.as_mut_slice_().sort()
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.as_mut_slice_().sort()
        }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
            self.as_mut_slice_().sort_by(f)
        }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
            self.as_mut_slice_().sort_by_key(f)
        }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
            self.as_mut_slice_().sort_by(f)
        }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
            self.as_mut_slice_().sort_by_key(f)
        }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn as_mut_slice_(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod prelude {
    pub use super::iter::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator,
    };
    pub use super::slice::{ParallelSlice, ParallelSliceMut};
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (ra, rb) = (Mutex::new(None), Mutex::new(None));
    vsched::run_tasks(vec![
        Box::new(|| *ra.lock() = Some(a())) as vsched::Task<'_>,
        Box::new(|| *rb.lock() = Some(b())) as vsched::Task<'_>,
    ]);
    (ra.into_inner().unwrap(), rb.into_inner().unwrap())
}

/// Tasks started in a scope run once its body is done, and tasks that those start after them.
pub struct Scope<'s> {
    tasks: Mutex<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.tasks.lock().push(Box::new(f));
    }
}
pub fn scope<'s, F, R>(f: F) -> R
where
    F: FnOnce(&Scope<'s>) -> R + Send,
    R: Send,
{
    let s = Scope { tasks: Mutex::new(Vec::new()) };
    let r = f(&s);
    loop {
        let tasks = std::mem::take(&mut *s.tasks.lock());
        if tasks.is_empty() {
            return r;
        }
        let s = &s;
        vsched::run_tasks(
            tasks
                .into_iter()
                .map(|t| {
                    Box::new(move || {
                        vsched::point();
                        t(s)
                    }) as vsched::Task<'_>
                })
                .collect(),
        );
    }
}

pub fn current_num_threads() -> usize {
    8
}
pub fn current_thread_index() -> Option<usize> {
    None
}

#[derive(Default, Debug)]
pub struct ThreadPoolBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        "thread pool".fmt(f)
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug)]
pub struct ThreadPool;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl ThreadPool {
    pub fn install<R: Send>(&self, f: impl FnOnce() -> R + Send) -> R {
        f()
    }
}
