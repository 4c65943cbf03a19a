//! Stand-in for `static-bushes`: an index over points, with the same queries as its `KDBush`.
//! The order in which results come out is unspecified there; knob 1 of `vsched` picks it here.
use std::cmp::Ordering;
use std::fmt::Debug;

#[derive(Debug, Clone)]
pub struct KDBushBuilder<N> {
    points: Vec<[N; 2]>,
}

#[derive(Debug, Clone)]
pub struct KDBush<N> {
    // sorted by (x, y, id)
    points: Vec<([N; 2], usize)>,
}

fn cmp<N: PartialOrd>(a: &[N; 2], b: &[N; 2]) -> Ordering {
    a[0].partial_cmp(&b[0])
        .unwrap()
        .then_with(|| a[1].partial_cmp(&b[1]).unwrap())
}

impl<N: PartialOrd + Copy> KDBushBuilder<N> {
    pub const DEFAULT_NODE_SIZE: usize = 64;

    pub fn new() -> Self {
        KDBushBuilder { points: Vec::new() }
    }
    pub fn new_with_node_size(_node_size: usize) -> Self {
        Self::new()
    }
    pub fn with_node_size(_node_size: usize) -> Self {
        Self::new()
    }
    pub fn add(&mut self, point: &[N; 2]) -> usize {
        self.points.push(*point);
        self.points.len() - 1
    }
    pub fn finish(self) -> KDBush<N> {
        let mut points: Vec<_> =
            self.points.into_iter().enumerate().map(|(i, p)| (p, i)).collect();
        points.sort_by(|a, b| cmp(&a.0, &b.0).then(a.1.cmp(&b.1)));
        if vsched::knob(1) == 1 {
            points.sort_by(|a, b| cmp(&a.0, &b.0).then(b.1.cmp(&a.1)));
        }
        KDBush { points }
    }
}

impl<N: PartialOrd + Copy> Default for KDBushBuilder<N> {
    fn default() -> Self {
        Self::new()
    }
}

impl<N: PartialOrd + Copy> KDBush<N> {
    fn in_box(&self, minx: N, miny: N, maxx: N, maxy: N) -> Vec<usize> {
        let start = self.points.partition_point(|p| p.0[0] < minx);
        let mut out = Vec::new();
        for (p, id) in &self.points[start..] {
            if p[0] > maxx {
                break;
            }
            if p[1] >= miny && p[1] <= maxy {
                out.push(*id);
            }
        }
        out
    }
    pub fn exact_as_vec(&self, x: N, y: N) -> Vec<usize> {
        let start = self.points.partition_point(|p| cmp(&p.0, &[x, y]) == Ordering::Less);
        self.points[start..]
            .iter()
            .take_while(|p| cmp(&p.0, &[x, y]) == Ordering::Equal)
            .map(|p| p.1)
            .collect()
    }
    pub fn exact(&self, x: N, y: N) -> impl Iterator<Item = usize> + '_ {
        self.exact_as_vec(x, y).into_iter()
    }
    pub fn search_range(&self, minx: N, miny: N, maxx: N, maxy: N) -> impl Iterator<Item = usize> + '_ {
        self.in_box(minx, miny, maxx, maxy).into_iter()
    }
    pub fn range(&self, minx: N, miny: N, maxx: N, maxy: N) -> impl Iterator<Item = usize> + '_ {
        self.in_box(minx, miny, maxx, maxy).into_iter()
    }
    pub fn search_range_as_vec(&self, minx: N, miny: N, maxx: N, maxy: N) -> Vec<usize> {
        self.in_box(minx, miny, maxx, maxy)
    }
    pub fn len(&self) -> usize {
        self.points.len()
    }
    pub fn is_empty(&self) -> bool {
        self.points.is_empty()
    }
}
