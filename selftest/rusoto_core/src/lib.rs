//! Stand-in: there is no network here, nothing is ever downloaded.
pub enum Region {
    UsEast1,
}
