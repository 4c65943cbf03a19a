//! Stand-in for the `morton` crate: x in the even bits, y in the odd bits.

#[inline]
fn spread(v: u16) -> u32 {
    let mut x = v as u32;
    x = (x | (x << 8)) & 0x00FF_00FF;
    x = (x | (x << 4)) & 0x0F0F_0F0F;
    x = (x | (x << 2)) & 0x3333_3333;
    x = (x | (x << 1)) & 0x5555_5555;
    x
}

#[inline]
fn squeeze(v: u32) -> u16 {
    let mut x = v & 0x5555_5555;
    x = (x | (x >> 1)) & 0x3333_3333;
    x = (x | (x >> 2)) & 0x0F0F_0F0F;
    x = (x | (x >> 4)) & 0x00FF_00FF;
    x = (x | (x >> 8)) & 0x0000_FFFF;
    x as u16
}

#[inline]
pub fn interleave_morton(x: u16, y: u16) -> u32 {
    spread(x) | (spread(y) << 1)
}

#[inline]
pub fn deinterleave_morton(z: u32) -> (u16, u16) {
    (squeeze(z), squeeze(z >> 1))
}

pub mod utils {}
