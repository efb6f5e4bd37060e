//! Stand-ins for the NEON intrinsics, in plain Rust, after the Arm Intrinsics Reference. Lane 0 is the
//! least significant one, as on a little-endian processor. Only what works on whole registers of unsigned
//! (and a few signed) integers: more than enough for bitboards. An intrinsic that is missing here makes the
//! build fail, and the property is then reported as not decided for this backend.
#![allow(non_camel_case_types, clippy::missing_safety_doc)]

macro_rules! types {
    ($($t:ident = $e:ty, $n:literal, $align:literal;)*) => { $(
        #[derive(Clone, Copy, Debug)]
        #[repr(C, align($align))]
        pub struct $t(pub(crate) [$e; $n]);
    )* };
}
types! {
    uint8x8_t = u8, 8, 8; uint16x4_t = u16, 4, 8; uint32x2_t = u32, 2, 8; uint64x1_t = u64, 1, 8;
    uint8x16_t = u8, 16, 16; uint16x8_t = u16, 8, 16; uint32x4_t = u32, 4, 16; uint64x2_t = u64, 2, 16;
    int8x8_t = i8, 8, 8; int16x4_t = i16, 4, 8; int32x2_t = i32, 2, 8; int64x1_t = i64, 1, 8;
    int8x16_t = i8, 16, 16; int16x8_t = i16, 8, 16; int32x4_t = i32, 4, 16; int64x2_t = i64, 2, 16;
}

macro_rules! map2 {
    ($($f:ident : $t:ident = |$a:ident, $b:ident| $e:expr;)*) => { $(
        #[inline(always)]
        pub const fn $f(x: $t, y: $t) -> $t {
            let mut r = x;
            let mut i = 0;
            while i < r.0.len() {
                let ($a, $b) = (x.0[i], y.0[i]);
                r.0[i] = $e;
                i += 1;
            }
            r
        }
    )* };
}
macro_rules! lanes {
    ($t:ident, $h:ident, $e:ty, $bits:literal, $n:literal,
     $and:ident $orr:ident $eor:ident $bic:ident $orn:ident $add:ident $sub:ident $ceq:ident $cgt:ident $cge:ident $clt:ident $cle:ident $tst:ident
     $max:ident $min:ident $qadd:ident $qsub:ident
     $dup:ident $mov:ident $ld:ident $st:ident $get:ident $set:ident $shl:ident $shr:ident $sli:ident $sri:ident) => {
        map2! {
            $and: $t = |a, b| a & b;
            $orr: $t = |a, b| a | b;
            $eor: $t = |a, b| a ^ b;
            $bic: $t = |a, b| a & !b;
            $orn: $t = |a, b| a | !b;
            $add: $t = |a, b| a.wrapping_add(b);
            $sub: $t = |a, b| a.wrapping_sub(b);
            $ceq: $t = |a, b| if a == b { !0 } else { 0 };
            $cgt: $t = |a, b| if a > b { !0 } else { 0 };
            $cge: $t = |a, b| if a >= b { !0 } else { 0 };
            $clt: $t = |a, b| if a < b { !0 } else { 0 };
            $cle: $t = |a, b| if a <= b { !0 } else { 0 };
            $tst: $t = |a, b| if a & b != 0 { !0 } else { 0 };
            $max: $t = |a, b| if a > b { a } else { b };
            $min: $t = |a, b| if a < b { a } else { b };
            $qadd: $t = |a, b| a.saturating_add(b);
            $qsub: $t = |a, b| a.saturating_sub(b);
        }
        #[inline(always)]
        pub const fn $dup(x: $e) -> $t { $t([x; $n]) }
        #[inline(always)]
        pub const fn $mov(x: $e) -> $t { $t([x; $n]) }
        #[inline(always)]
        pub const unsafe fn $ld(p: *const $e) -> $t { $t((p as *const [$e; $n]).read_unaligned()) }
        #[inline(always)]
        pub unsafe fn $st(p: *mut $e, x: $t) { (p as *mut [$e; $n]).write_unaligned(x.0) }
        #[inline(always)]
        pub const fn $get<const L: i32>(x: $t) -> $e {
            const { assert!(L >= 0 && L < $n) };
            x.0[L as usize]
        }
        #[inline(always)]
        pub const fn $set<const L: i32>(v: $e, x: $t) -> $t {
            const { assert!(L >= 0 && L < $n) };
            let mut r = x;
            r.0[L as usize] = v;
            r
        }
        #[inline(always)]
        pub const fn $shl<const N: i32>(x: $t) -> $t {
            const { assert!(N >= 0 && N < $bits) };
            let mut r = x;
            let mut i = 0;
            while i < $n { r.0[i] = x.0[i] << N; i += 1; }
            r
        }
        #[inline(always)]
        pub const fn $shr<const N: i32>(x: $t) -> $t {
            const { assert!(N >= 1 && N <= $bits) };
            let mut r = x;
            let mut i = 0;
            while i < $n { r.0[i] = if N == $bits { 0 } else { x.0[i] >> (N % $bits) }; i += 1; }
            r
        }
        /// shift left and insert
        #[inline(always)]
        pub const fn $sli<const N: i32>(x: $t, y: $t) -> $t {
            const { assert!(N >= 0 && N < $bits) };
            let mut r = x;
            let mut i = 0;
            while i < $n {
                let keep: $e = ((1u128 << N) - 1) as $e;
                r.0[i] = y.0[i] << N | x.0[i] & keep;
                i += 1;
            }
            r
        }
        /// shift right and insert
        #[inline(always)]
        pub const fn $sri<const N: i32>(x: $t, y: $t) -> $t {
            const { assert!(N >= 1 && N <= $bits) };
            let mut r = x;
            let mut i = 0;
            while i < $n {
                let take: $e = ((1u128 << ($bits - N)) - 1) as $e;
                let s = if N == $bits { 0 } else { y.0[i] >> (N % $bits) };
                r.0[i] = s & take | x.0[i] & !take;
                i += 1;
            }
            r
        }
    };
}
lanes!(uint64x2_t, uint64x1_t, u64, 64, 2,
    vandq_u64 vorrq_u64 veorq_u64 vbicq_u64 vornq_u64 vaddq_u64 vsubq_u64 vceqq_u64 vcgtq_u64 vcgeq_u64 vcltq_u64 vcleq_u64 vtstq_u64
    maxq_u64_ minq_u64_ vqaddq_u64 vqsubq_u64
    vdupq_n_u64 vmovq_n_u64 vld1q_u64 vst1q_u64 vgetq_lane_u64 vsetq_lane_u64 vshlq_n_u64 vshrq_n_u64 vsliq_n_u64 vsriq_n_u64);
lanes!(uint32x4_t, uint32x2_t, u32, 32, 4,
    vandq_u32 vorrq_u32 veorq_u32 vbicq_u32 vornq_u32 vaddq_u32 vsubq_u32 vceqq_u32 vcgtq_u32 vcgeq_u32 vcltq_u32 vcleq_u32 vtstq_u32
    vmaxq_u32 vminq_u32 vqaddq_u32 vqsubq_u32
    vdupq_n_u32 vmovq_n_u32 vld1q_u32 vst1q_u32 vgetq_lane_u32 vsetq_lane_u32 vshlq_n_u32 vshrq_n_u32 vsliq_n_u32 vsriq_n_u32);
lanes!(uint16x8_t, uint16x4_t, u16, 16, 8,
    vandq_u16 vorrq_u16 veorq_u16 vbicq_u16 vornq_u16 vaddq_u16 vsubq_u16 vceqq_u16 vcgtq_u16 vcgeq_u16 vcltq_u16 vcleq_u16 vtstq_u16
    vmaxq_u16 vminq_u16 vqaddq_u16 vqsubq_u16
    vdupq_n_u16 vmovq_n_u16 vld1q_u16 vst1q_u16 vgetq_lane_u16 vsetq_lane_u16 vshlq_n_u16 vshrq_n_u16 vsliq_n_u16 vsriq_n_u16);
lanes!(uint8x16_t, uint8x8_t, u8, 8, 16,
    vandq_u8 vorrq_u8 veorq_u8 vbicq_u8 vornq_u8 vaddq_u8 vsubq_u8 vceqq_u8 vcgtq_u8 vcgeq_u8 vcltq_u8 vcleq_u8 vtstq_u8
    vmaxq_u8 vminq_u8 vqaddq_u8 vqsubq_u8
    vdupq_n_u8 vmovq_n_u8 vld1q_u8 vst1q_u8 vgetq_lane_u8 vsetq_lane_u8 vshlq_n_u8 vshrq_n_u8 vsliq_n_u8 vsriq_n_u8);
lanes!(uint64x1_t, uint64x1_t, u64, 64, 1,
    vand_u64 vorr_u64 veor_u64 vbic_u64 vorn_u64 vadd_u64 vsub_u64 vceq_u64 vcgt_u64 vcge_u64 vclt_u64 vcle_u64 vtst_u64
    max_u64_ min_u64_ vqadd_u64 vqsub_u64
    vdup_n_u64 vmov_n_u64 vld1_u64 vst1_u64 vget_lane_u64 vset_lane_u64 vshl_n_u64 vshr_n_u64 vsli_n_u64 vsri_n_u64);
lanes!(uint32x2_t, uint32x2_t, u32, 32, 2,
    vand_u32 vorr_u32 veor_u32 vbic_u32 vorn_u32 vadd_u32 vsub_u32 vceq_u32 vcgt_u32 vcge_u32 vclt_u32 vcle_u32 vtst_u32
    vmax_u32 vmin_u32 vqadd_u32 vqsub_u32
    vdup_n_u32 vmov_n_u32 vld1_u32 vst1_u32 vget_lane_u32 vset_lane_u32 vshl_n_u32 vshr_n_u32 vsli_n_u32 vsri_n_u32);
lanes!(uint8x8_t, uint8x8_t, u8, 8, 8,
    vand_u8 vorr_u8 veor_u8 vbic_u8 vorn_u8 vadd_u8 vsub_u8 vceq_u8 vcgt_u8 vcge_u8 vclt_u8 vcle_u8 vtst_u8
    vmax_u8 vmin_u8 vqadd_u8 vqsub_u8
    vdup_n_u8 vmov_n_u8 vld1_u8 vst1_u8 vget_lane_u8 vset_lane_u8 vshl_n_u8 vshr_n_u8 vsli_n_u8 vsri_n_u8);

// ---- same bits, other lanes
macro_rules! reinterpret {
    ($($f:ident : $a:ident => $b:ident;)*) => { $(
        #[inline(always)]
        pub const fn $f(x: $a) -> $b { unsafe { core::mem::transmute(x) } }
    )* };
}
reinterpret! {
    vreinterpretq_u8_u64: uint64x2_t => uint8x16_t; vreinterpretq_u64_u8: uint8x16_t => uint64x2_t;
    vreinterpretq_u16_u64: uint64x2_t => uint16x8_t; vreinterpretq_u64_u16: uint16x8_t => uint64x2_t;
    vreinterpretq_u32_u64: uint64x2_t => uint32x4_t; vreinterpretq_u64_u32: uint32x4_t => uint64x2_t;
    vreinterpretq_s64_u64: uint64x2_t => int64x2_t; vreinterpretq_u64_s64: int64x2_t => uint64x2_t;
    vreinterpretq_s8_u8: uint8x16_t => int8x16_t; vreinterpretq_u8_s8: int8x16_t => uint8x16_t;
    vreinterpretq_u8_u32: uint32x4_t => uint8x16_t; vreinterpretq_u32_u8: uint8x16_t => uint32x4_t;
    vreinterpret_u64_u32: uint32x2_t => uint64x1_t; vreinterpret_u32_u64: uint64x1_t => uint32x2_t;
    vreinterpret_u64_u8: uint8x8_t => uint64x1_t; vreinterpret_u8_u64: uint64x1_t => uint8x8_t;
    vreinterpret_u8_u32: uint32x2_t => uint8x8_t; vreinterpret_u32_u8: uint8x8_t => uint32x2_t;
    vreinterpret_u64_u16: uint16x4_t => uint64x1_t; vreinterpret_u16_u64: uint64x1_t => uint16x4_t;
}

// ---- narrowing, halves, pairs, across
#[inline(always)]
pub const fn vqmovn_u64(x: uint64x2_t) -> uint32x2_t {
    const fn sat(x: u64) -> u32 { if x > u32::MAX as u64 { u32::MAX } else { x as u32 } }
    uint32x2_t([sat(x.0[0]), sat(x.0[1])])
}
#[inline(always)]
pub const fn vmovn_u64(x: uint64x2_t) -> uint32x2_t { uint32x2_t([x.0[0] as u32, x.0[1] as u32]) }
#[inline(always)]
pub const fn vshrn_n_u64<const N: i32>(x: uint64x2_t) -> uint32x2_t {
    const { assert!(N >= 1 && N <= 32) };
    uint32x2_t([(x.0[0] >> N) as u32, (x.0[1] >> N) as u32])
}
#[inline(always)]
pub const fn vget_low_u64(x: uint64x2_t) -> uint64x1_t { uint64x1_t([x.0[0]]) }
#[inline(always)]
pub const fn vget_high_u64(x: uint64x2_t) -> uint64x1_t { uint64x1_t([x.0[1]]) }
#[inline(always)]
pub const fn vcombine_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x2_t { uint64x2_t([a.0[0], b.0[0]]) }
#[inline(always)]
pub const fn vcreate_u64(x: u64) -> uint64x1_t { uint64x1_t([x]) }
#[inline(always)]
pub const fn vextq_u64<const N: i32>(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    const { assert!(N >= 0 && N < 2) };
    if N == 0 { a } else { uint64x2_t([a.0[1], b.0[0]]) }
}
#[inline(always)]
pub const fn vzip1q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t([a.0[0], b.0[0]]) }
#[inline(always)]
pub const fn vzip2q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t([a.0[1], b.0[1]]) }
#[inline(always)]
pub const fn vpaddq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t([a.0[0].wrapping_add(a.0[1]), b.0[0].wrapping_add(b.0[1])])
}
#[inline(always)]
pub const fn vpaddd_u64(a: uint64x2_t) -> u64 { a.0[0].wrapping_add(a.0[1]) }
#[inline(always)]
pub const fn vaddvq_u64(a: uint64x2_t) -> u64 { a.0[0].wrapping_add(a.0[1]) }
#[inline(always)]
pub fn vaddvq_u8(a: uint8x16_t) -> u8 { a.0.iter().fold(0, |s, x| s.wrapping_add(*x)) }
#[inline(always)]
pub fn vaddv_u8(a: uint8x8_t) -> u8 { a.0.iter().fold(0, |s, x| s.wrapping_add(*x)) }
#[inline(always)]
pub fn vmaxvq_u8(a: uint8x16_t) -> u8 { *a.0.iter().max().unwrap() }
#[inline(always)]
pub fn vmaxvq_u32(a: uint32x4_t) -> u32 { *a.0.iter().max().unwrap() }
#[inline(always)]
pub fn vminvq_u32(a: uint32x4_t) -> u32 { *a.0.iter().min().unwrap() }
#[inline(always)]
pub fn vmaxv_u32(a: uint32x2_t) -> u32 { *a.0.iter().max().unwrap() }
#[inline(always)]
pub const fn vpmaxq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    const fn m(a: u32, b: u32) -> u32 { if a > b { a } else { b } }
    uint32x4_t([m(a.0[0], a.0[1]), m(a.0[2], a.0[3]), m(b.0[0], b.0[1]), m(b.0[2], b.0[3])])
}

// ---- one operand
#[inline(always)]
pub fn vmvnq_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(a.0.map(|x| !x)) }
#[inline(always)]
pub fn vmvnq_u32(a: uint32x4_t) -> uint32x4_t { uint32x4_t(a.0.map(|x| !x)) }
#[inline(always)]
pub fn vceqzq_u64(a: uint64x2_t) -> uint64x2_t { uint64x2_t(a.0.map(|x| if x == 0 { !0 } else { 0 })) }
#[inline(always)]
pub fn vcntq_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(a.0.map(|x| x.count_ones() as u8)) }
#[inline(always)]
pub fn vcnt_u8(a: uint8x8_t) -> uint8x8_t { uint8x8_t(a.0.map(|x| x.count_ones() as u8)) }
#[inline(always)]
pub fn vrbitq_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(a.0.map(|x| x.reverse_bits())) }
#[inline(always)]
pub fn vrev64q_u8(a: uint8x16_t) -> uint8x16_t {
    let mut r = a;
    for i in 0..16 { r.0[i] = a.0[i / 8 * 8 + 7 - i % 8]; }
    r
}
#[inline(always)]
pub fn vrev64q_u32(a: uint32x4_t) -> uint32x4_t { uint32x4_t([a.0[1], a.0[0], a.0[3], a.0[2]]) }
#[inline(always)]
pub const fn vbslq_u64(m: uint64x2_t, a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t([m.0[0] & a.0[0] | !m.0[0] & b.0[0], m.0[1] & a.0[1] | !m.0[1] & b.0[1]])
}
/// shift left by a signed amount in each lane (right if negative)
#[inline(always)]
pub fn vshlq_u64(a: uint64x2_t, b: int64x2_t) -> uint64x2_t {
    let f = |x: u64, n: i64| match n as i8 {
        n @ 0..=63 => x << n,
        n @ -63..=-1 => x >> -n,
        _ => 0,
    };
    uint64x2_t([f(a.0[0], b.0[0]), f(a.0[1], b.0[1])])
}
#[inline(always)]
pub const fn vdupq_n_s64(x: i64) -> int64x2_t { int64x2_t([x; 2]) }
#[inline(always)]
pub const fn vnegq_s64(x: int64x2_t) -> int64x2_t { int64x2_t([x.0[0].wrapping_neg(), x.0[1].wrapping_neg()]) }
