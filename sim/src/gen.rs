//! Start positions. Every generator returns positions for which `Ref::valid` holds.
use crate::prng::Rng;
use crate::refmodel::*;

pub const KINDS: [&str; 9] = [
    "startpos", "opening", "scatter", "king_hunt", "sparse_hands", "no_attacker_king", "edge_king",
    "record", "feature",
];

const RECORDS: [&str; 6] = [
    "R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1",
    "l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w RGgsn5p 1",
    "9/9/9/9/9/7p1/7+r1/6KN1/4k1S2 b Pr2b4g3s3n4l16p 1",
    "4k3K/7+p1/8+p/1p5+p1/p1p5+p/1+p1p3+p1/+p3p3+p/1+p3p1+p1/+p5+p2 b 2R2B4G4S4N4L 1",
    "7k1/5G2l/6B2/9/9/9/9/9/9 b P2rb3g4s4n3l17p 1",
    "6B2/7np/8k/7P1/7G1/9/9/9/9 b P2rb3g4s3n4l15p 1",
];

/// mirror: swap the players
pub fn mirrored(r: &Ref) -> Ref {
    let mut o = Ref::empty();
    for sq in 0..81 {
        o.bd[80 - sq] = -r.bd[sq];
    }
    o.hands = [r.hands[1], r.hands[0]];
    o.side = 1 - r.side;
    o.ply = r.ply;
    o
}

pub fn ply(rng: &mut Rng) -> u16 {
    match rng.below(8) {
        0 => 1,
        1 => rng.range(250, 256) as u16,
        2 => rng.range(32760, 32768) as u16,
        3 => rng.range(1, 50000) as u16,
        _ => rng.range(1, 300) as u16,
    }
}

fn try_put(r: &mut Ref, sq: usize, k: i8, side: usize) -> bool {
    if r.bd[sq] != 0 || immovable(k, sq, side) {
        return false;
    }
    let sign = if side == BLACK { 1 } else { -1 };
    if k == P && (0..9).any(|x| r.bd[sq / 9 * 9 + x] == P * sign) {
        return false;
    }
    r.bd[sq] = k * sign;
    true
}

fn near(rng: &mut Rng, sq: usize, d: i32) -> usize {
    loop {
        let f = (sq / 9) as i32 + rng.range(0, 2 * d as usize) as i32 - d;
        let k = (sq % 9) as i32 + rng.range(0, 2 * d as usize) as i32 - d;
        if (0..9).contains(&f) && (0..9).contains(&k) {
            return (f * 9 + k) as usize;
        }
    }
}

struct Style {
    board: f64,        // chance that a piece goes to the board
    promoted: f64,     // chance that a promotable board piece is promoted
    black: f64,        // chance that a piece belongs to Black
    clustered: f64,    // chance that a board piece is put near a king
    spread: i32,
    hand_black: f64,
    drop_out: f64,     // chance that a piece is left out altogether
    kings: [bool; 2],
    edge: bool,
}

fn random(rng: &mut Rng, st: &Style) -> Option<Ref> {
    let mut r = Ref::empty();
    let mut kings = vec![];
    for s in 0..2 {
        if !st.kings[s] {
            continue;
        }
        let mut sq = rng.below(81);
        if st.edge {
            // on an edge or in a corner, mostly on the own side or the entering side
            sq = match rng.below(4) {
                0 => rng.below(9),
                1 => 72 + rng.below(9),
                2 => rng.below(9) * 9,
                _ => rng.below(9) * 9 + 8,
            };
            if rng.chance(0.4) {
                sq = *rng.pick(&[0usize, 8, 72, 80]);
            }
        }
        if r.bd[sq] != 0 {
            return None;
        }
        r.bd[sq] = if s == BLACK { K } else { -K };
        kings.push(sq);
    }
    for k in 1..8i8 {
        for _ in 0..TOTAL[k as usize] {
            if rng.chance(st.drop_out) {
                continue;
            }
            let side = if rng.chance(st.black) { BLACK } else { WHITE };
            let mut placed = false;
            if rng.chance(st.board) {
                for _ in 0..4 {
                    let sq = if !kings.is_empty() && rng.chance(st.clustered) {
                        let base = *rng.pick(&kings);
                        near(rng, base, st.spread)
                    } else {
                        rng.below(81)
                    };
                    let kk = if rng.chance(st.promoted) { promoted(k).unwrap_or(k) } else { k };
                    if try_put(&mut r, sq, kk, side) {
                        placed = true;
                        break;
                    }
                }
            }
            if !placed {
                let s = if rng.chance(st.hand_black) { BLACK } else { WHITE };
                r.hands[s][k as usize] += 1;
            }
        }
    }
    r.side = rng.below(2);
    r.ply = ply(rng);
    if r.valid() {
        return Some(r);
    }
    r.side = 1 - r.side;
    if r.valid() {
        return Some(r);
    }
    None
}

/// A few pieces only: the attacker's men near the defending king, the rest in hand or away.
fn king_hunt(rng: &mut Rng) -> Option<Ref> {
    let mut r = Ref::empty();
    let def = rng.below(2);
    let att = 1 - def;
    let ksq = match rng.below(4) {
        0 => rng.below(81),
        1 => *rng.pick(&[0usize, 8, 72, 80]),
        2 => rng.below(9) * 9 + if rng.chance(0.7) { if def == WHITE { 0 } else { 8 } } else { rng.below(9) },
        _ => rng.below(2) * 72 + rng.below(9),
    };
    r.bd[ksq] = if def == BLACK { K } else { -K };
    if rng.chance(0.7) {
        let sq = rng.below(81);
        if r.bd[sq] == 0 {
            r.bd[sq] = if att == BLACK { K } else { -K };
        }
    }
    let mut left = TOTAL;
    let men = rng.range(2, 14);
    for i in 0..men {
        let k = *rng.pick(&[P, P, L, N, S, S, G, G, B, R, B, R]);
        if left[k as usize] == 0 {
            continue;
        }
        let side = if rng.chance(0.55) { att } else { def };
        let spread = if k == B || k == R || k == L { 8 } else { 2 + (i as i32 % 2) };
        let sq = if (k == B || k == R || k == L) && rng.chance(0.7) {
            // on a line through the king
            let d = *rng.pick(&[(0, 1), (0, -1), (1, 0), (-1, 0), (1, 1), (1, -1), (-1, 1), (-1, -1)]);
            let n = rng.range(1, 7) as i32;
            let f = (ksq / 9) as i32 + d.0 * n;
            let x = (ksq % 9) as i32 + d.1 * n;
            if !(0..9).contains(&f) || !(0..9).contains(&x) {
                continue;
            }
            if n > 1 && rng.chance(0.6) {
                // something in between: a battery or a pinned man
                let j = rng.range(1, n as usize - 1) as i32;
                let q = ((ksq / 9) as i32 + d.0 * j) * 9 + (ksq % 9) as i32 + d.1 * j;
                let bk = *rng.pick(&[P, L, N, S, G, B, R]);
                let bs = if rng.chance(0.6) { side } else { 1 - side };
                let bkk = if rng.chance(0.25) { promoted(bk).unwrap_or(bk) } else { bk };
                if left[bk as usize] > (bk == k) as u8 && try_put(&mut r, q as usize, bkk, bs) {
                    left[bk as usize] -= 1;
                }
            }
            (f * 9 + x) as usize
        } else {
            near(rng, ksq, spread)
        };
        let kk = if rng.chance(0.25) { promoted(k).unwrap_or(k) } else { k };
        if try_put(&mut r, sq, kk, side) {
            left[k as usize] -= 1;
        }
    }
    let all_rest = rng.chance(0.5);
    for k in 1..8usize {
        for _ in 0..left[k] {
            if all_rest {
                let s = if rng.chance(0.7) { def } else { att };
                r.hands[s][k] += 1;
            } else if rng.chance(0.15) {
                r.hands[rng.below(2)][k] += 1;
            }
        }
    }
    if r.hands[att][P as usize] == 0 && left[P as usize] > 0 && rng.chance(0.8) && r.census()[1] < 18 {
        r.hands[att][P as usize] += 1;
    }
    r.side = if rng.chance(0.6) { att } else { def };
    r.ply = ply(rng);
    if r.valid() {
        return Some(r);
    }
    r.side = 1 - r.side;
    if r.valid() {
        Some(r)
    } else {
        None
    }
}

pub fn playout(rng: &mut Rng, mut r: Ref, n: usize) -> Ref {
    for _ in 0..n {
        let l = r.legal();
        if l.is_empty() {
            break;
        }
        let caps: Vec<_> = l.iter().copied().filter(|m| r.bd[m.to as usize] != 0 || m.promote).collect();
        let m = if !caps.is_empty() && rng.chance(0.4) { *rng.pick(&caps) } else { *rng.pick(&l) };
        r.make(m);
    }
    r
}

/// Rejection sampling for rare situations, judged by the model only.
fn feature(rng: &mut Rng) -> Option<Ref> {
    let want = rng.below(5);
    featured(rng, want)
}

/// 0 a pawn drop would mate, 1 a pawn drop checks without mate, 2 double check, 3 evasions, 4 many moves into check
pub fn featured(rng: &mut Rng, want: usize) -> Option<Ref> {
    for _ in 0..60 {
        let Some(r) = king_hunt(rng) else { continue };
        let hit = match want {
            0 => r.legal_info().drop_mates > 0,
            1 => {
                // a pawn drop in front of the enemy king is possible and not mate
                let info = r.legal_info();
                info.moves.iter().any(|m| {
                    m.is_drop() && m.drop_kind() == P && r.after(*m).in_check(1 - r.side)
                })
            }
            2 => match r.king(r.side) {
                Some(k) => r.attackers(k, 1 - r.side).len() > 1,
                None => false,
            },
            3 => r.in_check(r.side) && r.legal().len() > 1,
            _ => r.legal_info().self_checks > 6,
        };
        if hit {
            return Some(r);
        }
    }
    None
}

/// Returns (kind index into KINDS, position).
pub fn start(rng: &mut Rng) -> (usize, Ref) {
    let mut w = [6, 10, 16, 26, 8, 6, 10, 4, 14];
    start_weighted(rng, &mut w)
}

pub fn start_weighted(rng: &mut Rng, w: &mut [usize; 9]) -> (usize, Ref) {
    loop {
        let total: usize = w.iter().sum();
        let mut x = rng.below(total);
        let mut kind = 0;
        while x >= w[kind] {
            x -= w[kind];
            kind += 1;
        }
        let r = match kind {
            0 => Some(Ref::startpos()),
            1 => {
                let n = rng.range(10, 160);
                Some(playout(rng, Ref::startpos(), n))
            }
            2 => {
                let st = Style {
                    board: 0.3 + 0.7 * rng.below(100) as f64 / 100.0,
                    promoted: rng.below(100) as f64 / 130.0,
                    black: 0.2 + rng.below(60) as f64 / 100.0,
                    clustered: rng.below(100) as f64 / 150.0,
                    spread: 3,
                    hand_black: rng.below(101) as f64 / 100.0,
                    drop_out: if rng.chance(0.5) { 0.0 } else { 0.4 },
                    kings: [true, true],
                    edge: false,
                };
                random(rng, &st)
            }
            3 => king_hunt(rng),
            4 => {
                let hb = *rng.pick(&[0.0, 0.5, 1.0, 1.0]);
                let st = Style {
                    board: 0.02 + rng.below(20) as f64 / 100.0,
                    promoted: 0.2,
                    black: hb,
                    clustered: 0.2,
                    spread: 4,
                    hand_black: hb,
                    drop_out: 0.0,
                    kings: [true, true],
                    edge: false,
                };
                random(rng, &st)
            }
            5 => {
                let one = rng.below(2);
                let st = Style {
                    board: 0.4,
                    promoted: 0.2,
                    black: 0.5,
                    clustered: 0.8,
                    spread: 3,
                    hand_black: 0.5,
                    drop_out: 0.2,
                    kings: if rng.chance(0.05) { [false, false] } else { [one == 0, one == 1] },
                    edge: rng.chance(0.5),
                };
                random(rng, &st)
            }
            6 => {
                let st = Style {
                    board: 0.45,
                    promoted: 0.25,
                    black: 0.5,
                    clustered: 0.85,
                    spread: 2,
                    hand_black: 0.5,
                    drop_out: 0.3,
                    kings: [true, true],
                    edge: true,
                };
                random(rng, &st)
            }
            7 => Ref::from_sfen(rng.pick(&RECORDS)),
            _ => feature(rng),
        };
        if let Some(mut r) = r {
            if rng.chance(0.5) {
                r = mirrored(&r);
            }
            if kind != 0 && rng.chance(0.3) {
                r.ply = ply(rng);
            }
            if r.valid() {
                return (kind, r);
            }
        }
    }
}
