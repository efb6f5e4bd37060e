//! An independent, deliberately simple model of shogi: a mailbox board, moves found by walking
//! steps and rays, legality decided by making the move on a copy and looking at the king.
//! Nothing here uses the library under test. Rules: https://en.wikipedia.org/wiki/Shogi
//!
//! Square index: (file - 1) * 9 + (rank - 1); rank 1 (index 0) is White's back rank, Black moves
//! towards smaller ranks.

pub const P: i8 = 1;
pub const L: i8 = 2;
pub const N: i8 = 3;
pub const S: i8 = 4;
pub const G: i8 = 5;
pub const B: i8 = 6;
pub const R: i8 = 7;
pub const K: i8 = 8;
pub const PP: i8 = 9;
pub const PL: i8 = 10;
pub const PN: i8 = 11;
pub const PS: i8 = 12;
pub const PB: i8 = 13;
pub const PR: i8 = 14;

/// standard number of pieces of each kind (index = unpromoted kind)
pub const TOTAL: [u8; 9] = [0, 18, 4, 4, 4, 4, 2, 2, 2];

pub const BLACK: usize = 0;
pub const WHITE: usize = 1;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Mv {
    /// 0..81, or 100 + kind for a drop
    pub from: u8,
    pub to: u8,
    pub promote: bool,
}

impl Mv {
    pub fn is_drop(self) -> bool {
        self.from >= 100
    }
    pub fn drop_kind(self) -> i8 {
        (self.from - 100) as i8
    }
    pub fn usi(self) -> String {
        let sq = |s: u8| {
            let mut t = String::new();
            t.push((b'1' + s / 9) as char);
            t.push((b'a' + s % 9) as char);
            t
        };
        if self.is_drop() {
            format!("{}*{}", LETTER[self.drop_kind() as usize], sq(self.to))
        } else {
            format!("{}{}{}", sq(self.from), sq(self.to), if self.promote { "+" } else { "" })
        }
    }
    pub fn parse(s: &str) -> Option<Mv> {
        let b = s.as_bytes();
        if b.len() < 4 {
            return None;
        }
        let sq = |f: u8, r: u8| -> Option<u8> {
            if (b'1'..=b'9').contains(&f) && (b'a'..=b'i').contains(&r) {
                Some((f - b'1') * 9 + (r - b'a'))
            } else {
                None
            }
        };
        if b[1] == b'*' {
            let k = LETTER.iter().position(|l| l.as_bytes() == [b[0]])?;
            if k == 0 || k > 7 {
                return None;
            }
            return Some(Mv { from: 100 + k as u8, to: sq(b[2], b[3])?, promote: false });
        }
        Some(Mv { from: sq(b[0], b[1])?, to: sq(b[2], b[3])?, promote: b.len() > 4 && b[4] == b'+' })
    }
}

const LETTER: [&str; 15] =
    ["", "P", "L", "N", "S", "G", "B", "R", "K", "+P", "+L", "+N", "+S", "+B", "+R"];

pub fn promoted(k: i8) -> Option<i8> {
    match k {
        P => Some(PP),
        L => Some(PL),
        N => Some(PN),
        S => Some(PS),
        B => Some(PB),
        R => Some(PR),
        _ => None,
    }
}

pub fn demoted(k: i8) -> i8 {
    match k {
        PP => P,
        PL => L,
        PN => N,
        PS => S,
        PB => B,
        PR => R,
        k => k,
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ref {
    /// 0 empty, +kind Black, -kind White
    pub bd: [i8; 81],
    pub hands: [[u8; 8]; 2],
    pub side: usize,
    pub ply: u16,
}

// (file delta, rank delta) for Black; White's are negated in rank.
const GOLD: &[(i8, i8)] = &[(0, -1), (1, -1), (-1, -1), (1, 0), (-1, 0), (0, 1)];
const SILVER: &[(i8, i8)] = &[(0, -1), (1, -1), (-1, -1), (1, 1), (-1, 1)];
const KNIGHT: &[(i8, i8)] = &[(1, -2), (-1, -2)];
const PAWN: &[(i8, i8)] = &[(0, -1)];
const KING: &[(i8, i8)] =
    &[(0, -1), (1, -1), (-1, -1), (1, 0), (-1, 0), (0, 1), (1, 1), (-1, 1)];
const ORTH: &[(i8, i8)] = &[(0, -1), (0, 1), (1, 0), (-1, 0)];
const DIAG: &[(i8, i8)] = &[(1, -1), (-1, -1), (1, 1), (-1, 1)];
const NONE: &[(i8, i8)] = &[];

/// single steps and rays of a kind (Black's orientation)
fn shape(k: i8) -> (&'static [(i8, i8)], &'static [(i8, i8)]) {
    match k {
        P => (PAWN, NONE),
        L => (NONE, PAWN),
        N => (KNIGHT, NONE),
        S => (SILVER, NONE),
        G | PP | PL | PN | PS => (GOLD, NONE),
        B => (NONE, DIAG),
        R => (NONE, ORTH),
        K => (KING, NONE),
        PB => (ORTH, DIAG),
        PR => (DIAG, ORTH),
        _ => (NONE, NONE),
    }
}

fn step(sq: usize, d: (i8, i8)) -> Option<usize> {
    let f = (sq / 9) as i8 + d.0;
    let r = (sq % 9) as i8 + d.1;
    if (0..9).contains(&f) && (0..9).contains(&r) {
        Some((f * 9 + r) as usize)
    } else {
        None
    }
}

/// rank seen from the side: 1 is the farthest (promotion) rank
pub fn rel_rank(sq: usize, side: usize) -> usize {
    if side == BLACK {
        sq % 9 + 1
    } else {
        9 - sq % 9
    }
}

/// Can a piece of this kind ever move again from the square?
pub fn immovable(k: i8, sq: usize, side: usize) -> bool {
    match k {
        P | L => rel_rank(sq, side) <= 1,
        N => rel_rank(sq, side) <= 2,
        _ => false,
    }
}

fn owner(p: i8) -> usize {
    if p > 0 {
        BLACK
    } else {
        WHITE
    }
}

pub struct LegalInfo {
    pub moves: Vec<Mv>,
    /// pawn drops that the rules forbid because they would be mate
    pub drop_mates: u32,
    /// pseudo-legal moves refused because they leave the king attacked
    pub self_checks: u32,
}

impl Ref {
    pub fn empty() -> Ref {
        Ref { bd: [0; 81], hands: [[0; 8]; 2], side: BLACK, ply: 1 }
    }
    pub fn king(&self, side: usize) -> Option<usize> {
        let k = if side == BLACK { K } else { -K };
        self.bd.iter().position(|&p| p == k)
    }
    /// Squares a piece standing on `sq` attacks.
    pub fn for_attacks(&self, sq: usize, mut f: impl FnMut(usize)) {
        let p = self.bd[sq];
        let side = owner(p);
        let (steps, rays) = shape(p.abs());
        let flip = |d: (i8, i8)| if side == BLACK { d } else { (d.0, -d.1) };
        for &d in steps {
            if let Some(t) = step(sq, flip(d)) {
                f(t);
            }
        }
        for &d in rays {
            let d = flip(d);
            let mut cur = sq;
            while let Some(t) = step(cur, d) {
                f(t);
                if self.bd[t] != 0 {
                    break;
                }
                cur = t;
            }
        }
    }
    /// Squares of the pieces of `by` that attack `sq`, found by asking every piece.
    pub fn attackers(&self, sq: usize, by: usize) -> Vec<usize> {
        let mut v = vec![];
        for s in 0..81 {
            if self.bd[s] != 0 && owner(self.bd[s]) == by {
                let mut hit = false;
                self.for_attacks(s, |t| hit |= t == sq);
                if hit {
                    v.push(s);
                }
            }
        }
        v
    }
    /// The same question answered by walking away from the square (fast; cross-checked in tests).
    pub fn attacked(&self, sq: usize, by: usize) -> bool {
        let sign = if by == BLACK { 1i8 } else { -1 };
        for &d in KING {
            // a piece of `by` at sq + d*n attacks sq if it moves by -d
            let mut cur = sq;
            let mut dist = 0;
            while let Some(t) = step(cur, d) {
                dist += 1;
                let p = self.bd[t];
                if p != 0 {
                    if p * sign > 0 {
                        let k = p.abs();
                        // delta of the attacker in Black's orientation
                        let back = if by == BLACK { (-d.0, -d.1) } else { (-d.0, d.1) };
                        let (steps, rays) = shape(k);
                        if dist == 1 && k != N && steps.contains(&back) {
                            return true;
                        }
                        if rays.contains(&back) {
                            return true;
                        }
                    }
                    break;
                }
                cur = t;
            }
        }
        for &d in KNIGHT {
            let dd = if by == BLACK { (d.0, -d.1) } else { d };
            if let Some(t) = step(sq, dd) {
                if self.bd[t] == N * sign {
                    return true;
                }
            }
        }
        false
    }
    pub fn in_check(&self, side: usize) -> bool {
        match self.king(side) {
            Some(k) => self.attacked(k, 1 - side),
            None => false,
        }
    }
    /// Makes a move that obeys the movement rules; returns the captured piece (0 if none).
    pub fn make(&mut self, m: Mv) -> i8 {
        let side = self.side;
        let sign = if side == BLACK { 1i8 } else { -1 };
        let to = m.to as usize;
        let cap = self.bd[to];
        if m.is_drop() {
            let k = m.drop_kind();
            self.hands[side][k as usize] -= 1;
            self.bd[to] = k * sign;
        } else {
            let from = m.from as usize;
            let mut k = self.bd[from].abs();
            if cap != 0 {
                self.hands[side][demoted(cap.abs()) as usize] += 1;
            }
            if m.promote {
                k = promoted(k).expect("promotion of an unpromotable piece");
            }
            self.bd[from] = 0;
            self.bd[to] = k * sign;
        }
        self.side = 1 - side;
        self.ply = self.ply.wrapping_add(1);
        cap
    }
    pub fn after(&self, m: Mv) -> Ref {
        let mut r = self.clone();
        r.make(m);
        r
    }
    /// Moves obeying movement, promotion, drop and two-pawn rules, ignoring king safety.
    pub fn pseudo(&self) -> Vec<Mv> {
        let side = self.side;
        let sign = if side == BLACK { 1i8 } else { -1 };
        let mut v = Vec::with_capacity(128);
        for sq in 0..81 {
            let p = self.bd[sq];
            if p * sign <= 0 {
                continue;
            }
            let k = p.abs();
            self.for_attacks(sq, |t| {
                if self.bd[t] * sign > 0 {
                    return;
                }
                let m = Mv { from: sq as u8, to: t as u8, promote: false };
                if !immovable(k, t, side) {
                    v.push(m);
                }
                if promoted(k).is_some() && (rel_rank(sq, side) <= 3 || rel_rank(t, side) <= 3) {
                    v.push(Mv { promote: true, ..m });
                }
            });
        }
        for k in 1..=7i8 {
            if self.hands[side][k as usize] == 0 {
                continue;
            }
            for t in 0..81 {
                if self.bd[t] != 0 || immovable(k, t, side) {
                    continue;
                }
                if k == P && (0..9).any(|r| self.bd[t / 9 * 9 + r] == P * sign) {
                    continue;
                }
                v.push(Mv { from: 100 + k as u8, to: t as u8, promote: false });
            }
        }
        v
    }
    /// Legal moves, sorted, and how many pseudo-legal moves each prohibition removed.
    pub fn legal_info(&self) -> LegalInfo {
        let side = self.side;
        let mut out = LegalInfo { moves: vec![], drop_mates: 0, self_checks: 0 };
        for m in self.pseudo() {
            let a = self.after(m);
            if a.in_check(side) {
                out.self_checks += 1;
                continue;
            }
            if m.is_drop() && m.drop_kind() == P && a.in_check(1 - side) && !a.has_reply() {
                out.drop_mates += 1;
                continue;
            }
            out.moves.push(m);
        }
        out.moves.sort();
        out
    }
    pub fn legal(&self) -> Vec<Mv> {
        self.legal_info().moves
    }
    /// Is there any move that does not leave the own king attacked?
    fn has_reply(&self) -> bool {
        let side = self.side;
        self.pseudo().into_iter().any(|m| !self.after(m).in_check(side))
    }
    pub fn perft(&self, depth: usize) -> u64 {
        if depth == 0 {
            return 1;
        }
        let l = self.legal();
        if depth == 1 {
            return l.len() as u64;
        }
        l.into_iter().map(|m| self.after(m).perft(depth - 1)).sum()
    }
    /// Number of pieces of each unpromoted kind on board and in hands.
    pub fn census(&self) -> [u8; 9] {
        let mut c = [0u8; 9];
        for &p in &self.bd {
            if p != 0 {
                c[demoted(p.abs()) as usize] += 1;
            }
        }
        for h in &self.hands {
            for k in 1..8 {
                c[k] += h[k];
            }
        }
        c
    }
    /// Is this a position the properties speak about?
    pub fn valid(&self) -> bool {
        let c = self.census();
        if (1..9).any(|k| c[k] > TOTAL[k]) {
            return false;
        }
        let mut pawns = [[0; 9]; 2];
        for sq in 0..81 {
            let p = self.bd[sq];
            if p == 0 {
                continue;
            }
            let side = owner(p);
            if immovable(p.abs(), sq, side) {
                return false;
            }
            if p.abs() == P {
                pawns[side][sq / 9] += 1;
                if pawns[side][sq / 9] > 1 {
                    return false;
                }
            }
        }
        for s in 0..2 {
            let k = if s == BLACK { K } else { -K };
            if self.bd.iter().filter(|&&p| p == k).count() > 1 {
                return false;
            }
        }
        !self.in_check(1 - self.side) && self.ply >= 1
    }
    pub fn startpos() -> Ref {
        Ref::from_sfen("lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1").unwrap()
    }
    pub fn to_sfen(&self) -> String {
        let mut s = String::new();
        for r in 0..9 {
            let mut gap = 0;
            for f in (0..9).rev() {
                let p = self.bd[f * 9 + r];
                if p == 0 {
                    gap += 1;
                    continue;
                }
                if gap > 0 {
                    s += &gap.to_string();
                    gap = 0;
                }
                let l = LETTER[p.unsigned_abs() as usize];
                if p > 0 {
                    s += l;
                } else {
                    s += &l.to_lowercase();
                }
            }
            if gap > 0 {
                s += &gap.to_string();
            }
            if r < 8 {
                s.push('/');
            }
        }
        s += if self.side == BLACK { " b " } else { " w " };
        let mut any = false;
        for side in 0..2 {
            for k in (1..8).rev() {
                let n = self.hands[side][k];
                if n > 0 {
                    any = true;
                    if n > 1 {
                        s += &n.to_string();
                    }
                    if side == BLACK {
                        s += LETTER[k];
                    } else {
                        s += &LETTER[k].to_lowercase();
                    }
                }
            }
        }
        if !any {
            s.push('-');
        }
        s += &format!(" {}", self.ply);
        s
    }
    pub fn from_sfen(s: &str) -> Option<Ref> {
        let mut it = s.split_whitespace();
        let board = it.next()?;
        let side = it.next()?;
        let hands = it.next()?;
        let ply = it.next().unwrap_or("1");
        let mut r = Ref::empty();
        for (rank, row) in board.split('/').enumerate() {
            let mut f: i32 = 8;
            let mut plus = false;
            for ch in row.chars() {
                if let Some(d) = ch.to_digit(10) {
                    f -= d as i32;
                } else if ch == '+' {
                    plus = true;
                } else {
                    let k = LETTER.iter().position(|l| *l == ch.to_ascii_uppercase().to_string())? as i8;
                    let k = if plus { promoted(k)? } else { k };
                    plus = false;
                    if !(0..9).contains(&f) || rank > 8 {
                        return None;
                    }
                    r.bd[f as usize * 9 + rank] = if ch.is_ascii_uppercase() { k } else { -k };
                    f -= 1;
                }
            }
        }
        r.side = if side == "b" { BLACK } else { WHITE };
        if hands != "-" {
            let mut n = 0u32;
            for ch in hands.chars() {
                if let Some(d) = ch.to_digit(10) {
                    n = n * 10 + d;
                } else {
                    let k = LETTER.iter().position(|l| *l == ch.to_ascii_uppercase().to_string())?;
                    let s = if ch.is_ascii_uppercase() { BLACK } else { WHITE };
                    r.hands[s][k] += n.max(1) as u8;
                    n = 0;
                }
            }
        }
        r.ply = ply.parse().ok()?;
        Some(r)
    }
    /// A strong hash of (board, side) and of the hands, unrelated to the library's keys.
    pub fn fingerprint(&self) -> (u128, u128) {
        fn h(bytes: impl Iterator<Item = u8>, salt: u64) -> u128 {
            let (mut a, mut b) = (crate::prng::mix(salt), crate::prng::mix(salt ^ 0x55));
            let mut n = 0u64;
            let mut acc = 0u64;
            for x in bytes {
                acc = acc << 8 | x as u64;
                n += 1;
                if n % 8 == 0 {
                    a = crate::prng::mix(a ^ acc);
                    b = crate::prng::mix(b.rotate_left(17) ^ acc.wrapping_mul(0xff51_afd7_ed55_8ccd));
                    acc = 0;
                }
            }
            a = crate::prng::mix(a ^ acc ^ n);
            b = crate::prng::mix(b ^ acc.wrapping_mul(3) ^ n);
            (a as u128) << 64 | b as u128
        }
        (
            h(self.bd.iter().map(|&p| p as u8).chain([self.side as u8]), 1),
            h(self.hands.iter().flat_map(|h| h.iter().copied()), 2),
        )
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn perft_known() {
        let r = Ref::startpos();
        assert_eq!(r.perft(1), 30);
        assert_eq!(r.perft(2), 900);
        assert_eq!(r.perft(3), 25470);
        assert_eq!(r.perft(4), 719731);
        let m = Ref::from_sfen("R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1").unwrap();
        assert_eq!(m.perft(1), 593);
        assert_eq!(m.perft(2), 105677);
        let b = Ref::from_sfen("l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w RGgsn5p 1").unwrap();
        assert_eq!(b.perft(1), 207);
        assert_eq!(b.perft(2), 28684);
    }
    #[test]
    fn attacked_agrees() {
        let mut rng = crate::prng::Rng::new(7);
        for _ in 0..3000 {
            let r = crate::gen::start(&mut rng).1;
            for sq in 0..81 {
                for by in 0..2 {
                    assert_eq!(r.attacked(sq, by), !r.attackers(sq, by).is_empty(), "{}", r.to_sfen());
                }
            }
            assert_eq!(Ref::from_sfen(&r.to_sfen()), Some(r));
        }
    }
}
