//! Any call with any argument (C19). The library may answer anything or panic; it may not lead to undefined
//! behaviour, and objects that have seen a panic may be used on.
use crate::gen;
use crate::prng::Rng;
use crate::refmodel::Ref;
use crate::script::Op;
use shogi_core::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yasai::Position;

fn any_square(rng: &mut Rng) -> Square {
    Square::from_u8(1 + rng.below(81) as u8).unwrap()
}
fn any_color(rng: &mut Rng) -> Color {
    if rng.chance(0.5) {
        Color::Black
    } else {
        Color::White
    }
}
fn any_piece(rng: &mut Rng) -> Piece {
    Piece::new(PieceKind::from_u8(1 + rng.below(14) as u8).unwrap(), any_color(rng))
}

/// Squares of the edges and pieces that cannot move from there are what arithmetic on squares trips over.
fn edge(rng: &mut Rng) -> Square {
    let far = [1, 2, 8, 9];
    Square::new(*rng.pick(&[1, 9, 9, 5]), *rng.pick(&far)).unwrap()
}

/// What the types of shogi_core allow, and nothing more sensible.
pub fn junk(rng: &mut Rng) -> PartialPosition {
    let mut p = PartialPosition::empty();
    let n = *rng.pick(&[0usize, 2, 6, 20, 40, 81]);
    for _ in 0..n {
        let q = if rng.chance(0.3) { edge(rng) } else { any_square(rng) };
        let x = any_piece(rng);
        p.piece_set(q, Some(x));
    }
    if rng.chance(0.25) {
        // more moves than any real position has: a far-reaching piece in every rank and file, full hands
        p = PartialPosition::empty();
        let c = any_color(rng);
        let (a, b) = (rng.below(9), *rng.pick(&[1usize, 2, 4, 5, 7, 8]));
        let kinds = [PieceKind::ProRook, PieceKind::ProBishop, PieceKind::Rook, PieceKind::Bishop];
        let mixed = rng.chance(0.5);
        for i in 0..9 {
            let k = if mixed { *rng.pick(&kinds) } else { kinds[0] };
            p.piece_set(Square::new(i as u8 + 1, ((a + i * b) % 9) as u8 + 1).unwrap(), Some(Piece::new(k, c)));
        }
        let h = p.hand_of_a_player_mut(c);
        for k in 1..8 {
            for _ in 0..rng.range(1, 4) {
                if let Some(x) = h.added(PieceKind::from_u8(k).unwrap()) {
                    *h = x;
                }
            }
        }
        p.side_to_move_set(c);
        return p;
    }
    if rng.chance(0.7) {
        for c in [Color::Black, Color::White] {
            let q = any_square(rng);
            p.piece_set(q, Some(Piece::new(PieceKind::King, c)));
        }
    }
    let most = *rng.pick(&[0usize, 2, 18, 40]);
    for c in [Color::Black, Color::White] {
        for _ in 0..rng.below(most + 1) {
            let pk = PieceKind::from_u8(1 + rng.below(7) as u8).unwrap();
            let h = p.hand_of_a_player_mut(c);
            if let Some(x) = h.added(pk) {
                *h = x;
            }
        }
    }
    let c = any_color(rng);
    p.side_to_move_set(c);
    let _ = p.ply_set(*rng.pick(&[1u16, 2, 300, 65_534, 65_535]));
    p
}

/// Mostly with pieces that are there, often onto others.
fn any_move(p: &Position, rng: &mut Rng) -> Move {
    if rng.chance(0.5) {
        let mut own = vec![];
        let mut kings = vec![];
        for q in Square::all() {
            if let Some(x) = p.piece_at(q) {
                own.push(q);
                if x.piece_kind() == PieceKind::King {
                    kings.push(q);
                }
            }
        }
        if !own.is_empty() {
            let from = *rng.pick(&own);
            let to = if !kings.is_empty() && rng.chance(0.4) {
                *rng.pick(&kings)
            } else if rng.chance(0.5) {
                *rng.pick(&own)
            } else {
                any_square(rng)
            };
            return Move::Normal { from, to, promote: rng.chance(0.3) };
        }
    }
    if rng.chance(0.7) {
        let from = if rng.chance(0.2) { edge(rng) } else { any_square(rng) };
        let to = if rng.chance(0.3) { edge(rng) } else { any_square(rng) };
        Move::Normal { from, to, promote: rng.chance(0.3) }
    } else {
        let to = any_square(rng);
        Move::Drop { piece: any_piece(rng), to }
    }
}

/// n calls on an object; what they answered goes into a number (so that nothing is optimised away).
pub fn abuse(mut p: Position, rng: &mut Rng, n: usize) -> u64 {
    let mut sum = 0u64;
    let mut made: Vec<Move> = vec![];
    let mut spare: Option<Position> = None;
    for _ in 0..n {
        let what = *rng.pick(&[0usize, 1, 2, 3, 5, 6, 7, 8, 8, 8, 9, 11, 12, 13, 14, 15]);
        let wild = match what {
            0..=8 => catch_unwind(AssertUnwindSafe(|| any_move(&p, rng))).unwrap_or(Move::Drop { piece: Piece::B_P, to: Square::SQ_5E }),
            _ => Move::Drop { piece: Piece::B_P, to: Square::SQ_5E },
        };
        let sane = rng.chance(0.6);
        let r = catch_unwind(AssertUnwindSafe(|| -> u64 {
            match what {
                0..=4 => {
                    let l = if sane { p.legal_moves() } else { Default::default() };
                    let m = if l.is_empty() { wild } else { l[rng.below(l.len())] };
                    made.push(m);
                    p.do_move(m);
                    1
                }
                5..=7 => {
                    // the right one, one from further below, or any
                    let m = match (made.len(), sane) {
                        (0, _) => wild,
                        (_, true) => made.pop().unwrap(),
                        (k, false) => made.remove(rng.below(k)),
                    };
                    p.undo_move(m);
                    2
                }
                8 => {
                    let mut n = p.is_check_move(wild) as u64;
                    // from everywhere to one square
                    let to = wild.to();
                    for from in Square::all() {
                        if p.piece_at(from).is_some() {
                            let m = Move::Normal { from, to, promote: sane };
                            n = n * 2 + catch_unwind(AssertUnwindSafe(|| p.is_check_move(m))).unwrap_or(true) as u64;
                        }
                    }
                    n
                }
                9 | 10 => {
                    let l = p.legal_moves();
                    l.iter().take(12).fold(l.len() as u64, |a, m| a * 2 + p.is_check_move(*m) as u64)
                }
                11 => p.key() ^ p.keys().0 ^ p.keys().1 ^ p.ply() as u64,
                12 => {
                    let q = any_square(rng);
                    let h = p.hand(any_color(rng));
                    if q.index() % 16 == 7 {
                        std::hint::black_box(format!("{p:?}"));
                    }
                    p.piece_at(q).map_or(0, |x| x.as_u8() as u64)
                        + PieceKind::all().iter().filter_map(|k| h.count(*k)).map(|x| x as u64).sum::<u64>()
                        + p.in_check() as u64
                }
                13 => {
                    let c = p.clone();
                    spare = Some(std::mem::replace(&mut p, c));
                    3
                }
                14 => {
                    match &mut spare {
                        Some(s) => s.clone_from(&p),
                        None => spare = Some(p.clone()),
                    }
                    4
                }
                _ => {
                    if sane {
                        let m = made.last().copied();
                        if let (Some(s), Some(m)) = (&mut spare, m) {
                            std::mem::swap(s, &mut p);
                            p.undo_move(m);
                        }
                    } else {
                        p = Position::new(junk(rng));
                        made.clear();
                    }
                    5
                }
            }
        }));
        sum = crate::prng::mix(sum ^ r.unwrap_or(77));
    }
    sum
}

/// Positions, some moves on them, abuse, and use of the originals afterwards.
pub fn script(seed: u64, long: bool) -> Vec<Op> {
    let mut rng = Rng::new(seed ^ 0x61_6275_7365);
    let mut v = vec![];
    let slots = rng.range(1, 3);
    for s in 0..slots {
        let mut r: Ref = gen::start(&mut rng).1;
        v.push(Op::New(s, r.clone()));
        for _ in 0..rng.below(if long { 40 } else { 6 }) {
            let l = r.legal();
            if l.is_empty() || r.ply == u16::MAX {
                break;
            }
            let m = *rng.pick(&l);
            r.make(m);
            v.push(Op::Do(s, m));
        }
    }
    for _ in 0..rng.range(1, 4) {
        let n = rng.range(5, if long { 400 } else { 25 });
        v.push(Op::Abuse(rng.below(slots), rng.next(), n));
        if rng.chance(0.5) {
            v.push(Op::Undo(rng.below(slots)));
        }
    }
    for s in 0..slots {
        v.push(Op::Obs(s));
    }
    v
}

/// Short scripts, for an interpreter: few moves, but of every sort, and what is unusual first.
/// Tame ones make legal moves only.
pub fn short_script(seed: u64, tame: bool) -> Vec<Op> {
    let mut rng = Rng::new(seed ^ 0x73_686f_7274);
    let mut v = vec![];
    let mut r: Ref = gen::start(&mut rng).1;
    if rng.chance(0.1) {
        r.ply = u16::MAX - rng.below(3) as u16;
    }
    if rng.chance(0.15) {
        r = Ref::startpos();
    }
    v.push(Op::New(0, r.clone()));
    let mut depth = 0;
    let mut have = vec![0usize];
    for _ in 0..rng.range(3, 10) {
        match rng.below(12) {
            0..=5 => {
                let mut l = r.legal();
                if l.is_empty() || r.ply == u16::MAX {
                    continue;
                }
                let sort = rng.below(5);
                let some: Vec<_> = l
                    .iter()
                    .copied()
                    .filter(|m| match sort {
                        0 => m.is_drop(),
                        1 => m.promote,
                        2 => r.bd[m.to as usize] != 0,
                        3 => {
                            let n = r.after(*m);
                            n.in_check(n.side)
                        }
                        _ => true,
                    })
                    .collect();
                if !some.is_empty() {
                    l = some;
                }
                let m = *rng.pick(&l);
                r.make(m);
                depth += 1;
                v.push(Op::Do(0, m));
            }
            6 => {
                if depth == 0 {
                    continue;
                }
                // the model is remade from the list
                v.push(Op::Undo(0));
                depth -= 1;
                let mut stack: Vec<Ref> = vec![];
                for op in &v {
                    match op {
                        Op::New(0, q) => stack = vec![q.clone()],
                        Op::Do(0, m) => {
                            let mut q = stack.last().unwrap().clone();
                            q.make(*m);
                            stack.push(q);
                        }
                        Op::Undo(0) => {
                            stack.pop();
                        }
                        _ => {}
                    }
                }
                r = stack.pop().unwrap();
            }
            7 => {
                let d = rng.range(1, 3);
                v.push(Op::Clone(d, 0));
                if !have.contains(&d) {
                    have.push(d);
                }
            }
            8 => {
                let s = *rng.pick(&have);
                if s != 0 {
                    v.push(Op::Undo(s));
                }
            }
            n if n == 9 || tame => v.push(Op::Obs(*rng.pick(&have))),
            _ => v.push(Op::Abuse(*rng.pick(&have), rng.next(), rng.range(3, 8))),
        }
    }
    if rng.chance(0.5) {
        v.push(Op::Drop(0));
    }
    v.push(Op::Obs(*rng.pick(&have)));
    v
}
