//! Everything an outside user can see of a position, as plain values.
use crate::refmodel::*;
use shogi_core::{Color, Hand, Move, PartialPosition, Piece, PieceKind, Square};
use yasai::Position;

pub fn sq(i: u8) -> Square {
    Square::from_u8(i + 1).unwrap()
}
pub fn color(s: usize) -> Color {
    if s == BLACK {
        Color::Black
    } else {
        Color::White
    }
}
pub fn to_move(m: Mv, side: usize) -> Move {
    if m.is_drop() {
        let pk = PieceKind::from_u8(m.drop_kind() as u8).unwrap();
        Move::Drop { piece: Piece::new(pk, color(side)), to: sq(m.to) }
    } else {
        Move::Normal { from: sq(m.from), to: sq(m.to), promote: m.promote }
    }
}
/// None: something no legal move can be (drop of the wrong colour or of a promoted piece)
pub fn from_move(m: Move, side: usize) -> Option<Mv> {
    match m {
        Move::Normal { from, to, promote } => {
            Some(Mv { from: from.index() - 1, to: to.index() - 1, promote })
        }
        Move::Drop { piece, to } => {
            let (pk, c) = piece.to_parts();
            if c != color(side) || !Hand::is_hand_piece(pk) {
                return None;
            }
            Some(Mv { from: 100 + pk as u8, to: to.index() - 1, promote: false })
        }
    }
}
pub fn piece(p: i8) -> Option<Piece> {
    if p == 0 {
        return None;
    }
    Some(Piece::new(
        PieceKind::from_u8(p.unsigned_abs()).unwrap(),
        if p > 0 { Color::Black } else { Color::White },
    ))
}
pub fn partial(r: &Ref) -> PartialPosition {
    let mut pp = PartialPosition::empty();
    for i in 0..81u8 {
        pp.piece_set(sq(i), piece(r.bd[i as usize]));
    }
    for s in 0..2 {
        let h = pp.hand_of_a_player_mut(color(s));
        for k in 1..8u8 {
            for _ in 0..r.hands[s][k as usize] {
                *h = h.added(PieceKind::from_u8(k).unwrap()).unwrap();
            }
        }
    }
    pp.side_to_move_set(color(r.side));
    assert!(pp.ply_set(r.ply));
    pp
}

/// The order of the moves in the list: the same for the same calls in every build (C13, C18), but no part of the
/// answer otherwise.
#[derive(Clone, Debug, Default)]
pub struct Order(pub u64);
impl PartialEq for Order {
    fn eq(&self, _: &Order) -> bool {
        true
    }
}
impl Eq for Order {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obs {
    pub bd: [i8; 81],
    pub hands: [[u8; 8]; 2],
    pub side: usize,
    pub ply: u16,
    pub key: u64,
    pub keys: (u64, u64),
    pub in_check: bool,
    /// sorted; a move the list should never contain is reported as (255, 255)
    pub legal: Vec<Mv>,
    /// is_check_move for each entry of `legal`
    pub checks: Vec<bool>,
    pub order: Order,
}

pub fn observe(p: &Position) -> Obs {
    let side = if p.side_to_move() == Color::Black { BLACK } else { WHITE };
    let mut o = Obs {
        bd: [0; 81],
        hands: [[0; 8]; 2],
        side,
        ply: p.ply(),
        key: p.key(),
        keys: p.keys(),
        in_check: p.in_check(),
        legal: vec![],
        checks: vec![],
        order: Order(0),
    };
    for i in 0..81u8 {
        o.bd[i as usize] = match p.piece_at(sq(i)) {
            None => 0,
            Some(x) => {
                let (k, c) = x.to_parts();
                if c == Color::Black {
                    k as u8 as i8
                } else {
                    -(k as u8 as i8)
                }
            }
        };
    }
    for s in 0..2 {
        let h = p.hand(color(s));
        for k in 1..8u8 {
            o.hands[s][k as usize] = h.count(PieceKind::from_u8(k).unwrap()).unwrap_or(0);
        }
    }
    let mut v: Vec<(Mv, bool)> = p
        .legal_moves()
        .into_iter()
        .map(|m| match from_move(m, side) {
            Some(x) => (x, p.is_check_move(m)),
            None => (Mv { from: 255, to: 255, promote: false }, false),
        })
        .collect();
    for (m, _) in &v {
        o.order.0 = crate::prng::mix(o.order.0 ^ (m.from as u64 | (m.to as u64) << 8 | (m.promote as u64) << 16));
    }
    v.sort();
    o.legal = v.iter().map(|x| x.0).collect();
    o.checks = v.iter().map(|x| x.1).collect();
    o
}

/// Runs a call into the library; a panic becomes an error message.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let before = crate::memory::enter();
    let r = crate::hands::catch(f);
    match r {
        Ok(x) => {
            crate::memory::leave(before);
            Ok(x)
        }
        Err(e) => {
            let mut text = [0u8; 160];
            let n = {
                let m: &str = if let Some(s) = e.downcast_ref::<&str>() {
                    s
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s
                } else {
                    "?"
                };
                let n = m.len().min(160);
                text[..n].copy_from_slice(&m.as_bytes()[..n]);
                n
            };
            drop(e);
            crate::memory::leave(before);
            Err(format!("{what} panicked: {}", String::from_utf8_lossy(&text[..n])))
        }
    }
}

/// As `guard`, for calls whose results live on in the harness: not part of the memory account.
pub fn guard_out<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match crate::hands::catch(f) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned());
            Err(format!("{what} panicked: {}", m.unwrap_or("?".into())))
        }
    }
}

impl Obs {
    /// First difference to another observation, in words.
    pub fn diff(&self, o: &Obs) -> Option<String> {
        if self.bd != o.bd {
            let i = (0..81).find(|&i| self.bd[i] != o.bd[i]).unwrap();
            return Some(format!("piece at index {i}: {} vs {}", self.bd[i], o.bd[i]));
        }
        if self.hands != o.hands {
            return Some(format!("hands {:?} vs {:?}", self.hands, o.hands));
        }
        if self.side != o.side {
            return Some(format!("side {} vs {}", self.side, o.side));
        }
        if self.ply != o.ply {
            return Some(format!("ply {} vs {}", self.ply, o.ply));
        }
        if self.keys != o.keys {
            return Some(format!("keys {:x?} vs {:x?}", self.keys, o.keys));
        }
        if self.key != o.key {
            return Some(format!("key {:x} vs {:x}", self.key, o.key));
        }
        if self.in_check != o.in_check {
            return Some(format!("in_check {} vs {}", self.in_check, o.in_check));
        }
        if let Some(d) = moves_diff(&self.legal, &o.legal) {
            return Some(d);
        }
        if self.checks != o.checks {
            let i = (0..self.checks.len()).find(|&i| self.checks[i] != o.checks[i]).unwrap();
            return Some(format!(
                "is_check_move({}) {} vs {}",
                self.legal[i].usi(),
                self.checks[i],
                o.checks[i]
            ));
        }
        None
    }
    pub fn digest(&self) -> u64 {
        let mut h = 0x1234_5678u64;
        let mut add = |x: u64| h = crate::prng::mix(h ^ x).rotate_left(7);
        for c in self.bd.chunks(8) {
            add(c.iter().fold(0u64, |a, &x| a << 8 | x as u8 as u64));
        }
        for hd in &self.hands {
            add(hd.iter().fold(0u64, |a, &x| a << 8 | x as u64));
        }
        add(self.side as u64 | (self.ply as u64) << 8 | (self.in_check as u64) << 32);
        add(self.key);
        add(self.keys.0);
        add(self.keys.1);
        for (m, c) in self.legal.iter().zip(&self.checks) {
            add(m.from as u64 | (m.to as u64) << 8 | (m.promote as u64) << 16 | (*c as u64) << 17);
        }
        h
    }
    /// With the order of the moves.
    pub fn digest_in_order(&self) -> u64 {
        crate::prng::mix(self.digest() ^ self.order.0)
    }
}

pub fn moves_diff(got: &[Mv], want: &[Mv]) -> Option<String> {
    if got == want {
        return None;
    }
    let extra: Vec<String> = got
        .iter()
        .enumerate()
        .filter(|(i, m)| !want.contains(m) || got[..*i].contains(m))
        .map(|(_, m)| if m.from == 255 { "(impossible drop)".into() } else { m.usi() })
        .collect();
    let missing: Vec<String> = want.iter().filter(|m| !got.contains(m)).map(|m| m.usi()).collect();
    Some(format!("moves: extra [{}] missing [{}]", extra.join(" "), missing.join(" ")))
}
