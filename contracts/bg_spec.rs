//! Ghost vocabulary for backgammon: what a position, a move and a legal turn are,
//! written from the rules and not from the code.
use crate::src::Src;
use die_e::backgammon::backgammon_logic::*;

/// an arbitrary position: any placement of checkers within the representable counts
pub fn any_board(src: &mut Src) -> Board {
    let mut pts = [0i8; 24];
    for i in 0..24 {
        pts[i] = src.i8("point", -15, 15);
    }
    let bar = (src.u8("bar0", 0, 15), src.u8("bar1", 0, 15));
    let off = (src.u8("off0", 0, 15), src.u8("off1", 0, 15));
    (pts, bar, off)
}

/// checkers owned by a side (-1 or 1): on the points, on the bar, borne off
pub fn owned(b: &Board, side: i8) -> i32 {
    let mut n = 0i32;
    for i in 0..24 {
        let c = b.0[i] as i32 * side as i32;
        n += if c > 0 { c } else { 0 };
    }
    if side == -1 {
        n + b.1 .0 as i32 + b.2 .0 as i32
    } else {
        n + b.1 .1 as i32 + b.2 .1 as i32
    }
}

/// a position of a game: both sides own 15 checkers
pub fn valid(b: &Board) -> bool {
    owned(b, -1) == 15 && owned(b, 1) == 15
}

pub fn side(src: &mut Src) -> i8 {
    if src.pick("side", 2) == 0 {
        -1
    } else {
        1
    }
}

pub fn die(src: &mut Src, name: &str) -> u8 {
    src.pick(name, 6) as u8 + 1
}

pub fn bar_of(b: &Board, side: i8) -> u8 {
    if side == -1 {
        b.1 .0
    } else {
        b.1 .1
    }
}

/// own checkers on a point
pub fn own_at(b: &Board, side: i8, p: i8) -> i8 {
    let n = b.0[p as usize] * side;
    if n > 0 {
        n
    } else {
        0
    }
}

/// may a checker of `side` land on the point?
pub fn open_to(b: &Board, side: i8, p: i8) -> bool {
    b.0[p as usize] * side >= -1
}

/// point on which a checker entering with the die lands
pub fn entry_point(side: i8, d: u8) -> i8 {
    if side == -1 {
        24 - d as i8
    } else {
        d as i8 - 1
    }
}

/// distance from a point to bearing off
pub fn distance_home(side: i8, p: i8) -> i8 {
    if side == -1 {
        p + 1
    } else {
        24 - p
    }
}

/// bar empty and every checker of the side in its home board
pub fn all_home(b: &Board, side: i8) -> bool {
    let mut ok = bar_of(b, side) == 0;
    for p in 0..24i8 {
        if distance_home(side, p) > 6 {
            ok = ok && own_at(b, side, p) == 0;
        }
    }
    ok
}

/// no own checker further from home than distance `d`
pub fn none_beyond(b: &Board, side: i8, d: i8) -> bool {
    let mut ok = true;
    for p in 0..24i8 {
        if distance_home(side, p) > d {
            ok = ok && own_at(b, side, p) == 0;
        }
    }
    ok
}

/// the rules for one checker move with one die
pub fn legal_step(b: &Board, side: i8, m: (i8, i8), d: u8) -> bool {
    let (from, to) = m;
    if from == -1 && to == -1 {
        return false;
    }
    if from == -1 {
        return bar_of(b, side) > 0 && to == entry_point(side, d) && open_to(b, side, to);
    }
    if from < 0 || from > 23 || to < -1 || to > 23 {
        return false;
    }
    if to == -1 {
        let dist = distance_home(side, from);
        return bar_of(b, side) == 0
            && own_at(b, side, from) > 0
            && all_home(b, side)
            && (dist == d as i8 || (dist < d as i8 && none_beyond(b, side, dist)));
    }
    bar_of(b, side) == 0 && own_at(b, side, from) > 0 && to == from + d as i8 * side && open_to(b, side, to)
}

/// the effect of one checker move, by the rules
pub fn step(b: &Board, side: i8, m: (i8, i8)) -> Board {
    let (from, to) = m;
    let mut n = *b;
    if from == -1 {
        if side == -1 {
            n.1 .0 -= 1;
        } else {
            n.1 .1 -= 1;
        }
    } else {
        n.0[from as usize] -= side;
    }
    if to == -1 {
        if side == -1 {
            n.2 .0 += 1;
        } else {
            n.2 .1 += 1;
        }
    } else if n.0[to as usize] == -side {
        n.0[to as usize] = side;
        if side == -1 {
            n.1 .1 += 1;
        } else {
            n.1 .0 += 1;
        }
    } else {
        n.0[to as usize] += side;
    }
    n
}

/// some legal move with the die exists
pub fn can_play(b: &Board, side: i8, d: u8) -> bool {
    let mut any = legal_step(b, side, (-1, entry_point(side, d)), d);
    for p in 0..24i8 {
        let t = p + d as i8 * side;
        if t >= 0 && t <= 23 {
            any = any || legal_step(b, side, (p, t), d);
        }
        if distance_home(side, p) <= 6 {
            any = any || legal_step(b, side, (p, -1), d);
        }
    }
    any
}

pub fn game(b: Board, side: i8, r0: u8, r1: u8) -> Backgammon {
    Backgammon { board: b, roll: (r0, r1), player: side, is_second_play: false, id: 7 }
}
