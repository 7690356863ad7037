//! Contracts of the play numbers, the turn order, the result and the network input of backgammon (P06 - P09).
use crate::bg_plays::*;
use crate::bg_spec::*;
use crate::src::Src;
use crate::{cover, ensures, requires};
use die_e::backgammon::backgammon_logic::*;
use die_e::base::LearnableGame;

/// every play that is legal in some position keeps its identity through its number
/// harness: prop=P06 mode=merge game=Backgammon
pub fn p06_play_numbers_are_lossless(src: &mut Src) {
    let s = side(src);
    let (r0, r1) = (die(src, "die0"), die(src, "die1"));
    let second = src.bool("second");
    let b = any_board(src);
    requires!(valid(&b));
    let g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id: 5 };
    check_order(&g, r0, r1);
    if r0 != r1 {
        check_order(&g, r1, r0);
    }
    let e = LearnableGame::encode(&g, &vec![]);
    ensures!("the empty play has its own number", LearnableGame::decode(&g, e).is_empty());
    ensures!("the number of the empty play is in range", (e as i64) < <Backgammon as LearnableGame>::ACTION_SPACE_SIZE);
    ensures!("both routes agree on the empty play", g.encode(&vec![]) == e && g.decode(e).is_empty());
}

pub fn check_order(g: &Backgammon, d1: u8, d2: u8) {
    let s = g.player;
    for m in moves_with(s, d1) {
        check_play(g, &vec![m], d1, d2);
        for k in moves_with(s, d2) {
            check_play(g, &vec![m, k], d1, d2);
        }
    }
}

pub fn check_play(g: &Backgammon, play: &Actions, d1: u8, d2: u8) {
    let e = LearnableGame::encode(g, play);
    ensures!("the number of a legal play is in range", (e as i64) < <Backgammon as LearnableGame>::ACTION_SPACE_SIZE || !legal_in_order(&g.board, g.player, play, d1, d2));
    ensures!("a legal play is recovered from its number", LearnableGame::decode(g, e) == *play || !legal_in_order(&g.board, g.player, play, d1, d2));
    ensures!("both routes number a play alike", g.encode(play) == e || !legal_in_order(&g.board, g.player, play, d1, d2));
    ensures!("both routes recover a play alike", g.decode(e) == *play || !legal_in_order(&g.board, g.player, play, d1, d2));
}

/// harness: prop=P07 mode=merge game=Backgammon
pub fn p07_turn_after_a_play(src: &mut Src) {
    let s = side(src);
    let r0 = src.u8("die0", 1, 6);
    let r1 = src.u8("die1", 1, 6);
    let second = src.bool("second");
    let id = src.usize("id", 0, 1000);
    let d = die(src, "die");
    let b = any_board(src);
    requires!(valid(&b));
    requires!(d == r0 || d == r1);
    for m in moves_with(s, d) {
        if legal_step(&b, s, m, d) {
            let mut g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id };
            g.apply_move(&vec![m]);
            turn_is_right(&g, s, r0, r1, second, id);
        }
    }
    let mut g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id };
    g.apply_move(&vec![]);
    turn_is_right(&g, s, r0, r1, second, id);
}

pub fn turn_is_right(g: &Backgammon, s: i8, r0: u8, r1: u8, second: bool, id: usize) {
    if r0 == r1 && !second {
        ensures!("after the first half of a double the same side keeps the turn", g.player == s && g.is_second_play);
        ensures!("after the first half of a double the dice stay", g.roll == (r0, r1));
    } else {
        ensures!("after a completed turn the other side is to move", g.player == -s && !g.is_second_play);
        ensures!("after a completed turn the dice are rolled", g.roll.0 >= 1 && g.roll.0 <= 6 && g.roll.1 >= 1 && g.roll.1 <= 6);
        cover!("possible: a fresh roll of 6 and 1 after a play", g.roll == (6, 1));
        cover!("possible: a fresh roll of 1 and 6 after a play", g.roll == (1, 6));
        cover!("possible: a fresh roll that differs from the old one in both dice", g.roll.0 != r0 && g.roll.1 != r1);
        cover!("possible: a fresh double", g.roll.0 == g.roll.1 && r0 != r1);
    }
    ensures!("the id is untouched by a play", g.id == id && g.get_id() == id);
    ensures!("the side to move is reported", g.get_player() == g.player);
}

/// harness: prop=P07 mode=merge game=Backgammon
pub fn p07_passing_and_rolling(src: &mut Src) {
    let s = side(src);
    let r0 = src.u8("die0", 0, 6);
    let r1 = src.u8("die1", 0, 6);
    let second = src.bool("second");
    let id = src.usize("id", 0, 1000);
    let b = any_board(src);
    requires!(valid(&b));
    let mut g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id };
    g.skip_turn();
    ensures!("passing ends the turn", g.player == -s && !g.is_second_play);
    ensures!("passing rolls the dice", g.roll.0 >= 1 && g.roll.0 <= 6 && g.roll.1 >= 1 && g.roll.1 <= 6);
    ensures!("passing leaves board and id", g.board == b && g.id == id);
    cover!("possible: a fresh roll of 6 and 1 after passing", g.roll == (6, 1) && r0 == 1);
    cover!("possible: a fresh roll of 1 and 6 after passing", g.roll == (1, 6) && r0 == 2);
    let mut g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id };
    let r = g.roll_die();
    ensures!("rolling sets both dice from 1 to 6", g.roll.0 >= 1 && g.roll.0 <= 6 && g.roll.1 >= 1 && g.roll.1 <= 6);
    ensures!("rolling reports the dice it sets", r == g.roll);
    ensures!("rolling changes nothing but the dice", g.board == b && g.id == id && g.player == s && g.is_second_play == second);
    cover!("possible: rolling 6 and 1", g.roll == (6, 1));
    cover!("possible: rolling 1 and 6", g.roll == (1, 6));
    let mut g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id };
    g.set_id(17);
    ensures!("setting the id changes nothing else", g.board == b && g.id == 17 && g.player == s && g.is_second_play == second && g.roll == (r0, r1));
    let f = Backgammon::init_with_fields(b, s, second);
    ensures!("a game made from fields has those fields", f.board == b && f.player == s && f.is_second_play == second);
}

/// harness: prop=P08 mode=merge game=Backgammon
pub fn p08_result(src: &mut Src) {
    let s = side(src);
    let b = any_board(src);
    requires!(valid(&b));
    let g = Backgammon { board: b, roll: (1, 2), player: s, is_second_play: false, id: 0 };
    let (w0, w1) = (b.2 .0 == 15, b.2 .1 == 15);
    if !(w0 && w1) {
        let want = if w0 {
            Some(-1)
        } else if w1 {
            Some(1)
        } else {
            None
        };
        ensures!("the winner is the side that bore off 15", g.check_winner() == want);
        ensures!("the winner of a board is the side that bore off 15", Backgammon::check_win_without_player(b) == want);
    }
    ensures!("a winner is reported exactly when a side bore off 15", g.check_winner().is_some() == (w0 || w1));
    ensures!("the per-player query agrees", Backgammon::check_win(b, -1) == w0 && Backgammon::check_win(b, 1) == w1);
    ensures!("readiness to bear off", Backgammon::is_collectible(b, s) == all_home(&b, s));
    cover!("a side is ready to bear off", Backgammon::is_collectible(b, s));
}

/// harness: prop=P08 mode=merge game=Backgammon
pub fn p08_never_two_winners(src: &mut Src) {
    let s = side(src);
    let d = die(src, "die");
    let b = any_board(src);
    requires!(valid(&b));
    requires!(b.2 .0 < 15 && b.2 .1 < 15);
    for m in moves_with(s, d) {
        if legal_step(&b, s, m, d) {
            let n = Backgammon::get_next_state(b, &vec![m], s);
            ensures!("no move makes both sides winners", !(Backgammon::check_win(n, -1) && Backgammon::check_win(n, 1)));
            ensures!("no move makes the opponent win", !Backgammon::check_win(n, -s));
        }
    }
}

/// harness: prop=P09 mode=merge game=Backgammon
pub fn p09_backgammon_tensor(src: &mut Src) {
    let s = side(src);
    let r0 = src.u8("die0", 1, 6);
    let r1 = src.u8("die1", 1, 6);
    let second = src.bool("second");
    let b = any_board(src);
    requires!(valid(&b));
    let g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id: 0 };
    let t = g.as_tensor();
    ensures!("the backgammon tensor has shape 1 x 6 x 4 x 6", t.size() == vec![1, 6, 4, 6]);
    for i in 0..4usize {
        for j in 0..6usize {
            let k = i * 6 + j;
            let (ii, jj) = (i as i64, j as i64);
            ensures!("plane 0 is the board", t.double_value(&[0, 0, ii, jj]) == b.0[k] as f64);
            ensures!("plane 1 is the side to move", t.double_value(&[0, 1, ii, jj]) == s as f64);
            let bar = if k < 12 { b.1 .0 } else { b.1 .1 };
            ensures!("plane 2 is the bar", t.double_value(&[0, 2, ii, jj]) == bar as f64);
            let off = if k < 12 { b.2 .0 } else { b.2 .1 };
            ensures!("plane 3 is the borne-off count", t.double_value(&[0, 3, ii, jj]) == off as f64);
            let die = if k < 12 { r0 } else { r1 };
            ensures!("plane 4 is the roll", t.double_value(&[0, 4, ii, jj]) == die as f64);
            let h = if second { 1 } else { 0 };
            ensures!("plane 5 is the half of a double", t.double_value(&[0, 5, ii, jj]) == h as f64);
        }
    }
}
