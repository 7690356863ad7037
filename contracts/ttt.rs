//! Contracts of tic-tac-toe (P09 - P11).
use crate::src::Src;
use crate::{cover, ensures, requires};
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;

pub fn any_ttt(src: &mut Src) -> TicTacToe {
    let mut g = <TicTacToe as LearnableGame>::new();
    for i in 0..9 {
        g.board[i] = src.i8("cell", -1, 1);
    }
    if src.pick("side", 2) == 1 {
        g.skip_turn();
    }
    g.set_id(42);
    g
}

/// harness: prop=P10,P11 mode=merge game=TicTacToe
pub fn p10_new_game(_src: &mut Src) {
    let mut g = <TicTacToe as LearnableGame>::new();
    ensures!("a new game is empty and the first side is to move", g.board == [0; 9] && g.get_player() == -1);
    ensures!("a new game is undecided", g.check_winner() == None);
    g.skip_turn();
    ensures!("passing changes the turn", g.get_player() == 1 && g.board == [0; 9]);
    g.skip_turn();
    ensures!("passing twice restores the turn", g.get_player() == -1);
}

/// harness: prop=P10 mode=merge game=TicTacToe
pub fn p10_moves(src: &mut Src) {
    let g = any_ttt(src);
    let mut want: Vec<u8> = vec![];
    for i in 0..9u8 {
        if g.board[i as usize] == 0 {
            want.push(i);
        }
    }
    ensures!("the offered moves are the empty cells in increasing order", g.get_valid_moves() == want);
    cover!("a full board", g.get_valid_moves().is_empty());
}

/// harness: prop=P10 mode=merge game=TicTacToe
pub fn p10_play_and_pass(src: &mut Src) {
    let g = any_ttt(src);
    let p = g.get_player();
    for m in 0..9u8 {
        if g.board[m as usize] == 0 {
            let mut n = g;
            n.apply_move(&m);
            for i in 0..9usize {
                let want = if i == m as usize { p } else { g.board[i] };
                ensures!("a move marks its cell for the side to move and no other", n.board[i] == want);
            }
            ensures!("a move passes the turn", n.get_player() == -p);
            ensures!("a move keeps the id", n.get_id() == 42);
        }
        ensures!("the number of a move is its cell", g.encode(&m) == m as u32);
        ensures!("a move is recovered from its number", g.decode(m as u32) == m);
        ensures!("the number of a move is in range", (g.encode(&m) as i64) < <TicTacToe as LearnableGame>::ACTION_SPACE_SIZE);
    }
    let mut n = g;
    n.skip_turn();
    ensures!("passing changes only the turn", n.board == g.board && n.get_player() == -p && n.get_id() == 42);
}

pub fn line(b: &[i8; 9], s: i8) -> bool {
    let mut any = false;
    for k in 0..3usize {
        any = any || (b[3 * k] == s && b[3 * k + 1] == s && b[3 * k + 2] == s);
        any = any || (b[k] == s && b[k + 3] == s && b[k + 6] == s);
    }
    any || (b[0] == s && b[4] == s && b[8] == s) || (b[2] == s && b[4] == s && b[6] == s)
}

/// harness: prop=P11 mode=merge game=TicTacToe
pub fn p11_result(src: &mut Src) {
    let g = any_ttt(src);
    let (l, r) = (line(&g.board, -1), line(&g.board, 1));
    requires!(!(l && r));
    let mut full = true;
    for i in 0..9 {
        full = full && g.board[i] != 0;
    }
    let w = g.check_winner();
    if l {
        ensures!("a line of the first side wins", w == Some(-1));
    } else if r {
        ensures!("a line of the second side wins", w == Some(1));
    } else if full {
        ensures!("a full board without a line is a draw", w == Some(0));
    } else {
        ensures!("every other board is undecided", w == None);
    }
    cover!("a draw", w == Some(0));
}

/// harness: prop=P09 mode=merge game=TicTacToe
pub fn p09_tictactoe_tensor(src: &mut Src) {
    let g = any_ttt(src);
    let t = g.as_tensor();
    ensures!("the tic-tac-toe tensor has shape 1 x 3 x 3 x 3", t.size() == vec![1, 3, 3, 3]);
    for i in 0..3usize {
        for j in 0..3usize {
            for p in 0..3usize {
                let want = if g.board[3 * i + j] == p as i8 - 1 { 1.0 } else { 0.0 };
                ensures!("each plane marks the cells of its kind", t.double_value(&[0, p as i64, i as i64, j as i64]) == want);
            }
        }
    }
}
