//! Contracts of the play generator and of playing a move (P01 - P05).
use crate::bg_spec::*;
use crate::src::{pairwise_distinct, Src};
use crate::{cover, ensures, requires};
use die_e::backgammon::backgammon_logic::*;
use die_e::base::LearnableGame;

/// harness: prop=P01 mode=merge game=Backgammon
pub fn p01_plays_conserve_checkers(src: &mut Src) {
    let s = side(src);
    let (r0, r1) = (die(src, "die0"), die(src, "die1"));
    let b = any_board(src);
    requires!(valid(&b));
    let mut g = game(b, s, r0, r1);
    g.is_second_play = src.bool("second");
    for play in g.get_valid_moves() {
        let n = Backgammon::get_next_state(b, &play, s);
        ensures!("after every offered play each side owns 15 checkers", valid(&n));
        cover!("a play is offered", true);
    }
}

/// harness: prop=P01,P08 mode=merge game=Backgammon
pub fn p01_new_game_is_valid(_src: &mut Src) {
    let g = <Backgammon as LearnableGame>::new();
    ensures!("a new game starts from a valid position", valid(&g.board));
    ensures!("the published initial position is valid", valid(&Backgammon::get_initial_state()));
    ensures!("a new game is undecided", g.check_winner() == None);
}

/// every single move that is legal with the die
/// harness: prop=P02,P01 mode=merge game=Backgammon
pub fn p02_single_move_effect(src: &mut Src) {
    let s = side(src);
    let d = die(src, "die");
    let b = any_board(src);
    requires!(valid(&b));
    for m in moves_with(s, d) {
        if legal_step(&b, s, m, d) {
            let n = Backgammon::get_next_state(b, &vec![m], s);
            ensures!("a move changes exactly the squares it names", n == step(&b, s, m));
            cover!("some legal move", true);
        }
    }
}

/// playing through the game object changes the board in the same way
/// harness: prop=P02 mode=merge game=Backgammon
pub fn p02_apply_move_is_next_state(src: &mut Src) {
    let s = side(src);
    let (r0, r1) = (die(src, "die0"), die(src, "die1"));
    let b = any_board(src);
    requires!(valid(&b));
    let second = src.bool("second");
    for m in moves_with(s, r0) {
        if legal_step(&b, s, m, r0) {
            let mut g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id: 3 };
            g.apply_move(&vec![m]);
            ensures!("playing a move through the game object changes the board as the move says", g.board == step(&b, s, m));
        }
    }
    let mut g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: second, id: 3 };
    g.apply_move(&vec![]);
    ensures!("playing no move leaves the board", g.board == b);
}

/// a list of moves is played one after the other
/// harness: prop=P02 mode=merge game=Backgammon
pub fn p02_list_is_sequence(src: &mut Src) {
    let s = side(src);
    let (r0, r1) = (die(src, "die0"), die(src, "die1"));
    let b = any_board(src);
    requires!(valid(&b));
    for m in moves_with(s, r0) {
        if legal_step(&b, s, m, r0) {
            let n = step(&b, s, m);
            for k in moves_with(s, r1) {
                if legal_step(&n, s, k, r1) {
                    let both = Backgammon::get_next_state(b, &vec![m, k], s);
                    ensures!("a list of moves is the same as its moves one after the other", both == step(&n, s, k));
                    let mut g = Backgammon { board: b, roll: (r0, r1), player: s, is_second_play: false, id: 3 };
                    g.apply_move(&vec![m, k]);
                    ensures!("a two-move play through the game object changes the board as its moves say", g.board == both);
                }
            }
        }
    }
    let mut g = game(b, s, r0, r1);
    g.skip_turn();
    ensures!("passing leaves the board", g.board == b);
    ensures!("an empty list of moves changes nothing", Backgammon::get_next_state(b, &vec![], s) == b);
}

/// every move that has the right length for the die (legality depends on the position)
pub fn moves_with(s: i8, d: u8) -> Vec<(i8, i8)> {
    let mut v = vec![(-1, entry_point(s, d))];
    for p in 0..24i8 {
        let t = p + d as i8 * s;
        if t >= 0 && t <= 23 {
            v.push((p, t));
        }
        if distance_home(s, p) <= d as i8 {
            v.push((p, -1));
        }
    }
    v
}

/// the play is legal with the dice used in the order d1, d2, and stops only when it must
pub fn legal_in_order(b: &Board, s: i8, play: &Actions, d1: u8, d2: u8) -> bool {
    if play.len() == 1 {
        let m = play[0];
        if !legal_step(b, s, m, d1) {
            return false;
        }
        let n = step(b, s, m);
        !can_play(&n, s, d2)
    } else if play.len() == 2 {
        let m = play[0];
        if !legal_step(b, s, m, d1) {
            return false;
        }
        let n = step(b, s, m);
        legal_step(&n, s, play[1], d2)
    } else {
        false
    }
}

/// harness: prop=P03 mode=merge game=Backgammon
pub fn p03_offered_plays_are_legal(src: &mut Src) {
    let s = side(src);
    let (r0, r1) = (die(src, "die0"), die(src, "die1"));
    let b = any_board(src);
    requires!(valid(&b));
    let mut g = game(b, s, r0, r1);
    g.is_second_play = src.bool("second");
    for play in g.get_valid_moves() {
        ensures!("every offered play is legal", legal_in_order(&b, s, &play, r0, r1) || legal_in_order(&b, s, &play, r1, r0));
        cover!("a play of two moves", play.len() == 2);
    }
}

/// the contract of de-duplication as its callers use it: the boards reached stay the same
pub fn spec_keep_all(_b: Board, sequences: Vec<Actions>, _player: i8) -> Vec<Actions> {
    sequences
}

/// harness: prop=P04 mode=merge game=Backgammon subst=Backgammon::remove_duplicate_states>spec_keep_all
pub fn p04_no_legal_play_is_missing(src: &mut Src) {
    let s = side(src);
    let (r0, r1) = (die(src, "die0"), die(src, "die1"));
    let b = any_board(src);
    requires!(valid(&b));
    let mut g = game(b, s, r0, r1);
    g.is_second_play = src.bool("second");
    let mut reached: Vec<Board> = vec![];
    for play in g.get_valid_moves() {
        reached.push(Backgammon::get_next_state(b, &play, s));
    }
    expect_all(&b, s, r0, r1, &reached);
    if r0 != r1 {
        expect_all(&b, s, r1, r0, &reached);
    }
    ensures!("the list is empty only if there is no legal move", !(reached.is_empty() && (can_play(&b, s, r0) || can_play(&b, s, r1))));
    cover!("no play at all", reached.is_empty());
}

/// each legal turn that uses d1 before d2 reaches one of the boards
pub fn expect_all(b: &Board, s: i8, d1: u8, d2: u8, reached: &Vec<Board>) {
    for m in moves_with(s, d1) {
        if legal_step(b, s, m, d1) {
            let n = step(b, s, m);
            let mut more = false;
            for k in moves_with(s, d2) {
                if legal_step(&n, s, k, d2) {
                    more = true;
                    let e = step(&n, s, k);
                    ensures!("every legal two-move turn is offered", reached.contains(&e));
                }
            }
            ensures!("every legal one-move turn is offered", more || reached.contains(&n));
        }
    }
}

/// harness: prop=P05 mode=merge game=Backgammon
pub fn p05_offered_plays_are_distinct(src: &mut Src) {
    let s = side(src);
    let (r0, r1) = (die(src, "die0"), die(src, "die1"));
    requires!(r0 >= r1);
    let b = any_board(src);
    requires!(valid(&b));
    let mut g = game(b, s, r0, r1);
    g.is_second_play = src.bool("second");
    let offered = g.get_valid_moves();
    let mut reached: Vec<Board> = vec![];
    for play in offered.iter() {
        reached.push(Backgammon::get_next_state(b, play, s));
    }
    ensures!("no two offered plays lead to the same board", pairwise_distinct(&reached));
    if r0 != r1 {
        let swapped = game(b, s, r1, r0).get_valid_moves();
        ensures!("the offered list does not depend on which die is named first", swapped == offered);
    }
}

pub fn check_deduplication(b: &Board, s: i8, plays: &Vec<Actions>) {
    let mut boards: Vec<Board> = vec![];
    for play in plays.iter() {
        let mut n = *b;
        for m in play.iter() {
            n = step(&n, s, *m);
        }
        boards.push(n);
    }
    let kept = Backgammon::remove_duplicate_states(*b, plays.clone(), s);
    let mut want: Vec<Actions> = vec![];
    for i in 0..plays.len() {
        let mut seen = false;
        for j in 0..i {
            seen = seen || boards[j] == boards[i];
        }
        if !seen {
            want.push(plays[i].clone());
        }
    }
    ensures!("exactly the first play that leads to a board is kept", kept == want);
    cover!("a play is dropped", want.len() < plays.len());
    cover!("no play is dropped", want.len() == plays.len());
}

/// legal one after the other with the dice 1 and 2 in some order
pub fn play_is_legal(b: &Board, s: i8, play: &Actions) -> bool {
    if !legal_step(b, s, play[0], 1) && !legal_step(b, s, play[0], 2) {
        return false;
    }
    if play.len() == 1 {
        return true;
    }
    let n = step(b, s, play[0]);
    (legal_step(b, s, play[0], 1) && legal_step(&n, s, play[1], 2)) || (legal_step(b, s, play[0], 2) && legal_step(&n, s, play[1], 1))
}

/// the contract of de-duplication, on any board on which the plays are legal
/// harness: prop=P05,P04 mode=merge game=Backgammon bounded=lists_of_3_out_of_13_plays_with_the_dice_1_and_2
pub fn p05_deduplication(src: &mut Src) {
    let b = any_board(src);
    requires!(valid(&b));
    for s in [-1i8, 1] {
        let p: i8 = if s == 1 { 3 } else { 20 };
        let q = p + s;
        let z: i8 = if s == 1 { 23 } else { 0 };
        let all: Vec<Actions> = vec![
            // two checkers, in either order
            vec![(p, p + s), (q, q + 2 * s)],
            vec![(q, q + 2 * s), (p, p + s)],
            vec![(q, q + s), (p, p + 2 * s)],
            // one checker by two ways
            vec![(p, p + s), (p + s, p + 3 * s)],
            vec![(p, p + 2 * s), (p + 2 * s, p + 3 * s)],
            // a single move
            vec![(p, p + s)],
            vec![(q, q + 2 * s)],
            // from the bar
            vec![(-1, entry_point(s, 1)), (-1, entry_point(s, 2))],
            vec![(-1, entry_point(s, 2)), (-1, entry_point(s, 1))],
            vec![(-1, entry_point(s, 2)), (p, p + s)],
            // bearing off
            vec![(z - s, z), (z, -1)],
            vec![(z - s, -1), (z, -1)],
            vec![(z, -1), (z - s, -1)],
        ];
        for i in 0..all.len() {
            for j in 0..all.len() {
                for k in 0..all.len() {
                    if play_is_legal(&b, s, &all[i]) && play_is_legal(&b, s, &all[j]) && play_is_legal(&b, s, &all[k]) {
                        check_deduplication(&b, s, &vec![all[i].clone(), all[j].clone(), all[k].clone()]);
                    }
                }
            }
        }
    }
}

/// harness: prop=P05,P04 mode=native game=Backgammon
pub fn p05_deduplication_of_any_plays(src: &mut Src) {
    let s: i8 = if src.pick("side", 2) == 0 { -1 } else { 1 };
    let b = any_board(src);
    requires!(valid(&b));
    let (d1, d2) = (die(src, "die1"), die(src, "die2"));
    let mut all: Vec<Actions> = vec![];
    for m in moves_with(s, d1) {
        if legal_step(&b, s, m, d1) {
            let n = step(&b, s, m);
            all.push(vec![m]);
            for k in moves_with(s, d2) {
                if legal_step(&n, s, k, d2) {
                    all.push(vec![m, k]);
                }
            }
        }
    }
    requires!(!all.is_empty());
    let mut plays: Vec<Actions> = vec![];
    for _ in 0..src.pick("plays", 40) {
        plays.push(all[src.pick("which", all.len())].clone());
    }
    check_deduplication(&b, s, &plays);
}
