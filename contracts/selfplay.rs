//! Contracts of self-play (P21): every chosen position is one sample, correctly labelled; moves are legal.
use crate::alpha::*;
use crate::mock::*;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::base::LearnableGame;
use tch::Tensor;

pub fn any_az(iterations: usize, limit: usize, batches: usize, batch_size: usize) -> AlphaZero {
    AlphaZero::from_config::<Mock>(
        None,
        &config_of(vec![
            ("iterations", iterations as f64),
            ("exploration_const", 1.5),
            ("simulate_round_limit", limit as f64),
            ("dirichlet_alpha", 0.3),
            ("dirichlet_epsilon", 0.25),
            ("temperature", 1.0),
            ("learn_iterations", 1.0),
            ("self_play_iterations", 1.0),
            ("num_epochs", 1.0),
            ("training_batch_size", batch_size as f64),
            ("num_self_play_batches", batches as f64),
            ("wd", 0.0001),
            ("lr", 0.001),
        ]),
    )
}

/// the game a state tensor describes
pub fn game_of(t: &Tensor, games: &Vec<Mock>) -> Mock {
    let at = |k: i64| -> f64 { t.double_value(&[0, 0, k / 5, k % 5]) };
    let tag = at(4) as u8;
    let mut g = games[tag as usize];
    g.pos = at(0) as u8;
    g.player = at(1) as i8;
    g.played = at(2) as u8;
    g.turns = at(3) as u8;
    g.tag = tag;
    g
}

/// every prepared game: results of all continuations of a position by passes until a move can be chosen, the
/// game is finished or the round limit is reached
pub fn after_passes(g: Mock, limit: usize) -> Mock {
    let mut h = g;
    while h.check_winner().is_none() && h.get_valid_moves().is_empty() && (h.turns as usize) < limit {
        h.skip_turn();
    }
    h
}

pub fn label_for(winner: Option<i8>, player: i8) -> i8 {
    match winner {
        Some(w) => {
            if w == player {
                1
            } else if w == -player {
                -1
            } else {
                0
            }
        }
        None => 0,
    }
}

/// the samples of one game, given in the order they were played
pub fn check_game(start: Mock, line: &Vec<(Mock, i8)>, limit: usize) {
    let first = after_passes(start, limit);
    if first.check_winner().is_some() || first.get_valid_moves().is_empty() || first.turns as usize >= limit {
        ensures!("a game in which no move could be chosen gives no sample", line.is_empty());
    } else {
        ensures!("a game in which a move was chosen gives samples", !line.is_empty());
        ensures!("the first sample is the first position at which a move was chosen", line[0].0 == first);
        for k in 0..line.len() {
            let g = line[k].0;
            ensures!("every sample is the next move of its game, none twice", g.played as usize == k);
            let mut linked = false;
            for m in g.get_valid_moves().iter() {
                let mut h = g;
                h.apply_move(m);
                let h = after_passes(h, limit);
                if k + 1 < line.len() {
                    // the next position at which a move was chosen
                    if h.check_winner().is_none() && (h.turns as usize) < limit && h == line[k + 1].0 {
                        linked = true;
                    }
                } else if h.check_winner().is_some() || h.turns as usize >= limit {
                    // the game ended here: the labels are its result
                    if line.iter().all(|s| s.1 == label_for(h.check_winner(), s.0.player)) {
                        linked = true;
                    }
                }
            }
            if k + 1 < line.len() {
                ensures!("the next position comes from a legal move, followed by passes only where no move exists", linked);
            } else {
                ensures!("the game was played to its end and every sample is labelled with its result for the side to move", linked);
            }
        }
    }
}

pub fn check_samples(samples: &Vec<MemoryFragment>, games: &Vec<Mock>, limit: usize) {
    let mut lines: Vec<Vec<(Mock, i8)>> = games.iter().map(|_| vec![]).collect();
    for s in samples.iter() {
        ensures!("a sample's state has the shape of the game's encoding", s.state.size() == vec![1, 2, 5, 5]);
        ensures!("a sample has one probability per move number", s.ps.size() == vec![8]);
        let g = game_of(&s.state, games);
        ensures!("a sample's state is a position of its game", same_tensor(&s.state, &g.as_tensor()));
        let mut total = 0.0f32;
        for i in 0..8usize {
            let x = s.ps.double_value(&[i as i64]) as f32;
            ensures!("only legal moves have a probability", x == 0.0 || crate::probs::is_legal_number(&g, i));
            total = total + x;
        }
        ensures!("some legal move has a probability", total > 0.0);
        lines[g.tag as usize].push((g, s.outcome));
    }
    for i in 0..games.len() {
        // in the order of play
        let mut line: Vec<(Mock, i8)> = vec![];
        for k in 0..lines[i].len() {
            for s in lines[i].iter() {
                if s.0.played as usize == k {
                    line.push(s.clone());
                }
            }
        }
        ensures!("no sample is out of its game's order", line.len() == lines[i].len());
        check_game(games[i], &line, limit);
    }
}

/// prepared games: any results and numbers of moves; passing never ends a game
pub fn prepared(src: &mut Src, degs: Vec<u8>) -> Vec<Mock> {
    let mut games: Vec<Mock> = vec![];
    for i in 0..degs.len() {
        let mut g = any_small_mock(src, degs[i]);
        g.pass_to = [2, 2, 2, 3];
        g.tag = i as u8;
        games.push(g);
    }
    prepare(&games);
    games
}

/// passing never ends a game
pub fn passes_do_not_end(g: &Mock) -> bool {
    !((g.deg[0] == 0 || (g.won[1] == 2 && g.deg[1] == 0)) && g.won[2] != 2)
}

/// no endless game
pub fn ends(g: &Mock) -> bool {
    g.won[3] != 2 && (g.won[2] != 2 || g.deg[2] > 0)
}

pub fn check_parallel(src: &mut Src, degs: Vec<u8>, iterations: usize, limit: usize) {
    let games = prepared(src, degs);
    requires!(games.iter().all(|g| passes_do_not_end(g)));
    let az = any_az(iterations, limit, games.len(), 4);
    let samples = az.self_play_parallel::<Mock>();
    check_samples(&samples, &games, limit);
    cover!("a sample", !samples.is_empty());
    cover!("a won game", samples.iter().any(|s| s.outcome == 1));
    cover!("a drawn or cut game", samples.iter().any(|s| s.outcome == 0));
}

/// harness: prop=P21 mode=paths game=Mock bounded=one_game_of_4_positions_with_up_to_2_moves_each,_round_limits_up_to_3
pub fn p21_parallel_one_game(src: &mut Src) {
    let limit = 1 + src.pick("limit", 3);
    check_parallel(src, vec![2], 1, limit);
}

/// harness: prop=P21 mode=paths game=Mock order=any bounded=two_games_of_4_positions_with_up_to_1_move_each,_round_limit_2
pub fn p21_parallel_two_games(src: &mut Src) {
    check_parallel(src, vec![1, 1], 1, 2);
}

/// harness: prop=P21 mode=paths game=Mock tier=thorough order=any bounded=two_games_of_4_positions_with_up_to_1_move_each,_round_limits_up_to_3
pub fn p21_parallel_two_games_limits(src: &mut Src) {
    let limit = 1 + src.pick("limit", 3);
    check_parallel(src, vec![1, 1], 1, limit);
}

/// harness: prop=P21 mode=native game=Mock
pub fn p21_parallel_larger(src: &mut Src) {
    let limit = 1 + src.pick("limit", 6);
    let k = 1 + src.pick("iterations", 6);
    let n = 1 + src.pick("games", 5);
    check_parallel(src, (0..n).map(|_| 2).collect(), k, limit);
}

/// harness: prop=P21 mode=paths game=Mock bounded=one_game_of_4_positions_with_up_to_2_moves_each
pub fn p21_sequential(src: &mut Src) {
    let games = prepared(src, vec![2]);
    requires!(games.iter().all(|g| passes_do_not_end(g) && ends(g)));
    let az = any_az(1, 100, 1, 4);
    let samples = az.self_play::<Mock>();
    check_samples(&samples, &games, 1000);
    cover!("a lost game", samples.iter().any(|s| s.outcome == -1));
}
