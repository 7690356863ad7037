//! Contracts of matches (P25), of replacing the best model (P26) and of recorded games (P27).
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::alphazero::alphazero::AlphaZero;
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::*;
use die_e::MctsConfig;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use tch::nn::VarStore;
use tch::{Device, Tensor};

/// A game whose course is prepared per game number: after `len` turns it ends with `result`; in every turn
/// there are `deg` moves, or none (then the turn can only be passed). In a decisive game the first move of
/// a turn wins, the second one loses. No move belongs to two games. Illegal steps are asserted away.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Duel {
    pub id: usize,
    pub turns: usize,
    pub player: i8,
    /// 2: not ended
    pub ended: i8,
}

pub const KIND: usize = 400;

impl Duel {
    /// which prepared course this game takes
    pub fn course(&self) -> usize {
        KIND + 4 * table(self.id) as usize
    }
    fn turn_over(&mut self) {
        self.turns += 1;
        if self.ended == 2 && self.turns > table(self.course()) as usize {
            self.ended = table(self.course() + 1) as i8;
        }
        self.player = -self.player;
    }
}

impl LearnableGame for Duel {
    type Move = usize;
    const EMPTY_MOVE: usize = 1000000;
    const IS_DETERMINISTIC: bool = false;
    const ACTION_SPACE_SIZE: i64 = 2;
    const N_INPUT_CHANNELS: i64 = 2;
    const CONV_OUTPUT_SIZE: i64 = 4;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;

    fn new() -> Self {
        Duel { id: 0, turns: 0, player: -1, ended: 2 }
    }
    fn name() -> String {
        String::from("duel")
    }
    fn get_valid_moves(&self) -> Vec<usize> {
        if self.ended != 2 {
            return vec![];
        }
        let n = table(self.course() + 2) as usize;
        (0..n).map(|k| 1000 * self.id + 2 * (self.turns % 500) + k).collect()
    }
    fn apply_move(&mut self, action: &usize) {
        assert!(self.ended == 2, "a move in a game that is over");
        assert!(self.get_valid_moves().contains(action), "an illegal move");
        if table(self.course() + 3) == 1 {
            self.ended = if *action % 2 == 0 { self.player } else { -self.player };
        }
        self.turn_over();
    }
    fn roll_die(&mut self) -> (u8, u8) {
        (1, 1)
    }
    fn skip_turn(&mut self) {
        assert!(self.ended == 2, "a turn in a game that is over");
        assert!(self.turns == 0 || self.get_valid_moves().is_empty(), "a turn with legal moves was skipped");
        self.turn_over();
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        if self.ended == 2 {
            None
        } else {
            Some(self.ended)
        }
    }
    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&[self.id as f32, self.turns as f32, self.player as f32, self.ended as f32, 0.0, 1.0, 0.0, 0.0]).view([1, 2, 2, 2])
    }
    fn decode(&self, action: u32) -> usize {
        1000 * self.id + 2 * (self.turns % 500) + action as usize
    }
    fn encode(&self, action: &usize) -> u32 {
        (*action % 2) as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, new_id: usize) {
        self.id = new_id
    }
    fn to_pretty_str(&self) -> String {
        String::new()
    }
}

/// a course of games: length, result, moves per turn, decisive or not
pub struct Course {
    pub len: i64,
    pub result: i8,
    pub deg: i64,
    pub decisive: bool,
}

pub fn prepare_courses(kinds: &Vec<usize>, courses: &Vec<Course>) {
    let mut v: Vec<i64> = vec![];
    for k in kinds.iter() {
        v.push(*k as i64);
    }
    for c in courses.iter() {
        v.push(c.len);
        v.push(c.result as i64);
        v.push(c.deg);
        v.push(if c.decisive { 1 } else { 0 });
    }
    put_table(v);
}

pub fn duel_net() -> ResNet {
    ResNet::new::<Duel>(VarStore::new(Device::Cpu))
}

pub fn player_of(kind: Agent) -> Player {
    let model = if kind == Agent::Model { Some(duel_net()) } else { None };
    Player::new(kind, model)
}

pub fn duel_config(iterations: usize) -> MctsConfig {
    crate::mock::mcts_config(iterations, 1.5, 4, 0.3, 0.25)
}

/// plays a match with the prepared courses and checks its record
pub fn check_match(kinds: &Vec<usize>, courses: &Vec<Course>, a: Agent, b: Agent, iterations: usize) {
    prepare_courses(kinds, courses);
    let r: PlayResult<Duel> = play::<Duel>(player_of(a.clone()), player_of(b.clone()), &duel_config(iterations), 1.0);
    ensures!("the result names the two agents", r.player1 == a && r.player2 == b);
    ensures!("the number of games is the number of games played", r.n_games == 400);
    ensures!("every game is recorded exactly once", r.games.len() == r.n_games);
    let mut seen: Vec<bool> = vec![false; 400];
    let mut first = 0;
    let (mut w1, mut w2) = (0, 0);
    for g in r.games.iter() {
        let id = initial_id(g);
        ensures!("every recorded game is one of the games started", id < 400);
        ensures!("no game is recorded twice", !seen[id]);
        seen[id] = true;
        if initial_player(g) == -1 {
            first += 1;
        }
        let c = &courses[kinds[id]];
        if !c.decisive {
            if c.len < 400 && c.result == -1 {
                ensures!("a game that player one won names player one", g.winner == a);
            } else if c.len < 400 && c.result == 1 {
                ensures!("a game that player two won names player two", g.winner == b);
            } else {
                ensures!("a game that nobody won names nobody", g.winner == Agent::None);
            }
        }
        if g.winner == a {
            w1 += 1;
        } else if g.winner == b {
            w2 += 1;
        }
    }
    ensures!("each side makes the first move in half of the games", first == 200);
    ensures!("the wins of player one are the games it won", r.wins_p1 == w1);
    ensures!("the wins of player two are the games it won", r.wins_p2 == w2);
    ensures!("wins and draws add up to the number of games", r.wins_p1 + r.wins_p2 + r.draws == r.n_games);
    let rate = r.winrate - r.wins_p1 as f64 / r.n_games as f64;
    ensures!("the win rate is player one's wins divided by the number of games", rate < 0.000000001 && rate > -0.000000001);
}

/// the kind of a game: two kinds among the games player one starts, two among the others, a single one
pub fn mixed_kinds(single: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for i in 0..400usize {
        v.push(if i == single { 4 } else { 2 * (i / 200) + (i / 3) % 2 });
    }
    v
}

/// harness: prop=P25 mode=paths game=Duel order=any bounded=four_kinds_of_games_and_a_single_one,_any_results,_up_to_3_turns,_at_most_one_move_per_turn
pub fn p25_courses(src: &mut Src) {
    let lens = [[1, 2, 3, 2, 3], [2, 1, 1, 3, 1]];
    let degs = [[0, 1, 1, 0, 1], [1, 0, 1, 1, 0]];
    let s = src.pick("course", 2);
    let mut cs: Vec<Course> = vec![];
    for k in 0..5usize {
        cs.push(Course { len: lens[s][k], result: src.i8("result", -1, 1), deg: degs[s][k], decisive: false });
    }
    let single = if s == 0 { 7 } else { 399 };
    check_match(&mixed_kinds(single), &cs, Agent::Random, Agent::Mcts, 1);
}

/// harness: prop=P25 mode=paths game=Duel bounded=a_single_game_that_never_ends
pub fn p25_endless(src: &mut Src) {
    let mut cs: Vec<Course> = vec![];
    for k in 0..5usize {
        cs.push(Course { len: 1, result: if k % 2 == 0 { 1 } else { -1 }, deg: 1, decisive: false });
    }
    cs[4].len = 1000;
    cs[4].result = -1;
    cs[4].deg = src.pick("moves", 2) as i64;
    let single = if src.pick("which", 2) == 0 { 3 } else { 222 };
    check_match(&mixed_kinds(single), &cs, Agent::Mcts, Agent::Random, 1);
}

/// an agent that knows the winning move against one that has no choice but to lose
/// harness: prop=P25 mode=native game=Duel
pub fn p25_agents(src: &mut Src) {
    let agents = [Agent::Random, Agent::Mcts, Agent::Model];
    let a = src.pick("player one", 3);
    let b = (a + 1 + src.pick("player two", 2)) % 3;
    let mut kinds: Vec<usize> = vec![];
    for _ in 0..400 {
        kinds.push(src.pick("kind", 5));
    }
    let mut cs: Vec<Course> = vec![];
    for _ in 0..5 {
        cs.push(Course { len: 1 + src.pick("length", 4) as i64, result: src.i8("result", -1, 1), deg: src.pick("moves", 3) as i64, decisive: src.pick("decisive", 4) == 0 });
    }
    check_match(&kinds, &cs, agents[a].clone(), agents[b].clone(), 2);
}

/// an agent that sees the winning move moves first in half of the games, on its own behalf
/// harness: prop=P25 mode=native game=Duel
pub fn p25_own_agent(src: &mut Src) {
    let second = src.pick("the searching player", 2) == 1;
    let mut kinds: Vec<usize> = vec![];
    for i in 0..400usize {
        kinds.push(if (i >= 200) == second { 0 } else { 1 });
    }
    let cs = vec![
        Course { len: 4, result: 0, deg: 2, decisive: true },
        Course { len: 1, result: 0, deg: 1, decisive: false },
    ];
    let (a, b) = if second { (Agent::Random, Agent::Mcts) } else { (Agent::Mcts, Agent::Random) };
    prepare_courses(&kinds, &cs);
    let r: PlayResult<Duel> = play::<Duel>(player_of(a), player_of(b), &duel_config(12), 1.0);
    let (w, l) = if second { (r.wins_p2, r.wins_p1) } else { (r.wins_p1, r.wins_p2) };
    ensures!("the searching agent moves for its own side", w == 200 && l == 0 && r.draws == 200);
}

/// harness: prop=P25 mode=paths game=Duel bounded=prepared_results,_one_turn_or_two
pub fn p25_model(src: &mut Src) {
    let mut cs: Vec<Course> = vec![];
    for k in 0..5usize {
        cs.push(Course { len: 1 + (k % 2) as i64, result: if k == 4 { src.i8("result", -1, 1) } else { (k % 3) as i8 - 1 }, deg: if k == 1 { 0 } else { 1 }, decisive: false });
    }
    if src.pick("side", 2) == 0 {
        check_match(&mixed_kinds(7), &cs, Agent::Model, Agent::Random, 1);
    } else {
        check_match(&mixed_kinds(7), &cs, Agent::Mcts, Agent::Model, 1);
    }
}

// ---------------------------------------------------------------- P26

pub const WINS: usize = 900;

/// the contract of a match as far as its caller depends on it: any number of wins
pub fn spec_play(player1: Player, player2: Player, _config: &MctsConfig, _temp: f64) -> PlayResult<Duel> {
    let candidate = ResNet::from_path::<Duel>(&PathBuf::from("./models/duel/candidate.ot"));
    let best = ResNet::from_path::<Duel>(&PathBuf::from("./models/duel/known_best.ot"));
    assert!(player1.player_type == Agent::Model && player2.player_type == Agent::Model, "two networks play");
    assert!(same_network(player1.model.as_ref().unwrap(), &candidate), "player one is the candidate");
    assert!(same_network(player2.model.as_ref().unwrap(), &best), "player two is the best model");
    let wins = table(WINS) as usize;
    let losses = table(WINS + 1) as usize;
    PlayResult {
        player1: player1.player_type,
        player2: player2.player_type,
        wins_p1: wins,
        wins_p2: losses,
        draws: 400 - wins - losses,
        winrate: wins as f64 / 400.0,
        n_games: 400,
        games: vec![],
    }
}

/// a match of which the first player wins so many games and loses so many
pub fn prepare_wins(wins: usize, losses: usize) {
    let mut v: Vec<i64> = vec![];
    for i in 0..400usize {
        v.push(if i < wins { 0 } else if i < wins + losses { 1 } else { 2 });
    }
    // KIND: three courses of a single move
    for r in 0..3i64 {
        v.push(1);
        v.push(if r == 0 { -1 } else if r == 1 { 1 } else { 0 });
        v.push(1);
        v.push(0);
    }
    while v.len() < WINS {
        v.push(0);
    }
    v.push(wins as i64);
    v.push(losses as i64);
    put_table(v);
}

pub fn duel_az(path: &str) -> AlphaZero {
    AlphaZero::from_config::<Duel>(
        Some(PathBuf::from(path)),
        &config_of(vec![
            ("iterations", 1.0),
            ("exploration_const", 1.5),
            ("simulate_round_limit", 3.0),
            ("dirichlet_alpha", 0.3),
            ("dirichlet_epsilon", 0.25),
            ("temperature", 1.0),
            ("learn_iterations", 1.0),
            ("self_play_iterations", 1.0),
            ("num_epochs", 1.0),
            ("training_batch_size", 2.0),
            ("num_self_play_batches", 1.0),
            ("wd", 0.0001),
            ("lr", 0.001),
        ]),
    )
}

/// does a file hold this network
pub fn holds(path: &str, net: &ResNet) -> bool {
    same_network(&ResNet::from_path::<Duel>(&PathBuf::from(path)), net)
}

pub fn check_replacement(wins: usize, losses: usize) {
    fresh_dir();
    let candidate = duel_net();
    let best = duel_net();
    candidate.vs.save("./models/duel/candidate.ot").unwrap();
    best.vs.save("./models/duel/known_best.ot").unwrap();
    best.vs.save("./models/duel/best_model.ot").unwrap();
    let az = duel_az("./models/duel/candidate.ot");
    prepare_wins(wins, losses);
    let verdict = az.play_vs_model::<Duel>(ResNet::from_path::<Duel>(&PathBuf::from("./models/duel/known_best.ot")));
    if 100 * wins >= 55 * 400 {
        ensures!("at 55 % and more the candidate is judged better", verdict == Some(1));
    } else if 100 * wins <= 45 * 400 {
        ensures!("at 45 % and less the candidate is judged worse", verdict == Some(2));
    } else {
        ensures!("in between the match is inconclusive", verdict.is_none());
    }
    ensures!("a match leaves the stored best model alone", holds("./models/duel/best_model.ot", &best));
    prepare_wins(wins, losses);
    az.play_vs_best_model::<Duel>();
    if 100 * wins >= 55 * 400 {
        ensures!("a clearly better candidate becomes the best model", holds("./models/duel/best_model.ot", &candidate));
    } else {
        ensures!("any other candidate leaves the best model as it was", holds("./models/duel/best_model.ot", &best));
    }
    ensures!("the candidate itself is left as it was", same_network(&az.model, &candidate));
}

/// harness: prop=P26 mode=paths game=Duel subst=versus::play>spec_play
pub fn p26_any_result(src: &mut Src) {
    let wins = src.pick("wins", 401);
    let losses = if src.pick("losses", 2) == 0 { 0 } else { 400 - wins };
    check_replacement(wins, losses);
}

/// the same with the matches played
/// harness: prop=P26 mode=paths game=Duel bounded=five_results_at_the_thresholds
pub fn p26_thresholds(src: &mut Src) {
    let wins = [180usize, 181, 219, 220, 200][src.pick("wins", 5)];
    check_replacement(wins, (400 - wins) / 2);
}

/// harness: prop=P26 mode=paths game=Duel
pub fn p26_first_model(src: &mut Src) {
    fresh_dir();
    let candidate = duel_net();
    candidate.vs.save("./models/duel/candidate.ot").unwrap();
    let az = duel_az("./models/duel/candidate.ot");
    prepare_wins(0, 400);
    az.play_vs_best_model::<Duel>();
    ensures!("without a best model the candidate becomes the best model", holds("./models/duel/best_model.ot", &candidate));
}

// ---------------------------------------------------------------- P27

pub fn agent(k: usize) -> Agent {
    match k % 4 {
        0 => Agent::Random,
        1 => Agent::Mcts,
        2 => Agent::Model,
        _ => Agent::None,
    }
}

pub fn any_duel(src: &mut Src) -> Duel {
    let mut d = <Duel as LearnableGame>::new();
    d.id = src.u32("id", 0, 100000) as usize;
    d.turns = src.u32("turns", 0, 400) as usize;
    d.player = src.i8("player", -1, 1);
    d.ended = src.i8("ended", -1, 2);
    d
}

pub fn recorded<T: LearnableGame>(src: &mut Src, start: T, states: &Vec<T>) -> Game<T> {
    let a = src.pick("agents", 4);
    let d = src.pick("agents", 2);
    let mut g = Game::new(agent(a), agent(a + 1 + d), start);
    for k in 0..states.len() {
        let roll = if (k + d) % 2 == 0 { None } else { Some((src.u8("die", 1, 6), src.u8("die", 1, 6))) };
        let action = if k == 0 { vec![states[k]] } else { vec![states[k], states[0]] };
        g.turns.push(Turn { roll, action, player: agent(a + k) });
    }
    g.winner = agent(a + 2 * d);
    g
}

pub fn check_saved<T: LearnableGame>(games: &Vec<Game<T>>) {
    fresh_dir();
    write_junk("./data/notes.txt");
    std::fs::create_dir_all("./data/older.json").unwrap();
    for g in games.iter() {
        save_game(g, "./data").unwrap();
    }
    let all: Vec<Game<T>> = load_all_games::<T>(PathBuf::from("./data")).unwrap();
    ensures!("as many games come back as were saved", all.len() == games.len());
    for g in games.iter() {
        let mut found = 0;
        for b in all.iter() {
            if debug_eq(g, b) {
                found += 1;
            }
        }
        ensures!("every saved game comes back exactly once and unchanged", found == 1);
    }
    // one by one, by file
    let mut files = 0;
    for e in std::fs::read_dir("./data").unwrap() {
        let p = e.unwrap().path();
        if p.is_file() && p.extension().map(|x| x == "json").unwrap_or(false) {
            files += 1;
            let b: Game<T> = load_game::<T>(p).unwrap();
            let mut found = 0;
            for g in games.iter() {
                if debug_eq(g, &b) {
                    found += 1;
                }
            }
            ensures!("a file gives the game that was saved in it", found == 1);
        }
    }
    ensures!("every game has its own file", files == games.len());
}

/// harness: prop=P27 mode=paths game=Duel bounded=up_to_2_games_of_up_to_2_turns
pub fn p27_games(src: &mut Src) {
    let n = src.pick("games", 3);
    let mut games: Vec<Game<Duel>> = vec![];
    for k in 0..n {
        let start = any_duel(src);
        let mut states: Vec<Duel> = vec![];
        for _ in 0..k + 1 {
            states.push(any_duel(src));
        }
        games.push(recorded(src, start, &states));
    }
    check_saved(&games);
}

/// harness: prop=P27 mode=paths game=Backgammon bounded=up_to_2_games_of_up_to_2_turns
pub fn p27_backgammon(src: &mut Src) {
    let n = 1 + src.pick("games", 2);
    let mut games: Vec<Game<Backgammon>> = vec![];
    for k in 0..n {
        let mut states: Vec<Backgammon> = vec![];
        for _ in 0..k + 2 {
            let mut g = <Backgammon as LearnableGame>::new();
            for p in 0..24usize {
                g.board.0[p] = src.i8("point", -15, 15);
            }
            g.board.1 = (src.u8("bar", 0, 15), src.u8("bar", 0, 15));
            g.board.2 = (src.u8("off", 0, 15), src.u8("off", 0, 15));
            g.roll = (src.u8("die", 0, 6), src.u8("die", 0, 6));
            g.player = src.i8("side", -1, 1);
            g.is_second_play = src.pick("second", 2) == 1;
            g.id = src.u32("id", 0, 100000) as usize;
            states.push(g);
        }
        games.push(recorded(src, states[0], &states));
    }
    check_saved(&games);
}

/// harness: prop=P27 mode=paths game=TicTacToe bounded=up_to_2_games_of_up_to_2_turns
pub fn p27_tictactoe(src: &mut Src) {
    let n = 1 + src.pick("games", 2);
    let mut games: Vec<Game<TicTacToe>> = vec![];
    for k in 0..n {
        let mut states: Vec<TicTacToe> = vec![];
        for _ in 0..k + 2 {
            states.push(crate::ttt::any_ttt(src));
        }
        games.push(recorded(src, states[0], &states));
    }
    check_saved(&games);
}
