//! A table-driven game standing for "any game": every position's result, moves, successors and the
//! effect of passing are arbitrary table entries. Used by the contracts of the generic code.
use crate::src::Src;
use crate::support::*;
use die_e::base::LearnableGame;
use die_e::mcts::node_store::NodeStore;
use die_e::MctsConfig;
use serde::{Deserialize, Serialize};
use tch::Tensor;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mock {
    /// result of a position: -1, 0, 1, or 2 for an undecided one
    pub won: [i8; 4],
    /// number of moves of a position
    pub deg: [u8; 4],
    /// where a move leads
    pub next: [[u8; 2]; 4],
    /// where passing leads
    pub pass_to: [u8; 4],
    pub pos: u8,
    pub player: i8,
    /// number of moves made and of turns (moves and passes) taken
    pub played: u8,
    pub turns: u8,
    /// tells the games of a batch apart
    pub tag: u8,
    pub id: usize,
}

impl LearnableGame for Mock {
    type Move = u8;
    const EMPTY_MOVE: u8 = 9;
    const IS_DETERMINISTIC: bool = false;
    const ACTION_SPACE_SIZE: i64 = 8;
    const N_INPUT_CHANNELS: i64 = 2;
    const CONV_OUTPUT_SIZE: i64 = 25;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;

    fn new() -> Self {
        Mock { won: [2; 4], deg: [0; 4], next: [[0; 2]; 4], pass_to: [0; 4], pos: 0, player: -1, played: 0, turns: 0, tag: 0, id: 0 }
    }
    fn name() -> String {
        String::from("mock")
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        (0..self.deg[self.pos as usize]).collect()
    }
    fn apply_move(&mut self, action: &u8) {
        self.pos = self.next[self.pos as usize][*action as usize];
        // as after the first half of a double, the side that moves into this position moves on
        if self.pos != 1 {
            self.player = -self.player;
        }
        self.played += 1;
        self.turns += 1;
    }
    /// games that code under contract starts by itself are the prepared ones, one after the other
    fn roll_die(&mut self) -> (u8, u8) {
        let t = next_tag();
        from_table(self, t);
        self.tag = t as u8;
        (1, 1)
    }
    fn skip_turn(&mut self) {
        self.pos = self.pass_to[self.pos as usize];
        self.player = -self.player;
        self.turns += 1;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        let w = self.won[self.pos as usize];
        if w == 2 {
            None
        } else {
            Some(w)
        }
    }
    fn as_tensor(&self) -> Tensor {
        let mut v: Vec<f32> = vec![
            self.pos as f32, self.player as f32, self.played as f32, self.turns as f32, self.tag as f32,
            self.won[0] as f32, self.won[1] as f32, self.won[2] as f32, self.won[3] as f32,
            self.deg[0] as f32, self.deg[1] as f32, self.deg[2] as f32, self.deg[3] as f32,
            self.next[0][0] as f32, self.next[0][1] as f32, self.next[1][0] as f32, self.next[1][1] as f32,
            self.next[2][0] as f32, self.next[2][1] as f32, self.next[3][0] as f32, self.next[3][1] as f32,
            self.pass_to[0] as f32, self.pass_to[1] as f32, self.pass_to[2] as f32, self.pass_to[3] as f32,
        ];
        for _ in 0..25 {
            v.push(0.0);
        }
        Tensor::from_slice(&v).view([1, 2, 5, 5])
    }
    fn decode(&self, action: u32) -> u8 {
        ((action + 8 - 2 * self.pos as u32) % 8) as u8
    }
    fn encode(&self, action: &u8) -> u32 {
        2 * self.pos as u32 + *action as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, new_id: usize) {
        self.id = new_id
    }
    fn to_pretty_str(&self) -> String {
        String::new()
    }
}

/// any game with three positions, in its first position, with any side to move
pub fn any_mock(src: &mut Src) -> Mock {
    let mut g = <Mock as LearnableGame>::new();
    for p in 0..3usize {
        g.won[p] = src.i8("won", -1, 2);
        g.deg[p] = src.u8("deg", 0, 2);
        for k in 0..2usize {
            g.next[p][k] = src.u8("next", 0, 2);
        }
        g.pass_to[p] = src.u8("pass", 0, 2);
    }
    g.player = if src.pick("side", 2) == 0 { -1 } else { 1 };
    g
}

pub fn mcts_config(iterations: usize, c: f32, limit: usize, alpha: f32, eps: f32) -> MctsConfig {
    MctsConfig::from_config(&config_of(vec![
        ("iterations", iterations as f64),
        ("exploration_const", c as f64),
        ("simulate_round_limit", limit as f64),
        ("dirichlet_alpha", alpha as f64),
        ("dirichlet_epsilon", eps as f64),
    ]))
    .unwrap()
}

/// a tree of any shape with the given number of nodes (parents before children), any statistics, and at
/// every node a game without moves; every node has been visited
pub fn any_store(src: &mut Src, n: usize) -> NodeStore<Mock> {
    let mut store: NodeStore<Mock> = NodeStore::new();
    let g = <Mock as LearnableGame>::new();
    for i in 0..n {
        let parent = if i == 0 { None } else { Some(src.pick("parent", i)) };
        let act = if i == 0 { None } else { Some(i as u8 + 20) };
        store.add_node(g, parent, act, 0.0);
        if let Some(p) = parent {
            store.get_node_as_mut(p).children.push(i);
        }
        let v = src.f32("value", -10.0, 10.0);
        let w = src.f32("visits", 1.0, 20.0);
        let q = src.f32("prior", 0.0, 1.0);
        let m = store.get_node_as_mut(i);
        m.value = v;
        m.visits = w;
        m.policy = q;
    }
    store
}


/// a game whose first position leads to two different ones and these to a last one; results, number of
/// moves and side to move are arbitrary
pub fn any_small_mock(src: &mut Src, deg: u8) -> Mock {
    let mut g = <Mock as LearnableGame>::new();
    g.next = [[1, 2], [3, 3], [3, 3], [3, 3]];
    g.pass_to = [1, 3, 3, 3];
    g.deg[0] = src.u8("deg", 0, deg);
    for p in 1..4usize {
        g.won[p] = src.i8("won", -1, 2);
        g.deg[p] = src.u8("deg", 0, deg);
    }
    g.player = if src.pick("side", 2) == 0 { -1 } else { 1 };
    g
}

/// how many numbers describe a game
pub const GAME_SIZE: usize = 21;

/// the t-th prepared game
pub fn from_table(g: &mut Mock, t: usize) {
    let at = GAME_SIZE * t;
    for p in 0..4usize {
        g.won[p] = table(at + p) as i8;
        g.deg[p] = table(at + 4 + p) as u8;
        g.next[p][0] = table(at + 8 + 2 * p) as u8;
        g.next[p][1] = table(at + 9 + 2 * p) as u8;
        g.pass_to[p] = table(at + 16 + p) as u8;
    }
    g.player = table(at + 20) as i8;
}

/// prepare the games that code under contract will start
pub fn prepare(games: &Vec<Mock>) {
    let mut v: Vec<i64> = vec![];
    for g in games.iter() {
        for p in 0..4usize {
            v.push(g.won[p] as i64);
        }
        for p in 0..4usize {
            v.push(g.deg[p] as i64);
        }
        for p in 0..4usize {
            v.push(g.next[p][0] as i64);
            v.push(g.next[p][1] as i64);
        }
        for p in 0..4usize {
            v.push(g.pass_to[p] as i64);
        }
        v.push(g.player as i64);
    }
    put_table(v);
}

/// a game with a network of another shape
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Wide {
    pub id: usize,
}

impl LearnableGame for Wide {
    type Move = u8;
    const EMPTY_MOVE: u8 = 9;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 12;
    const N_INPUT_CHANNELS: i64 = 2;
    const CONV_OUTPUT_SIZE: i64 = 16;
    const N_FILTERS: i64 = 3;
    const N_RES_BLOCKS: i64 = 2;

    fn new() -> Self {
        Wide { id: 0 }
    }
    fn name() -> String {
        String::from("wide")
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        vec![]
    }
    fn apply_move(&mut self, _action: &u8) {}
    fn roll_die(&mut self) -> (u8, u8) {
        (1, 1)
    }
    fn skip_turn(&mut self) {}
    fn get_player(&self) -> i8 {
        1
    }
    fn check_winner(&self) -> Option<i8> {
        None
    }
    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&[0.0f32; 32]).view([1, 2, 4, 4])
    }
    fn decode(&self, _action: u32) -> u8 {
        0
    }
    fn encode(&self, _action: &u8) -> u32 {
        0
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, new_id: usize) {
        self.id = new_id
    }
    fn to_pretty_str(&self) -> String {
        String::new()
    }
}
