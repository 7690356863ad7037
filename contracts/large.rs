//! The same contracts at the sizes of real use, run natively on random inputs (they support the contracts
//! that are discharged up to a bound and are never counted as proved): a game with many moves and move
//! numbers up to 1351, trees of dozens of nodes, batches of several games.
use crate::bg_spec::*;
use crate::mock::mcts_config;
use crate::selfplay::label_for;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::*;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::*;
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::*;
use die_e::mcts::utils::*;
use die_e::tictactoe::TicTacToe;
use serde::{Deserialize, Serialize};
use tch::nn::VarStore;
use tch::{Device, Tensor};

/// a game whose positions are numbers and whose moves, successors and results are scattered at random
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Maze {
    pub seed: u32,
    pub pos: u32,
    pub player: i8,
    pub played: u32,
    pub turns: u32,
    /// the largest number of moves of a position
    pub wide: u32,
    /// games longer than this end
    pub long: u32,
    pub id: usize,
}

fn mix(a: u32, b: u32, c: u32) -> u32 {
    let mut z = (a as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (b as u64).wrapping_mul(0xC2B2AE3D27D4EB4F) ^ (c as u64 + 1).wrapping_mul(0x165667B19E3779F9);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    (z ^ (z >> 31)) as u32 % (1 << 20)
}

impl Maze {
    pub fn at(seed: u32, wide: u32, long: u32) -> Maze {
        Maze { seed, pos: mix(seed, 0, 0) & !1, player: if mix(seed, 1, 0) % 2 == 0 { -1 } else { 1 }, played: 0, turns: 0, wide, long, id: 0 }
    }
}

impl LearnableGame for Maze {
    type Move = u32;
    const EMPTY_MOVE: u32 = 99999;
    const IS_DETERMINISTIC: bool = false;
    const ACTION_SPACE_SIZE: i64 = 1352;
    const N_INPUT_CHANNELS: i64 = 2;
    const CONV_OUTPUT_SIZE: i64 = 9;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;

    fn new() -> Self {
        Maze::at(0, 5, 40)
    }
    fn name() -> String {
        String::from("maze")
    }
    fn get_valid_moves(&self) -> Vec<u32> {
        let n = mix(self.seed, self.pos, 1) % (self.wide + 1);
        let first = match mix(self.seed, self.pos, 2) % 4 {
            0 => 0,
            1 => 1351,
            _ => mix(self.seed, self.pos, 5) % 1352,
        };
        (0..n).map(|k| (first + 97 * k) % 1352).collect()
    }
    fn apply_move(&mut self, action: &u32) {
        let h = mix(self.seed, self.pos, 100 + *action);
        self.pos = h;
        if h % 5 != 0 {
            self.player = -self.player;
        }
        self.played += 1;
        self.turns += 1;
    }
    fn roll_die(&mut self) -> (u8, u8) {
        let t = next_tag();
        *self = Maze::at(table(0) as u32 + t as u32, table(1) as u32, table(2) as u32);
        (1, 1)
    }
    /// passing never ends a game
    fn skip_turn(&mut self) {
        self.pos = mix(self.seed, self.pos, 3) & !1;
        self.player = -self.player;
        self.turns += 1;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        if self.pos % 2 == 1 && (mix(self.seed, self.pos, 4) % 6 == 0 || self.played >= self.long) {
            Some((mix(self.seed, self.pos, 6) % 3) as i8 - 1)
        } else {
            None
        }
    }
    fn as_tensor(&self) -> Tensor {
        let s = (1 << 20) as f32;
        let v = [self.seed as f32 / s, self.pos as f32 / s, self.player as f32, self.played as f32 / 64.0, self.turns as f32 / 64.0, self.wide as f32 / 64.0, self.long as f32 / 64.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0];
        Tensor::from_slice(&v).view([1, 2, 3, 3])
    }
    fn decode(&self, action: u32) -> u32 {
        (action + 1352 - self.pos % 7) % 1352
    }
    fn encode(&self, action: &u32) -> u32 {
        (*action + self.pos % 7) % 1352
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, new_id: usize) {
        self.id = new_id
    }
    fn to_pretty_str(&self) -> String {
        String::new()
    }
}

fn any_maze(src: &mut Src, wide: u32, long: u32) -> Maze {
    let mut g = Maze::at(src.u32("seed", 1, 1 << 19), wide, long);
    if src.pick("elsewhere", 3) == 0 {
        g.pos = src.u32("pos", 0, (1 << 19) - 1) * 2;
    }
    g
}

/// mostly up to 13 moves, now and then hundreds
fn any_width(src: &mut Src) -> u32 {
    if src.pick("crowd", 12) == 0 {
        600
    } else {
        13
    }
}

fn maze_net() -> ResNet {
    ResNet::new::<Maze>(VarStore::new(Device::Cpu))
}

fn any_backgammon(src: &mut Src) -> Backgammon {
    let b = any_board(src);
    Backgammon { board: b, roll: (die(src, "die0"), die(src, "die1")), player: side(src), is_second_play: false, id: 3 }
}

/// a position of a game of tic-tac-toe
fn played_ttt(src: &mut Src, moves: usize) -> TicTacToe {
    let mut g = <TicTacToe as LearnableGame>::new();
    for _ in 0..moves {
        let v = g.get_valid_moves();
        if g.check_winner().is_none() && !v.is_empty() {
            let k = src.pick("move", v.len());
            g.apply_move(&v[k]);
        }
    }
    g
}

// ---------------------------------------------------------------- P12

fn check_answer<T: LearnableGame>(g: &T, player: i8, iterations: usize, limit: usize) {
    let m = mct_search(*g, player, &mcts_config(iterations, 1.4, limit, 0.3, 0.25));
    let legal = g.get_valid_moves();
    if g.check_winner().is_some() || legal.is_empty() {
        ensures!("a finished game or one without a legal move is answered with the empty move", m == T::EMPTY_MOVE);
    } else {
        ensures!("the answer is a legal move", legal.contains(&m));
    }
}

/// harness: prop=P12 mode=native game=Maze
pub fn p12_real_games(src: &mut Src) {
    let iterations = 1 + src.pick("iterations", 80);
    let limit = src.pick("limit", 50);
    match src.pick("game", 3) {
        0 => {
            let g = any_maze(src, 9, 12);
            check_answer(&g, g.player, iterations, limit)
        }
        1 => {
            let k = src.pick("moves", 10);
            let g = played_ttt(src, k);
            check_answer(&g, g.get_player(), iterations, limit)
        }
        _ => {
            let g = any_backgammon(src);
            requires!(valid(&g.board));
            check_answer(&g, g.player, 1 + iterations / 3, limit)
        }
    }
}

// ---------------------------------------------------------------- P13, P14, P19

/// what holds of every tree
fn check_tree(store: &NodeStore<Maze>, n: usize) {
    for i in 0..n {
        let x = store.get_node(i);
        ensures!("a node knows its index", x.idx == i);
        let legal = x.state.get_valid_moves();
        let mut seen: Vec<u32> = x.expandable_moves.clone();
        for c in x.children.iter() {
            ensures!("children come after their parent", *c > i && *c < n);
            let k = store.get_node(*c);
            let m = k.action_taken.unwrap();
            ensures!("parent and child are linked in both directions", k.parent == Some(i));
            let mut want = x.state;
            want.apply_move(&m);
            ensures!("a child holds the state its move leads to", k.state == want);
            seen.push(m);
        }
        let mut seen2 = seen.clone();
        seen2.sort();
        let mut legal2 = legal.clone();
        legal2.sort();
        ensures!("every legal move is either expandable or has exactly one child", seen2 == legal2);
        if let Some(p) = x.parent {
            ensures!("a node is a child of its parent", store.get_node(p).children.iter().filter(|k| **k == i).count() == 1);
        }
    }
}

fn puct(store: &NodeStore<Maze>, i: usize, c: f32) -> f32 {
    let x = store.get_node(i);
    let q = if x.visits == 0.0 { 0.0 } else { x.value / x.visits };
    q + c * x.policy * store.get_node(x.parent.unwrap()).visits.sqrt() / (1.0 + x.visits)
}

fn ucb(store: &NodeStore<Maze>, i: usize, c: f32) -> f32 {
    let x = store.get_node(i);
    x.value / x.visits + (c * store.get_node(x.parent.unwrap()).visits.ln() / x.visits).sqrt()
}

/// harness: prop=P13,P14,P19 mode=native game=Maze
pub fn p13_grown_tree(src: &mut Src) {
    let g = any_maze(src, 13, 12);
    let c = src.f32("c", 0.0, 8.0);
    let mut store: NodeStore<Maze> = NodeStore::new();
    store.add_node(g, None, None, 0.0);
    let mut n = 1;
    let mut visits: Vec<f32> = vec![0.0];
    let mut values: Vec<f32> = vec![0.0];
    for _ in 0..20 + src.pick("rounds", 100) {
        let leaf = select_leaf_node(0, &store, c);
        ensures!("descent ends at a node of the tree", leaf < n);
        let mut x = store.get_node(leaf);
        ensures!("descent ends where expansion is needed or no child exists", x.children.is_empty() || !x.expandable_moves.is_empty());
        let mut k = leaf;
        while let Some(p) = store.get_node(k).parent {
            let y = store.get_node(p);
            ensures!("descent passes only fully expanded nodes", y.expandable_moves.is_empty());
            let b = ucb(&store, k, c);
            ensures!("descent goes to a child with maximal UCB value", y.children.iter().all(|o| at_least(b, ucb(&store, *o, c))));
            k = p;
        }
        let mut at = leaf;
        if x.state.check_winner().is_none() && !x.is_fully_expanded() {
            at = x.expand(&mut store);
            ensures!("the new child is a new node", at == n);
            n += 1;
            visits.push(0.0);
            values.push(0.0);
        }
        let r = src.pick("result", 3) as f32 - 1.0;
        backpropagate(at, r, &mut store);
        let mut k = Some(at);
        while let Some(i) = k {
            visits[i] += 1.0;
            values[i] += r;
            k = store.get_node(i).parent;
        }
    }
    for i in 0..n {
        let x = store.get_node(i);
        ensures!("visits and values are those recorded below the node", x.visits == visits[i] && same(x.value, values[i]));
        ensures!("the UCB value is mean value plus exploration term", i == 0 || same(x.ucb(&store, c), ucb(&store, i, c)));
        ensures!("the PUCT value is mean value plus prior-weighted exploration term", i == 0 || same(x.alpha_ucb(&store, c), puct(&store, i, c)));
    }
    check_tree(&store, n);
    let m = select_most_visits(0, &store);
    let root = store.get_node(0);
    for k in root.children.iter() {
        if store.get_node(*k).action_taken == Some(m) {
            ensures!("no child has more visits than the answer", root.children.iter().all(|o| store.get_node(*o).visits <= store.get_node(*k).visits));
        }
    }
    ensures!("the answer is a child's move", root.children.is_empty() == (m == 99999));
    cover!("a branching root", root.children.len() > 5);
}

/// harness: prop=P13 mode=native game=Maze
pub fn p13_many_moves(src: &mut Src) {
    let mut store: NodeStore<Maze> = NodeStore::new();
    let others = src.pick("others", 30);
    for _ in 0..others {
        store.add_node(any_maze(src, 3, 9), None, None, 0.1);
    }
    let wide = any_width(src);
    let g = any_maze(src, wide, 12);
    let me = store.add_node(g, None, None, 0.5);
    let policy: Vec<f32> = (0..1352).map(|i| (1 + i) as f32 / 2000.0).collect();
    let mut x = store.get_node(me);
    if src.pick("list", 2) == 0 {
        x.alpha_expand(&mut store, policy.clone());
    } else {
        x.alpha_expand_tensor(&mut store, &Tensor::from_slice(&policy));
    }
    let after = store.get_node(me);
    ensures!("policy-guided expansion adds one child per legal move", after.children.len() == g.get_valid_moves().len() && after.expandable_moves.is_empty());
    for c in after.children.iter() {
        let k = store.get_node(*c);
        ensures!("a child gets the policy value at its move's number", k.policy == policy[g.encode(&k.action_taken.unwrap()) as usize]);
    }
    check_tree(&store, others + 1 + after.children.len());
    cover!("many moves", after.children.len() > 8);
}

// ---------------------------------------------------------------- P15

/// outcomes of playing a game of tic-tac-toe out
fn ttt_outcomes(g: TicTacToe, player: i8, out: &mut Vec<f32>) {
    match g.check_winner() {
        Some(w) => out.push((w * player) as f32),
        None => {
            for m in g.get_valid_moves().iter() {
                let mut h = g;
                h.apply_move(m);
                ttt_outcomes(h, player, out);
            }
        }
    }
}

/// harness: prop=P15 mode=native game=Maze
pub fn p15_single_line(src: &mut Src) {
    // at most one move everywhere: there is only one way to play on
    let g = any_maze(src, 1, 30);
    let player = if src.pick("for", 2) == 0 { 1 } else { -1 };
    let limit = 1 + src.pick("limit", 120);
    let node: Node<Maze> = Node::new(g, 0, None, None, 0.0);
    let r = node.simulate(player, limit);
    let mut h = g;
    let mut steps = 0;
    while h.check_winner().is_none() && steps < limit {
        match h.get_valid_moves().first() {
            Some(m) => h.apply_move(m),
            None => h.skip_turn(),
        }
        steps += 1;
    }
    match h.check_winner() {
        // a result reached by the very last step may count or not
        Some(w) => ensures!("a playout returns the outcome of the game played out", r == (w * player) as f32 || (steps == limit && r == 0.0)),
        None => ensures!("a playout stopped by the limit is worth zero", r == 0.0),
    }
    cover!("a long playout", steps > 20 && h.check_winner().is_some());
}

/// harness: prop=P15 mode=native game=Maze
pub fn p15_tictactoe(src: &mut Src) {
    let k = 3 + src.pick("moves", 6);
    let g = played_ttt(src, k);
    let player = if src.pick("for", 2) == 0 { 1 } else { -1 };
    let node: Node<TicTacToe> = Node::new(g, 0, None, None, 0.0);
    let mut want: Vec<f32> = vec![];
    ttt_outcomes(g, player, &mut want);
    for _ in 0..5 {
        ensures!("a playout returns the outcome of a game played out from the node", want.contains(&node.simulate(player, 20)));
    }
}

// ---------------------------------------------------------------- P16, P17, P18

fn any_weights(src: &mut Src) -> Vec<f32> {
    let a = src.u32("weights", 1, 1 << 20);
    (0..1352).map(|i| (1 + mix(a, i, 7) % 1000) as f32 / 1000.0).collect()
}

fn check_shares<T: LearnableGame>(g: &T, policy: &Vec<f32>, at: impl Fn(usize) -> f32) {
    let legal: Vec<usize> = g.get_valid_moves().iter().map(|m| g.encode(m) as usize).collect();
    let mass: f32 = legal.iter().map(|i| policy[*i]).sum();
    let mut sum = 0.0f32;
    for i in 0..1352 {
        let x = at(i);
        if legal.contains(&i) {
            ensures!("a legal move gets its share of the policy on the legal moves", same(x, policy[i] / mass));
            sum += x;
        } else {
            ensures!("a number without a legal move gets zero", x == 0.0);
        }
    }
    ensures!("the probabilities add up to one", same(sum, 1.0));
}

fn check_priors<T: LearnableGame>(games: &Vec<T>, policies: &Vec<Vec<f32>>) {
    let mut store: NodeStore<T> = NodeStore::new();
    let mut flat: Vec<f32> = vec![];
    for i in 0..games.len() {
        store.add_node(games[i], None, None, 0.0);
        flat.extend(policies[i].iter());
        if !games[i].get_valid_moves().is_empty() {
            let node = store.get_node(i);
            let v = turn_policy_to_probs(&Tensor::from_slice(&policies[i]), &node);
            check_shares(&games[i], &policies[i], |k| v[k]);
            let v = turn_policy_to_probs_tensor(&Tensor::from_slice(&policies[i]), &node);
            check_shares(&games[i], &policies[i], |k| v.double_value(&[k as i64]) as f32);
        }
    }
    let n = games.len();
    let all: Vec<usize> = (0..n).collect();
    let v = turn_policy_to_probs_tensor_parallel(&store, &all, &Tensor::from_slice(&flat).view([n as i64, 1352]));
    for i in 0..n {
        if !games[i].get_valid_moves().is_empty() {
            check_shares(&games[i], &policies[i], |k| v.double_value(&[i as i64, k as i64]) as f32);
        }
    }
}

/// harness: prop=P16 mode=native game=Maze
pub fn p16_many_numbers(src: &mut Src) {
    let n = 1 + src.pick("games", 6);
    let policies: Vec<Vec<f32>> = (0..n).map(|_| any_weights(src)).collect();
    if src.pick("game", 2) == 0 {
        let wide = any_width(src);
        let games: Vec<Maze> = (0..n).map(|_| any_maze(src, wide, 12)).collect();
        check_priors(&games, &policies);
    } else {
        let games: Vec<Backgammon> = (0..n).map(|_| any_backgammon(src)).collect();
        requires!(games.iter().all(|g| valid(&g.board)));
        check_priors(&games, &policies);
    }
}

fn check_visit_shares<T: LearnableGame>(src: &mut Src, games: &Vec<T>) {
    let mut store: NodeStore<T> = NodeStore::new();
    for g in games.iter() {
        store.add_node(*g, None, None, 0.0);
    }
    let n = games.len();
    let mut want: Vec<Vec<f32>> = vec![];
    for i in 0..n {
        let mut w = vec![0.0f32; 1352];
        let k = games[i].get_valid_moves().len();
        let expanded = if src.pick("all", 2) == 0 { k } else { src.pick("expanded", k + 1) };
        for j in 0..expanded {
            let c = store.get_node(i).expand(&mut store);
            let v = if j == 0 { 1.0 } else { src.pick("visits", 3000) as f32 };
            store.get_node_as_mut(c).visits = v;
            w[games[i].encode(&store.get_node(c).action_taken.unwrap()) as usize] += v;
        }
        want.push(w);
    }
    let roots: Vec<&Node<T>> = (0..n).map(|i| store.get_node_ref(i)).collect();
    let t = get_prob_tensor_parallel(&roots, &store);
    for i in 0..n {
        let total: f32 = want[i].iter().sum();
        if total > 0.0 {
            ensures!("every number gets its own row's child's share of the visits", (0..1352).all(|k| same(t.double_value(&[i as i64, k as i64]) as f32, want[i][k] / total)));
        }
        let one = get_prob_tensor(&games[i], i, &store);
        ensures!("a root has a distribution exactly when it has children", one.is_some() == (total > 0.0));
        if let Some(t) = one {
            ensures!("every number gets its child's share of the visits", (0..1352).all(|k| same(t.double_value(&[k as i64]) as f32, want[i][k] / total)));
        }
    }
}

/// harness: prop=P17 mode=native game=Maze
pub fn p17_many_children(src: &mut Src) {
    let n = 1 + src.pick("games", 6);
    if src.pick("game", 2) == 0 {
        let wide = any_width(src);
        let games: Vec<Maze> = (0..n).map(|_| any_maze(src, wide, 12)).collect();
        check_visit_shares(src, &games);
    } else {
        let games: Vec<Backgammon> = (0..n).map(|_| any_backgammon(src)).collect();
        requires!(games.iter().all(|g| valid(&g.board)));
        check_visit_shares(src, &games);
    }
}

/// harness: prop=P18 mode=native game=Maze
pub fn p18_many_children(src: &mut Src) {
    let wide = any_width(src);
    let g = any_maze(src, wide, 12);
    let mut store: NodeStore<Maze> = NodeStore::new();
    let others = src.pick("others", 5);
    for _ in 0..others {
        store.add_node(g, None, None, 0.25);
    }
    let me = store.add_node(g, None, None, 0.5);
    let policy = any_weights(src);
    let mut x = store.get_node(me);
    x.alpha_expand(&mut store, policy);
    requires!(x.children.len() >= 2);
    let n = others + 1 + x.children.len();
    let below = store.get_node(x.children[0]).expandable_moves.len();
    if below > 0 {
        store.get_node(x.children[0]).alpha_expand(&mut store, vec![0.5; 1352]);
    }
    let before: Vec<Node<Maze>> = (0..n + below).map(|i| store.get_node(i)).collect();
    let (alpha, eps) = (src.f32("alpha", 0.01, 2.0), src.f32("eps", 0.05, 1.0));
    let mut at_root = store.get_node(me);
    at_root.visits = 1.0;
    at_root.apply_dirichlet(alpha, eps, &mut store);
    let mut noise = 0.0f32;
    for i in 0..n + below {
        let a = store.get_node(i);
        if x.children.contains(&i) {
            let share = (a.policy - (1.0 - eps) * before[i].policy) / eps;
            ensures!("the noise share of a prior is not negative", share > -0.001);
            noise += share;
        } else {
            ensures!("noise changes nothing but the root's children", a.policy == before[i].policy);
        }
        ensures!("noise changes nothing but priors", a.visits == before[i].visits && a.value == before[i].value && a.children == before[i].children && a.state == before[i].state);
    }
    ensures!("the noise adds up to one", (noise - 1.0).abs() < 0.002);
}

/// a concentration so small that single draws of the noise vanish is a concentration like any other
/// harness: prop=P18 mode=native game=Maze
pub fn p18_small_concentration(src: &mut Src) {
    let g = any_maze(src, 12, 12);
    let alpha = [0.1f32, 0.03, 0.01, 0.003, 0.001, 0.0001, 1e-6, 1e-20][src.pick("alpha", 8)];
    let eps = src.f32("eps", 0.05, 1.0);
    let policy = any_weights(src);
    let mut store: NodeStore<Maze> = NodeStore::new();
    let me = store.add_node(g, None, None, 0.5);
    let mut x = store.get_node(me);
    x.alpha_expand(&mut store, policy);
    x.visits = 1.0;
    requires!(x.children.len() >= 2);
    let before: Vec<f32> = x.children.iter().map(|&i| store.get_node(i).policy).collect();
    for _ in 0..12 {
        x.apply_dirichlet(alpha, eps, &mut store);
        let mut noise = 0.0f32;
        for (k, &i) in x.children.iter().enumerate() {
            let share = (store.get_node(i).policy - (1.0 - eps) * before[k]) / eps;
            ensures!("the noise share of a prior is not negative", share > -0.001);
            noise += share;
            store.get_node_as_mut(i).policy = before[k];
        }
        ensures!("the noise adds up to one", (noise - 1.0).abs() < 0.002);
    }
    let net = maze_net();
    let games: Vec<Maze> = (0..3).map(|_| any_maze(src, 12, 12)).collect();
    for _ in 0..6 {
        let mut store: NodeStore<Maze> = NodeStore::new();
        alpha_mcts_parallel(&mut store, &games, &net, &mcts_config(0, 1.5, 3, alpha, eps.min(0.9)), None);
        for (k, g) in games.iter().enumerate() {
            let root = store.get_node(k);
            let priors: Vec<f32> = root.children.iter().map(|&i| store.get_node(i).policy).collect();
            ensures!("every legal move of a batch has its child", priors.len() == g.get_valid_moves().len());
            ensures!("no prior of a batch is negative", priors.iter().all(|&x| x >= 0.0));
            ensures!("the priors of a batch add up to one", priors.is_empty() || (priors.iter().sum::<f32>() - 1.0).abs() < 0.002);
        }
    }
}

// ---------------------------------------------------------------- P20

struct RNode {
    g: Maze,
    parent: usize,
    act: u32,
    prior: f32,
    value: f32,
    visits: f32,
    kids: Vec<usize>,
}

fn opinion(net: &ResNet, g: &Maze) -> (Vec<f32>, f32) {
    let (p, v) = net.forward_t(&g.as_tensor(), false);
    (Vec::<f32>::try_from(p.view([1352])).unwrap(), v.double_value(&[0, 0]) as f32)
}

fn shares(g: &Maze, policy: &Vec<f32>) -> Vec<f32> {
    let w: Vec<f32> = g.get_valid_moves().iter().map(|m| policy[g.encode(m) as usize]).collect();
    let s: f32 = w.iter().sum();
    w.iter().map(|x| x / s).collect()
}

fn ref_expand(tree: &mut Vec<RNode>, i: usize, priors: &Vec<f32>) {
    let g = tree[i].g;
    for (k, m) in g.get_valid_moves().iter().enumerate() {
        let mut h = g;
        h.apply_move(m);
        let at = tree.len();
        tree.push(RNode { g: h, parent: i, act: *m, prior: priors[k], value: 0.0, visits: 0.0, kids: vec![] });
        tree[i].kids.push(at);
    }
}

fn ref_step(tree: &mut Vec<RNode>, net: &ResNet, c: f32) -> bool {
    let mut at = 0;
    let mut path = vec![0];
    while !tree[at].kids.is_empty() {
        let score = |k: usize| {
            let x = &tree[k];
            (if x.visits == 0.0 { 0.0 } else { x.value / x.visits }) + c * x.prior * tree[x.parent].visits.sqrt() / (1.0 + x.visits)
        };
        let best = *tree[at].kids.iter().max_by(|a, b| score(**a).partial_cmp(&score(**b)).unwrap()).unwrap();
        // which of two equally good children is taken is left open
        if tree[at].kids.iter().any(|k| *k != best && score(*k) > score(best) - 0.0002) {
            return false;
        }
        at = best;
        path.push(at);
    }
    let value = match tree[at].g.check_winner() {
        Some(w) => (w * tree[0].g.player) as f32,
        None => {
            let (p, v) = opinion(net, &tree[at].g);
            let pr = shares(&tree[at].g, &p);
            ref_expand(tree, at, &pr);
            v
        }
    };
    for i in path {
        tree[i].visits += 1.0;
        tree[i].value += value;
    }
    true
}

fn child_by(store: &NodeStore<Maze>, at: usize, act: u32) -> Option<usize> {
    store.get_node(at).children.iter().cloned().find(|c| store.get_node(*c).action_taken == Some(act))
}

fn agree(store: &NodeStore<Maze>, at: usize, tree: &Vec<RNode>, i: usize) {
    let x = store.get_node(at);
    let r = &tree[i];
    ensures!("the node holds the state its moves lead to", x.state == r.g);
    ensures!("visits are those of the search on this game alone", same(x.visits, r.visits));
    ensures!("recorded values are those of the search on this game alone", (x.value - r.value).abs() < 0.002 * (1.0 + r.visits));
    ensures!("children are the legal moves of an expanded node", x.children.len() == r.kids.len());
    ensures!("priors are the network's policy normalised over the legal moves", i == 0 || same(x.policy, r.prior));
    for k in r.kids.iter() {
        match child_by(store, at, tree[*k].act) {
            Some(c) => agree(store, c, tree, *k),
            None => ensures!("every move of an expanded node has its child", false),
        }
    }
}

/// harness: prop=P20,P19,P13,P16 mode=native game=Maze
pub fn p20_many_games(src: &mut Src) {
    let net = maze_net();
    let c = src.f32("c", 0.0, 60.0);
    let n = 1 + src.pick("games", 7);
    let wide = 1 + src.pick("wide", 6) as u32;
    let games: Vec<Maze> = (0..n).map(|_| any_maze(src, wide, 8)).collect();
    requires!(games.iter().all(|g| g.check_winner().is_none()));
    let iterations = src.pick("iterations", 25);
    let noisy = src.pick("noise", 2) == 1;
    let cfg = mcts_config(iterations, c, 3, 0.3, if noisy { 0.25 } else { 0.0 });
    let mut store: NodeStore<Maze> = NodeStore::new();
    alpha_mcts_parallel(&mut store, &games, &net, &cfg, None);
    let mut size = 0;
    for i in 0..n {
        let root = store.get_node(i);
        ensures!("the roots are the games in their order", root.parent.is_none() && root.state == games[i] && root.idx == i);
        ensures!("every game's root records exactly one result per iteration", same(root.visits, 1.0 + iterations as f32));
        let mut priors = shares(&games[i], &opinion(&net, &games[i]).0);
        if noisy {
            let legal = games[i].get_valid_moves();
            for (k, m) in legal.iter().enumerate() {
                match child_by(&store, i, *m) {
                    Some(at) => {
                        let q = store.get_node(at).policy;
                        ensures!("a root prior is a probability", q >= 0.0 && q < 1.001);
                        priors[k] = q;
                    }
                    None => ensures!("every legal move of the root has its child", false),
                }
            }
            ensures!("the root priors sum to one", legal.is_empty() || (priors.iter().sum::<f32>() - 1.0).abs() < 0.002);
        }
        let mut tree = vec![RNode { g: games[i], parent: 0, act: 0, prior: 0.0, value: 0.0, visits: 1.0, kids: vec![] }];
        ref_expand(&mut tree, 0, &priors);
        let mut ok = true;
        for _ in 0..iterations {
            ok = ok && ref_step(&mut tree, &net, c);
        }
        size += tree.len();
        // a game with near ties says nothing about the others
        if ok {
            agree(&store, i, &tree, 0);
            cover!("an unambiguous search of many iterations", iterations > 10 && tree.len() > 20);
        }
    }
}

// ---------------------------------------------------------------- P21

fn maze_of(t: &Tensor) -> Maze {
    let at = |k: i64| -> f64 { t.double_value(&[0, 0, k / 3, k % 3]) };
    let s = (1 << 20) as f64;
    Maze {
        seed: (at(0) * s) as u32,
        pos: (at(1) * s) as u32,
        player: at(2) as i8,
        played: (at(3) * 64.0) as u32,
        turns: (at(4) * 64.0) as u32,
        wide: (at(5) * 64.0) as u32,
        long: (at(6) * 64.0) as u32,
        id: 0,
    }
}

fn on_to_a_choice(g: Maze, limit: usize) -> Maze {
    let mut h = g;
    while h.check_winner().is_none() && h.get_valid_moves().is_empty() && (h.turns as usize) < limit {
        h.skip_turn();
    }
    h
}

fn check_lines(samples: &Vec<MemoryFragment>, seed: u32, n: usize, wide: u32, long: u32, limit: usize) {
    let mut lines: Vec<Vec<(Maze, i8)>> = vec![vec![]; n];
    for s in samples.iter() {
        ensures!("a sample's state has the shape of the game's encoding", s.state.size() == vec![1, 2, 3, 3]);
        ensures!("a sample has one probability per move number", s.ps.size() == vec![1352]);
        let g = maze_of(&s.state);
        let ps = Vec::<f32>::try_from(&s.ps).unwrap();
        let legal: Vec<usize> = g.get_valid_moves().iter().map(|m| g.encode(m) as usize).collect();
        ensures!("only legal moves have a probability", (0..1352).all(|i| ps[i] == 0.0 || legal.contains(&i)));
        ensures!("some legal move has a probability", ps.iter().any(|x| *x > 0.0));
        let at = (g.seed as usize).wrapping_sub(seed as usize);
        ensures!("a sample's state is a position of its game", at < n);
        if at < n {
            lines[at].push((g, s.outcome));
        }
    }
    for i in 0..n {
        let line = &mut lines[i];
        line.sort_by_key(|x| x.0.played);
        ensures!("every sample is the next move of its game, none twice", (0..line.len()).all(|k| line[k].0.played as usize == k));
        let first = on_to_a_choice(Maze::at(seed + i as u32, wide, long), limit);
        let starts = first.check_winner().is_none() && !first.get_valid_moves().is_empty() && (first.turns as usize) < limit;
        ensures!("a game gives samples exactly when a move could be chosen", starts == !line.is_empty());
        if line.is_empty() || !starts {
            continue;
        }
        ensures!("the first sample is the first position at which a move was chosen", line[0].0 == first);
        for k in 0..line.len() {
            let g = line[k].0;
            let linked = g.get_valid_moves().iter().any(|m| {
                let mut h = g;
                h.apply_move(m);
                let h = on_to_a_choice(h, limit);
                let over = h.check_winner().is_some() || h.turns as usize >= limit;
                if k + 1 < line.len() {
                    !over && h == line[k + 1].0
                } else {
                    over && line.iter().all(|s| s.1 == label_for(h.check_winner(), s.0.player))
                }
            });
            ensures!("the game was played by legal moves to its end and every sample is labelled with its result for the side to move", linked);
        }
    }
}

fn maze_az(iterations: usize, limit: usize, batches: usize) -> AlphaZero {
    AlphaZero::from_config::<Maze>(
        None,
        &config_of(vec![
            ("iterations", iterations as f64),
            ("exploration_const", 1.5),
            ("simulate_round_limit", limit as f64),
            ("dirichlet_alpha", 0.3),
            ("dirichlet_epsilon", 0.25),
            ("temperature", 1.0),
            ("learn_iterations", 1.0),
            ("self_play_iterations", 1.0),
            ("num_epochs", 1.0),
            ("training_batch_size", 4.0),
            ("num_self_play_batches", batches as f64),
            ("wd", 0.0001),
            ("lr", 0.001),
        ]),
    )
}

/// harness: prop=P21 mode=native game=Maze
pub fn p21_many_games(src: &mut Src) {
    let (n, k) = (1 + src.pick("games", 8), 1 + src.pick("iterations", 6));
    let (wide, long) = (1 + src.pick("wide", 6) as u32, 1 + src.pick("long", 30) as u32);
    let limit = 1 + src.pick("limit", 40);
    let seed = src.u32("seed", 1, 1 << 19);
    put_table(vec![seed as i64, wide as i64, long as i64]);
    let samples = maze_az(k, limit, n).self_play_parallel::<Maze>();
    check_lines(&samples, seed, n, wide, long, limit);
    cover!("a long game", samples.len() > 15);
}

/// harness: prop=P21 mode=native game=Maze
pub fn p21_sequential_longer(src: &mut Src) {
    let (wide, long) = (1 + src.pick("wide", 6) as u32, 1 + src.pick("long", 12) as u32);
    let seed = src.u32("seed", 1, 1 << 19);
    put_table(vec![seed as i64, wide as i64, long as i64]);
    let samples = maze_az(2, 5, 1).self_play::<Maze>();
    check_lines(&samples, seed, 1, wide, long, usize::MAX);
}

// ---------------------------------------------------------------- P28

fn grow(src: &mut Src, depth: usize, left: &mut usize) -> ActionNode {
    let value = (src.i8("from", -1, 23), src.i8("to", -1, 23));
    let mut children: Vec<ActionNode> = vec![];
    if depth > 0 {
        for _ in 0..src.pick("children", 16) {
            if *left > 0 {
                *left -= 1;
                children.push(grow(src, depth - 1, left));
            }
        }
    }
    ActionNode { value, children }
}

/// harness: prop=P28 mode=native game=Maze
pub fn p28_larger(src: &mut Src) {
    let mut left = src.pick("nodes", 200);
    let n = 1 + src.pick("trees", 16);
    let mut list: Vec<ActionNode> = vec![];
    let mut want: Vec<Actions> = vec![];
    for _ in 0..n {
        let t = grow(src, 6, &mut left);
        let mut mine: Vec<Actions> = vec![];
        crate::trees::paths(&t, &vec![], &mut mine);
        ensures!("a tree yields its root-to-leaf paths in order", Backgammon::extract_sequences_node(&t) == mine);
        want.extend(mine);
        list.push(t);
    }
    ensures!("a list of trees yields the paths of its trees in order", Backgammon::extract_sequences_list(list) == want);
}
