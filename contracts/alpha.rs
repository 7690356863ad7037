//! Contracts of policy-guided search (P19, P20): the tree after a search is the tree of the algorithm run
//! on each game alone, for any table game and any network.
use crate::mcts::*;
use crate::mock::*;
use crate::probs::*;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::*;
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use tch::nn::VarStore;
use tch::{Device, Tensor};

pub fn any_net() -> ResNet {
    ResNet::new::<Mock>(VarStore::new(Device::Cpu))
}

#[derive(Clone)]
pub struct RNode {
    pub g: Mock,
    pub parent: usize,
    pub act: u8,
    pub prior: f32,
    pub value: f32,
    pub visits: f32,
    pub kids: Vec<usize>,
}

/// the network's opinion on one position: policy and value
pub fn opinion(net: &ResNet, g: &Mock) -> (Vec<f32>, f32) {
    let (p, v) = net.forward_t(&g.as_tensor(), false);
    let mut o: Vec<f32> = vec![];
    for i in 0..8 {
        o.push(p.double_value(&[0, i]) as f32);
    }
    (o, v.double_value(&[0, 0]) as f32)
}

/// the policy, normalised over the legal moves: one prior per legal move, in the order of the moves
pub fn priors_of(g: &Mock, policy: &Vec<f32>) -> Vec<f32> {
    let mass = legal_mass(g, policy);
    let mut o: Vec<f32> = vec![];
    for m in g.get_valid_moves().iter() {
        o.push(policy[g.encode(m) as usize] / mass);
    }
    o
}

pub fn ref_expand(tree: &mut Vec<RNode>, i: usize, priors: &Vec<f32>) {
    let g = tree[i].g;
    let moves = g.get_valid_moves();
    for k in 0..moves.len() {
        let mut h = g;
        h.apply_move(&moves[k]);
        let at = tree.len();
        tree.push(RNode { g: h, parent: i, act: moves[k], prior: priors[k], value: 0.0, visits: 0.0, kids: vec![] });
        tree[i].kids.push(at);
    }
}

pub fn ref_puct(tree: &Vec<RNode>, i: usize, c: f32) -> f32 {
    let q = if tree[i].visits == 0.0 { 0.0 } else { tree[i].value / tree[i].visits };
    q + c * tree[i].prior * tree[tree[i].parent].visits.sqrt() / (1.0 + tree[i].visits)
}

/// one iteration of the search on one game alone
pub fn ref_step(tree: &mut Vec<RNode>, net: &ResNet, c: f32) {
    let mut at = 0;
    let mut path: Vec<usize> = vec![0];
    while !tree[at].kids.is_empty() {
        let kids = tree[at].kids.clone();
        let mut best = kids[0];
        for k in kids.iter().skip(1) {
            let (a, b) = (ref_puct(tree, best, c), ref_puct(tree, *k, c));
            // which of two equally good children is taken is left open
            requires!(a > b + 0.0005 || b > a + 0.0005);
            if b > a {
                best = *k;
            }
        }
        at = best;
        path.push(at);
    }
    let me = tree[0].g.player;
    let g = tree[at].g;
    let value = match g.check_winner() {
        Some(w) => {
            if w == me {
                1.0
            } else if w == -me {
                -1.0
            } else {
                0.0
            }
        }
        None => {
            let (p, v) = opinion(net, &g);
            ref_expand(tree, at, &priors_of(&g, &p));
            v
        }
    };
    for i in path.iter() {
        tree[*i].visits = tree[*i].visits + 1.0;
        tree[*i].value = tree[*i].value + value;
    }
}

pub fn ref_root(g: &Mock, priors: &Vec<f32>) -> Vec<RNode> {
    let mut tree: Vec<RNode> = vec![RNode { g: *g, parent: 0, act: 99, prior: 0.0, value: 0.0, visits: 1.0, kids: vec![] }];
    ref_expand(&mut tree, 0, priors);
    tree
}

/// the child of a node that was reached by a move
pub fn child_by(store: &NodeStore<Mock>, at: usize, act: u8) -> Option<usize> {
    let x = store.get_node(at);
    let mut found: Option<usize> = None;
    for c in x.children.iter() {
        if store.get_node(*c).action_taken == Some(act) {
            found = Some(*c);
        }
    }
    found
}

/// the subtree of the store below `at` is the reference's below `i`
pub fn check_agree(store: &NodeStore<Mock>, at: usize, tree: &Vec<RNode>, i: usize) {
    let x = store.get_node(at);
    let r = tree[i].clone();
    ensures!("the node holds the state its moves lead to", x.state == r.g);
    ensures!("visits are those of the search on this game alone", same(x.visits, r.visits));
    ensures!("recorded values are those of the search on this game alone", same(x.value, r.value));
    ensures!("children are the legal moves of an expanded node", x.children.len() == r.kids.len());
    if i > 0 {
        ensures!("priors are the network's policy normalised over the legal moves", same(x.policy, r.prior));
    }
    for k in r.kids.iter() {
        let c = child_by(store, at, tree[*k].act);
        ensures!("every move of an expanded node has its child", c.is_some());
        ensures!("children are linked to their parent", store.get_node(c.unwrap()).parent == Some(at));
        check_agree(store, c.unwrap(), tree, *k);
    }
}

pub fn check_batch(src: &mut Src, n: usize, degs: Vec<u8>, iterations: usize, noisy: bool) {
    let net = any_net();
    let c = src.f32("c", 0.0, 8.0);
    let mut games: Vec<Mock> = vec![];
    for i in 0..n {
        let mut g = any_small_mock(src, degs[i]);
        g.tag = i as u8;
        requires!(g.check_winner().is_none());
        games.push(g);
    }
    let cfg = mcts_config(iterations, c, 3, 0.3, if noisy { 0.25 } else { 0.0 });
    let mut store: NodeStore<Mock> = NodeStore::new();
    alpha_mcts_parallel(&mut store, &games, &net, &cfg, None);
    for i in 0..n {
        let root = store.get_node(i);
        ensures!("the roots are the games in their order", root.parent.is_none() && root.state == games[i] && root.idx == i);
        let g = games[i];
        let mut priors: Vec<f32> = vec![];
        if noisy {
            for m in g.get_valid_moves().iter() {
                let k = child_by(&store, i, *m);
                ensures!("every legal move of the root has its child", k.is_some());
                priors.push(store.get_node(k.unwrap()).policy);
            }
        } else {
            priors = priors_of(&g, &opinion(&net, &g).0);
        }
        let mut tree = ref_root(&g, &priors);
        for _ in 0..iterations {
            ref_step(&mut tree, &net, c);
        }
        ensures!("every game's root records exactly one result per iteration", same(root.visits, 1.0 + iterations as f32));
        check_agree(&store, i, &tree, 0);
    }
    cover!("a root with moves", games[0].deg[0] == degs[0]);
}

/// harness: prop=P20,P19 mode=paths game=Mock bounded=one_game_of_4_positions_with_up_to_2_moves_each,_2_iterations
pub fn p20_one_game(src: &mut Src) {
    check_batch(src, 1, vec![2], 2, false);
}

/// harness: prop=P20 mode=paths game=Mock order=any bounded=two_games_of_4_positions_with_up_to_1_move_each,_2_iterations
pub fn p20_two_games(src: &mut Src) {
    check_batch(src, 2, vec![1, 1], 2, false);
}

/// harness: prop=P20 mode=paths game=Mock order=any bounded=two_games_of_4_positions_with_up_to_2_moves_each,_1_iteration
pub fn p20_two_branching_games(src: &mut Src) {
    check_batch(src, 2, vec![2, 1], 1, false);
}

/// harness: prop=P20 mode=paths game=Mock tier=thorough order=any bounded=two_games_of_4_positions_with_up_to_2_moves_each,_1_iteration
pub fn p20_two_branching_games_both(src: &mut Src) {
    check_batch(src, 2, vec![2, 2], 1, false);
}

/// harness: prop=P20,P19 mode=paths game=Mock tier=thorough bounded=one_game_of_4_positions_with_up_to_2_moves_each,_4_iterations
pub fn p20_one_game_longer(src: &mut Src) {
    check_batch(src, 1, vec![2], 4, false);
}

/// harness: prop=P20 mode=paths game=Mock order=any bounded=three_games_of_4_positions_with_up_to_1_move_each,_1_iteration
pub fn p20_three_games(src: &mut Src) {
    check_batch(src, 3, vec![1, 1, 0], 1, false);
}

/// harness: prop=P20 mode=paths game=Mock bounded=one_game_of_4_positions_with_up_to_2_moves_each,_1_iteration
pub fn p20_with_noise(src: &mut Src) {
    check_batch(src, 1, vec![2], 1, true);
}

/// harness: prop=P20 mode=native game=Mock
pub fn p20_larger(src: &mut Src) {
    let n = 1 + src.pick("games", 5);
    let k = src.pick("iterations", 12);
    let noisy = src.pick("noise", 2) == 1;
    check_batch(src, n, vec![2, 2, 2, 2, 2], k, noisy);
}

/// harness: prop=P20,P19,P17 mode=paths game=Mock bounded=a_game_of_4_positions_with_up_to_2_moves_each,_2_iterations
pub fn p20_single_search(src: &mut Src) {
    let net = any_net();
    let c = src.f32("c", 0.0, 8.0);
    let g = any_small_mock(src, 2);
    let iterations = 2;
    let cfg = mcts_config(iterations, c, 3, 0.3, 0.0);
    let r = alpha_mcts(&g, &net, &cfg);
    if g.check_winner().is_some() {
        ensures!("a finished game has no move distribution", r.is_none());
    } else {
        let legal = g.get_valid_moves();
        if legal.is_empty() {
            ensures!("a position without legal moves has no move distribution", r.is_none());
        } else {
            let mut tree = ref_root(&g, &priors_of(&g, &opinion(&net, &g).0));
            if legal.len() < 2 {
                // a root whose only move needs no exploration starts without its own visit
                tree[0].visits = 0.0;
            }
            for _ in 0..iterations {
                ref_step(&mut tree, &net, c);
            }
            ensures!("a position with legal moves has a move distribution", r.is_some());
            let t = r.unwrap();
            ensures!("there is one entry per move number", t.size() == vec![8]);
            let mut total = 0.0f32;
            for k in tree[0].kids.iter() {
                total = total + tree[*k].visits;
            }
            for i in 0..8usize {
                let x = t.double_value(&[i as i64]) as f32;
                if is_legal_number(&g, i) {
                    for k in tree[0].kids.iter() {
                        if g.encode(&tree[*k].act) as usize == i {
                            ensures!("a move gets its share of the visits", same(x, tree[*k].visits / total));
                        }
                    }
                } else {
                    ensures!("a number without a legal move gets zero", x == 0.0);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- P18

/// harness: prop=P18,P20 mode=paths game=Mock bounded=positions_with_up_to_2_moves
pub fn p18_root_of_a_search(src: &mut Src) {
    let net = any_net();
    let g = any_small_mock(src, 2);
    let eps = src.f32("epsilon", 0.0, 1.0);
    let others = src.pick("others", 2);
    let mut store = any_store(src, others);
    let at = store.add_node(g, None, None, 0.0);
    let cfg = mcts_config(1, 1.5, 3, 0.3, eps);
    apply_dirichlet_to_root(at, &mut store, &net, &g, &cfg);
    let legal = g.get_valid_moves();
    let plain = priors_of(&g, &opinion(&net, &g).0);
    let root = store.get_node(at);
    ensures!("the root is expanded by its legal moves", root.children.len() == legal.len());
    ensures!("the root keeps its state", root.state == g && root.value == 0.0 && root.parent.is_none());
    let mut sum = 0.0f32;
    for k in 0..legal.len() {
        let c = child_by(&store, at, legal[k]);
        ensures!("every legal move has its child", c.is_some());
        let x = store.get_node(c.unwrap());
        ensures!("children are fresh", x.visits == 0.0 && x.value == 0.0 && x.children.is_empty() && x.parent == Some(at));
        if legal.len() == 1 {
            ensures!("an only move keeps its prior", same(x.policy, plain[k]));
        } else {
            ensures!("a prior is at least its share of the network's", at_least(x.policy, (1.0 - eps) * plain[k]));
            ensures!("a prior gets at most the noise's whole share", at_least((1.0 - eps) * plain[k] + eps, x.policy));
        }
        sum = sum + x.policy;
    }
    if !legal.is_empty() {
        ensures!("the priors still add up to one", same(sum, 1.0));
    }
    cover!("two moves", legal.len() == 2);
}

/// harness: prop=P18,P20 mode=paths game=Mock bounded=batches_of_up_to_2_positions_with_up_to_2_moves
pub fn p18_roots_of_a_batch(src: &mut Src) {
    let net = any_net();
    let n = 1 + src.pick("games", 2);
    let mut games: Vec<Mock> = vec![];
    for i in 0..n {
        let mut g = any_small_mock(src, 2);
        g.tag = i as u8;
        games.push(g);
    }
    let eps = [0.0, 0.25, 0.75][src.pick("epsilon", 3)];
    let cfg = mcts_config(0, 1.5, 3, 0.3, eps);
    let mut store: NodeStore<Mock> = NodeStore::new();
    alpha_mcts_parallel(&mut store, &games, &net, &cfg, None);
    for i in 0..n {
        let g = games[i];
        let policy = opinion(&net, &g).0;
        let mass = legal_mass(&g, &policy);
        let root = store.get_node(i);
        let legal = g.get_valid_moves();
        ensures!("the root is expanded by its legal moves", root.children.len() == legal.len() && root.visits == 1.0);
        let mut sum = 0.0f32;
        for m in legal.iter() {
            let c = child_by(&store, i, *m);
            ensures!("every legal move has its child", c.is_some());
            let x = store.get_node(c.unwrap());
            let p = policy[g.encode(m) as usize];
            // ((1-eps)p + eps n) / ((1-eps)mass + eps s) with n >= 0 and s <= 1
            ensures!("a prior is at least its share of the network's policy", at_least(x.policy * ((1.0 - eps) * mass + eps), (1.0 - eps) * p));
            ensures!("no prior is negative", x.policy >= 0.0);
            sum = sum + x.policy;
        }
        if !legal.is_empty() {
            ensures!("the priors add up to one", same(sum, 1.0));
        }
    }
    cover!("two moves", games[0].deg[0] == 2);
}
