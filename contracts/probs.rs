//! Contracts of priors, search results and exploration noise (P16, P17, P18).
use crate::mcts::*;
use crate::mock::*;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::*;
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::utils::*;
use tch::Tensor;

/// any position of any table game
pub fn any_position(src: &mut Src) -> Mock {
    let mut g = any_mock(src);
    g.pos = src.u8("pos", 0, 2);
    g
}

pub fn any_policy(src: &mut Src) -> Vec<f32> {
    let mut v: Vec<f32> = vec![];
    for _ in 0..8 {
        v.push(src.f32("policy", 0.0, 1.0));
    }
    v
}

pub fn is_legal_number<G: LearnableGame>(g: &G, i: usize) -> bool {
    g.get_valid_moves().iter().any(|m| g.encode(m) as usize == i)
}

/// the policy's weight on the legal moves
pub fn legal_mass<G: LearnableGame>(g: &G, policy: &Vec<f32>) -> f32 {
    let mut s = 0.0f32;
    for m in g.get_valid_moves().iter() {
        s = s + policy[g.encode(m) as usize];
    }
    s
}

// ---------------------------------------------------------------- P16

/// harness: prop=P16 mode=paths game=Mock bounded=positions_with_up_to_2_moves,_8_move_numbers
pub fn p16_single_list(src: &mut Src) {
    let g = any_position(src);
    let policy = any_policy(src);
    let mass = legal_mass(&g, &policy);
    requires!(mass > 0.001);
    let node: Node<Mock> = Node::new(g, 0, None, None, 0.0);
    let v = turn_policy_to_probs(&Tensor::from_slice(&policy), &node);
    ensures!("there is a probability for every move number", v.len() >= 8);
    let mut sum = 0.0f32;
    for i in 0..8usize {
        if is_legal_number(&g, i) {
            ensures!("a legal move gets its share of the policy on the legal moves", same(v[i], policy[i] / mass));
            sum = sum + v[i];
        } else {
            ensures!("a number without a legal move gets zero", v[i] == 0.0);
        }
    }
    ensures!("no probability outside the move numbers", v.iter().skip(8).all(|x| *x == 0.0));
    ensures!("the probabilities add up to one", same(sum, 1.0));
    cover!("two moves", g.get_valid_moves().len() == 2);
}

/// harness: prop=P16 mode=paths game=Mock bounded=positions_with_up_to_2_moves,_8_move_numbers
pub fn p16_single_tensor(src: &mut Src) {
    let g = any_position(src);
    let policy = any_policy(src);
    let mass = legal_mass(&g, &policy);
    requires!(mass > 0.001);
    let node: Node<Mock> = Node::new(g, 0, None, None, 0.0);
    let given = Tensor::from_slice(&policy);
    let v = turn_policy_to_probs_tensor(&given, &node);
    ensures!("the result has the policy's shape", v.size() == vec![8]);
    let mut sum = 0.0f32;
    for i in 0..8usize {
        let x = v.double_value(&[i as i64]) as f32;
        if is_legal_number(&g, i) {
            ensures!("a legal move gets its share of the policy on the legal moves", same(x, policy[i] / mass));
            sum = sum + x;
        } else {
            ensures!("a number without a legal move gets zero", x == 0.0);
        }
        ensures!("the given policy is left alone", given.double_value(&[i as i64]) as f32 == policy[i]);
    }
    ensures!("the probabilities add up to one", same(sum, 1.0));
    cover!("two moves", g.get_valid_moves().len() == 2);
}

/// harness: prop=P16 mode=paths game=Mock bounded=batches_of_up_to_3_positions_with_up_to_2_moves
pub fn p16_batch(src: &mut Src) {
    let n = 1 + src.pick("games", 3);
    let mut store: NodeStore<Mock> = NodeStore::new();
    let mut games: Vec<Mock> = vec![];
    let mut policies: Vec<Vec<f32>> = vec![];
    let mut flat: Vec<f32> = vec![];
    for i in 0..n {
        let mut g = <Mock as LearnableGame>::new();
        g.pos = src.u8("pos", 0, 2);
        g.deg[g.pos as usize] = src.u8("deg", 0, 2);
        g.tag = i as u8;
        let p = any_policy(src);
        requires!(g.get_valid_moves().is_empty() || legal_mass(&g, &p) > 0.001);
        for x in p.iter() {
            flat.push(*x);
        }
        store.add_node(g, None, None, 0.0);
        games.push(g);
        policies.push(p);
    }
    let all: Vec<usize> = (0..n).collect();
    let v = turn_policy_to_probs_tensor_parallel(&store, &all, &Tensor::from_slice(&flat).view([n as i64, 8]));
    ensures!("one row per position", v.size() == vec![n as i64, 8]);
    for r in 0..n {
        let g = games[r];
        if !g.get_valid_moves().is_empty() {
            let mass = legal_mass(&g, &policies[r]);
            let mut sum = 0.0f32;
            for i in 0..8usize {
                let x = v.double_value(&[r as i64, i as i64]) as f32;
                if is_legal_number(&g, i) {
                    ensures!("a legal move gets its share of its own row's policy", same(x, policies[r][i] / mass));
                    sum = sum + x;
                } else {
                    ensures!("a number without a legal move gets zero", x == 0.0);
                }
            }
            ensures!("every row adds up to one", same(sum, 1.0));
        }
    }
    cover!("a row without moves beside a row with moves", n > 1 && games[0].get_valid_moves().is_empty() && games[1].get_valid_moves().len() == 2);
}

// ---------------------------------------------------------------- P17

/// harness: prop=P17 mode=paths game=Mock bounded=roots_with_up_to_2_moves,_any_subset_of_them_expanded,_any_visit_counts
pub fn p17_single(src: &mut Src) {
    let others = src.pick("others", 2);
    let mut store = any_store(src, others);
    let g = any_position(src);
    let root = store.add_node(g, None, None, 0.0);
    let legal = g.get_valid_moves();
    let k = src.pick("expanded", 3);
    requires!(k <= legal.len());
    let mut total = 0.0f32;
    let mut want: Vec<f32> = vec![0.0; 8];
    for _ in 0..k {
        let mut x = store.get_node(root);
        let c = x.expand(&mut store);
        let v = src.f32("visits", 0.0, 50.0);
        store.get_node_as_mut(c).visits = v;
        let m = store.get_node(c).action_taken.unwrap();
        want[g.encode(&m) as usize] = v;
        total = total + v;
    }
    requires!(k == 0 || total >= 1.0);
    let r = get_prob_tensor(&g, root, &store);
    if k == 0 {
        ensures!("a root without children has no distribution", r.is_none());
    } else {
        ensures!("a root with children has a distribution", r.is_some());
        let t = r.unwrap();
        ensures!("one entry per move number", t.size() == vec![8]);
        let mut sum = 0.0f32;
        for i in 0..8usize {
            let x = t.double_value(&[i as i64]) as f32;
            ensures!("every number gets its child's share of the visits", same(x, want[i] / total));
            sum = sum + x;
        }
        ensures!("the shares add up to one", same(sum, 1.0));
    }
    cover!("two children", k == 2);
}

/// harness: prop=P17 mode=paths game=Mock bounded=batches_of_up_to_3_roots_with_up_to_2_moves,_any_visit_counts
pub fn p17_batch(src: &mut Src) {
    let n = 1 + src.pick("games", 3);
    let mut store: NodeStore<Mock> = NodeStore::new();
    let mut want: Vec<Vec<f32>> = vec![];
    let mut totals: Vec<f32> = vec![];
    for i in 0..n {
        let mut g = <Mock as LearnableGame>::new();
        g.pos = src.u8("pos", 0, 2);
        g.deg[g.pos as usize] = src.u8("deg", 0, 2);
        g.tag = i as u8;
        store.add_node(g, None, None, 0.0);
    }
    for i in 0..n {
        let g = store.get_node(i).state;
        let mut total = 0.0f32;
        let mut w: Vec<f32> = vec![0.0; 8];
        for _ in 0..g.get_valid_moves().len() {
            let mut x = store.get_node(i);
            let c = x.expand(&mut store);
            let v = src.f32("visits", 0.0, 50.0);
            store.get_node_as_mut(c).visits = v;
            let m = store.get_node(c).action_taken.unwrap();
            w[g.encode(&m) as usize] = v;
            total = total + v;
        }
        requires!(g.get_valid_moves().is_empty() || total >= 1.0);
        totals.push(total);
        want.push(w);
    }
    let mut roots: Vec<&Node<Mock>> = vec![];
    for i in 0..n {
        roots.push(store.get_node_ref(i));
    }
    let found = store.get_root_nodes();
    ensures!("the root nodes are the games' nodes in order", found.len() == n && (0..n).all(|i| found[i].idx == i && found[i].state == roots[i].state));
    let t = get_prob_tensor_parallel(&roots, &store);
    ensures!("one row per root", t.size() == vec![n as i64, 8]);
    for r in 0..n {
        if !roots[r].children.is_empty() {
            let mut sum = 0.0f32;
            for i in 0..8usize {
                let x = t.double_value(&[r as i64, i as i64]) as f32;
                ensures!("every number gets its own row's child's share of the visits", same(x, want[r][i] / totals[r]));
                sum = sum + x;
            }
            ensures!("every row adds up to one", same(sum, 1.0));
        }
    }
    cover!("two rows with two children each", n > 1 && roots[0].children.len() == 2 && roots[1].children.len() == 2);
}

// ---------------------------------------------------------------- P18

/// harness: prop=P18 mode=paths game=Mock bounded=a_root_with_2_to_4_children
pub fn p18_root_noise(src: &mut Src) {
    let k = 2 + src.pick("children", 3);
    let mut store = any_star(src, k);
    for i in 0..k + 1 {
        let q = src.f32("prior", 0.0, 1.0);
        store.get_node_as_mut(i).policy = q;
    }
    let alpha = src.f32("alpha", 0.0001, 2.0);
    let eps = src.f32("eps", 0.05, 1.0);
    let mut before: Vec<Node<Mock>> = vec![];
    for i in 0..k + 1 {
        before.push(store.get_node(i));
    }
    let root = store.get_node(0);
    root.apply_dirichlet(alpha, eps, &mut store);
    let mut noise = 0.0f32;
    let mut sum = 0.0f32;
    let mut old = 0.0f32;
    for i in 1..k + 1 {
        let q = store.get_node(i).policy;
        let n = (q - (1.0 - eps) * before[i].policy) / eps;
        ensures!("the noise share of a prior is not negative", at_least(n, 0.0));
        noise = noise + n;
        sum = sum + q;
        old = old + before[i].policy;
    }
    ensures!("a prior becomes eps times noise plus 1-eps times itself, the noise adding up to one", at_least(1.0, eps) && same(noise * eps, eps));
    ensures!("the priors' sum moves towards one only as far as eps says", same(sum, eps + (1.0 - eps) * old));
    for i in 0..k + 1 {
        let mut a = store.get_node(i);
        if i > 0 {
            a.policy = before[i].policy;
        }
        ensures!("noise changes nothing but the children's priors", same_node(&a, &before[i]));
    }
}
