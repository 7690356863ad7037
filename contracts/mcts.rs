//! Contracts of the search tree and plain tree search (P12 - P15, P19).
use crate::mock::*;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::base::LearnableGame;
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::*;

// ---------------------------------------------------------------- P14

fn ancestor_or_self(parents: &Vec<usize>, of: usize, i: usize) -> bool {
    let mut k = of;
    for _ in 0..parents.len() {
        if k == i {
            return true;
        }
        if k == 0 {
            return false;
        }
        k = parents[k];
    }
    false
}

fn parents_of(store: &NodeStore<Mock>, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for i in 0..n {
        v.push(match store.get_node(i).parent {
            Some(p) => p,
            None => 0,
        });
    }
    v
}

pub fn check_backpropagate(src: &mut Src, n: usize) {
    let mut store = any_store(src, n);
    let at = src.pick("node", n);
    let result = src.f32("result", -1.0, 1.0);
    let mut before: Vec<Node<Mock>> = vec![];
    for i in 0..n {
        before.push(store.get_node(i));
    }
    let parents = parents_of(&store, n);
    backpropagate(at, result, &mut store);
    for i in 0..n {
        let b = before[i].clone();
        let a = store.get_node(i);
        if ancestor_or_self(&parents, at, i) {
            ensures!("one visit is recorded at the node and each of its ancestors", a.visits == b.visits + 1.0);
            ensures!("exactly the result is recorded at the node and each of its ancestors", same(a.value, b.value + result));
        } else {
            ensures!("other nodes keep their visits", a.visits == b.visits);
            ensures!("other nodes keep their value", a.value == b.value);
        }
        ensures!("recording a result keeps the shape of the tree", a.parent == b.parent && a.children == b.children && a.idx == b.idx);
        ensures!("recording a result keeps priors, moves and states", a.policy == b.policy && a.action_taken == b.action_taken && a.expandable_moves == b.expandable_moves && a.state == b.state);
    }
}

/// harness: prop=P14 mode=paths game=Mock bounded=trees_of_any_shape_with_up_to_4_nodes
pub fn p14_backpropagate(src: &mut Src) {
    let n = 1 + src.pick("nodes", 4);
    check_backpropagate(src, n);
}

/// harness: prop=P14 mode=paths game=Mock tier=thorough bounded=trees_of_any_shape_with_6_nodes
pub fn p14_backpropagate_larger(src: &mut Src) {
    check_backpropagate(src, 6);
}

/// a path of `len` nodes; every third node of it has one more child
fn long_path(src: &mut Src, len: usize) -> NodeStore<Mock> {
    let mut store: NodeStore<Mock> = NodeStore::new();
    let g = <Mock as LearnableGame>::new();
    let mut last = store.add_node(g, None, None, 0.0);
    for k in 1..len {
        let i = store.add_node(g, Some(last), Some((k % 90) as u8), 0.0);
        store.get_node_as_mut(last).children.push(i);
        if k % 3 == 0 {
            let side = store.add_node(g, Some(last), Some(100), 0.0);
            store.get_node_as_mut(last).children.push(side);
        }
        let v = src.f32("value", -10.0, 10.0);
        let w = src.f32("visits", 1.0, 20.0);
        let m = store.get_node_as_mut(i);
        m.value = v;
        m.visits = w;
        last = i;
    }
    store
}

fn check_long_path(src: &mut Src, len: usize) {
    let mut store = long_path(src, len);
    let n = len + (len - 1) / 3;
    // two leaves: the end of the path and the end of its last side branch
    let mut ends: Vec<usize> = vec![];
    for i in 0..n {
        if store.get_node_ref(i).children.is_empty() {
            ends.push(i);
        }
    }
    for e in [ends[ends.len() - 1], ends[ends.len() - 2], ends[0]] {
        let result = src.f32("result", -1.0, 1.0);
        let mut before: Vec<Node<Mock>> = vec![];
        for i in 0..n {
            before.push(store.get_node(i));
        }
        let mut on_path: Vec<bool> = vec![false; n];
        let mut k = e;
        on_path[k] = true;
        while let Some(p) = before[k].parent {
            on_path[p] = true;
            k = p;
        }
        backpropagate(e, result, &mut store);
        for i in 0..n {
            let b = before[i].clone();
            let a = store.get_node(i);
            if on_path[i] {
                ensures!("one visit is recorded at the node and each of its ancestors", a.visits == b.visits + 1.0);
                ensures!("exactly the result is recorded at the node and each of its ancestors", same(a.value, b.value + result));
            } else {
                ensures!("other nodes keep their statistics", a.visits == b.visits && a.value == b.value);
            }
            ensures!("recording a result keeps the shape of the tree", a.parent == b.parent && a.children == b.children && a.idx == b.idx);
        }
    }
}

/// harness: prop=P14 mode=paths game=Mock bounded=paths_of_120_nodes_with_side_branches
pub fn p14_long_path(src: &mut Src) {
    check_long_path(src, 120);
}

/// harness: prop=P14 mode=paths game=Mock bounded=paths_of_1000_nodes_with_side_branches
pub fn p14_longer_path(src: &mut Src) {
    check_long_path(src, 1000);
}

// ---------------------------------------------------------------- P13

pub fn same_node(a: &Node<Mock>, b: &Node<Mock>) -> bool {
    a.idx == b.idx && a.parent == b.parent && a.children == b.children && a.visits == b.visits && a.value == b.value && a.policy == b.policy
        && a.action_taken == b.action_taken && a.expandable_moves == b.expandable_moves && a.state == b.state
}

/// harness: prop=P13,P16 mode=paths game=Mock bounded=stores_with_up_to_2_other_nodes_and_positions_with_up_to_2_moves
pub fn p13_new_node(src: &mut Src) {
    let n = src.pick("others", 3);
    let mut store = any_store(src, n);
    let g = any_mock(src);
    let pol = src.f32("prior", 0.0, 1.0);
    let parent = if n == 0 { None } else { Some(n - 1) };
    let act = if n == 0 { None } else { Some(3u8) };
    ensures!("an empty store says so", store.is_empty() == (n == 0));
    let i = store.add_node(g, parent, act, pol);
    let x = store.get_node(i);
    ensures!("a new node gets the next index", i == n && x.idx == n);
    ensures!("a new node holds what it was given", x.parent == parent && x.action_taken == act && x.policy == pol && x.state == g);
    ensures!("a new node has no children and no statistics", x.children.is_empty() && x.visits == 0.0 && x.value == 0.0);
    ensures!("a new node can expand every legal move", x.expandable_moves == g.get_valid_moves());
    ensures!("terminal exactly when the game is finished", x.is_terminal() == g.check_winner().is_some());
    ensures!("fully expanded exactly when no move is left", x.is_fully_expanded() == g.get_valid_moves().is_empty());
}

/// harness: prop=P13 mode=paths game=Mock bounded=stores_with_up_to_2_other_nodes_and_positions_with_up_to_2_moves
pub fn p13_expand(src: &mut Src) {
    let n = src.pick("others", 3);
    let mut store = any_store(src, n);
    let g = any_mock(src);
    let parent = if n == 0 { None } else { Some(src.pick("above", n)) };
    let me = store.add_node(g, parent, None, 0.5);
    let legal = g.get_valid_moves();
    let mut done: Vec<u8> = vec![];
    for round in 0..legal.len() {
        let len = n + 1 + round;
        let mut before: Vec<Node<Mock>> = vec![];
        for i in 0..len {
            before.push(store.get_node(i));
        }
        let mut x = store.get_node(me);
        ensures!("a node with unexpanded moves is not fully expanded", !x.is_fully_expanded());
        let c = x.expand(&mut store);
        ensures!("the new child is a new node", c == len);
        let child = store.get_node(c);
        let after = store.get_node(me);
        let mv = child.action_taken.unwrap();
        ensures!("the move was legal and not expanded before", legal.contains(&mv) && !done.contains(&mv) && before[me].expandable_moves.contains(&mv));
        done.push(mv);
        let mut want = g;
        want.apply_move(&mv);
        ensures!("the child holds the state the move leads to", child.state == want);
        ensures!("parent and child are linked in both directions", child.parent == Some(me) && after.children.last() == Some(&c) && child.idx == c);
        ensures!("the earlier children stay", after.children.len() == round + 1 && before[me].children.iter().all(|k| after.children.contains(k)));
        ensures!("the move is no longer expandable, the others are", !after.expandable_moves.contains(&mv) && after.expandable_moves.len() + done.len() == legal.len());
        ensures!("the new child has no statistics", child.visits == 0.0 && child.value == 0.0 && child.children.is_empty() && child.expandable_moves == want.get_valid_moves());
        ensures!("expanding keeps the node's own record", after.visits == before[me].visits && after.value == before[me].value && after.policy == before[me].policy && after.parent == parent && after.state == g && after.idx == me);
        for i in 0..len {
            if i != me {
                ensures!("no other node changes", same_node(&store.get_node(i), &before[i]));
            }
        }
        ensures!("the working copy agrees with the store", same_node(&x, &after));
    }
    ensures!("in the end every legal move was expanded exactly once", done.len() == legal.len() && store.get_node(me).is_fully_expanded());
    cover!("two moves", legal.len() == 2);
}

pub fn check_alpha_expand(src: &mut Src, tensor: bool) {
    let n = src.pick("others", 3);
    let mut store = any_store(src, n);
    let mut g = any_mock(src);
    g.pos = src.u8("pos", 0, 2);
    let parent = if n == 0 { None } else { Some(src.pick("above", n)) };
    let me = store.add_node(g, parent, None, 0.5);
    let legal = g.get_valid_moves();
    let mut policy: Vec<f32> = vec![];
    for _ in 0..8 {
        policy.push(src.f32("policy", 0.0, 1.0));
    }
    let mut before: Vec<Node<Mock>> = vec![];
    for i in 0..n + 1 {
        before.push(store.get_node(i));
    }
    let mut x = store.get_node(me);
    if tensor {
        x.alpha_expand_tensor(&mut store, &tch::Tensor::from_slice(&policy));
    } else {
        x.alpha_expand(&mut store, policy.clone());
    }
    let after = store.get_node(me);
    ensures!("policy-guided expansion adds one child per legal move", after.children.len() == legal.len());
    ensures!("nothing is left to expand", after.expandable_moves.is_empty());
    for k in 0..legal.len() {
        let mv = legal[k];
        let mut found = 0;
        for c in after.children.iter() {
            let child = store.get_node(*c);
            if child.action_taken == Some(mv) {
                found += 1;
                ensures!("a child gets the policy value at its move's number", child.policy == policy[g.encode(&mv) as usize]);
                let mut want = g;
                want.apply_move(&mv);
                ensures!("a child holds the state its move leads to", child.state == want);
                ensures!("a child is linked to its parent and fresh", child.parent == Some(me) && child.idx == *c && *c >= n + 1 && child.visits == 0.0 && child.value == 0.0 && child.children.is_empty() && child.expandable_moves == want.get_valid_moves());
            }
        }
        ensures!("exactly one child per legal move", found == 1);
    }
    ensures!("expanding keeps the node's own record", after.visits == before[me].visits && after.value == before[me].value && after.policy == before[me].policy && after.parent == parent && after.state == g && after.idx == me);
    for i in 0..n {
        ensures!("no other node changes", same_node(&store.get_node(i), &before[i]));
    }
    ensures!("the working copy agrees with the store", same_node(&x, &after));
    cover!("two moves", legal.len() == 2);
}

/// harness: prop=P13 mode=paths game=Mock bounded=stores_with_up_to_2_other_nodes_and_positions_with_up_to_2_moves
pub fn p13_alpha_expand(src: &mut Src) {
    check_alpha_expand(src, false);
}

/// harness: prop=P13 mode=paths game=Mock bounded=stores_with_up_to_2_other_nodes_and_positions_with_up_to_2_moves
pub fn p13_alpha_expand_tensor(src: &mut Src) {
    check_alpha_expand(src, true);
}

// ---------------------------------------------------------------- P12

/// harness: prop=P12 mode=paths game=Mock bounded=games_with_3_positions_and_up_to_2_moves_each,_up_to_3_iterations havoc=Node::ucb:f32 havoc=Node::simulate:f32
pub fn p12_tree_search(src: &mut Src) {
    let g = any_mock(src);
    let iterations = 1 + src.pick("iterations", 3);
    let player = if src.pick("for", 2) == 0 { g.player } else { -g.player };
    let cfg = mcts_config(iterations, 1.4, 3, 0.3, 0.25);
    let m = mct_search(g, player, &cfg);
    let legal = g.get_valid_moves();
    if g.check_winner().is_some() || legal.is_empty() {
        ensures!("a finished game or one without a legal move is answered with the empty move", m == 9);
    } else {
        ensures!("the answer is a legal move", legal.contains(&m));
    }
    cover!("a position without a legal move", legal.is_empty() && g.check_winner().is_none());
}

/// harness: prop=P12 mode=paths game=Mock bounded=games_with_3_positions_and_up_to_2_moves_each,_up_to_2_iterations,_playouts_of_up_to_2_steps
pub fn p12_tree_search_with_playouts(src: &mut Src) {
    let g = any_mock(src);
    let iterations = 1 + src.pick("iterations", 2);
    let cfg = mcts_config(iterations, 1.4, src.pick("limit", 3), 0.3, 0.25);
    let m = mct_search(g, g.player, &cfg);
    let legal = g.get_valid_moves();
    if g.check_winner().is_some() || legal.is_empty() {
        ensures!("a finished game or one without a legal move is answered with the empty move", m == 9);
    } else {
        ensures!("the answer is a legal move", legal.contains(&m));
    }
}

// ---------------------------------------------------------------- P15

/// the values a playout may return: outcomes of every sequence of legal moves and forced passes
fn playouts(g: Mock, player: i8, left: usize, out: &mut Vec<f32>) {
    match g.check_winner() {
        Some(w) => {
            out.push(if w == player { 1.0 } else if w == -player { -1.0 } else { 0.0 });
            // a result reached by the very last step may count or not
            if left == 0 {
                out.push(0.0);
            }
        }
        None => {
            if left == 0 {
                out.push(0.0);
            } else {
                let moves = g.get_valid_moves();
                for m in moves.iter() {
                    let mut h = g;
                    h.apply_move(m);
                    playouts(h, player, left - 1, out);
                }
                if moves.is_empty() {
                    let mut h = g;
                    h.skip_turn();
                    playouts(h, player, left - 1, out);
                }
            }
        }
    }
}

pub fn check_simulate(src: &mut Src, limit: usize) {
    let g = any_mock(src);
    let player = if src.pick("for", 2) == 0 { g.player } else { -g.player };
    let node: Node<Mock> = Node::new(g, 0, None, None, 0.0);
    let r = node.simulate(player, limit);
    let mut want: Vec<f32> = vec![];
    playouts(g, player, limit, &mut want);
    ensures!("a playout returns the outcome of a game played out from the node", want.contains(&r));
    cover!("possible: a won playout", r == 1.0 && g.check_winner().is_none());
    cover!("possible: a lost playout", r == -1.0 && g.check_winner().is_none());
}

/// harness: prop=P15 mode=paths game=Mock bounded=games_with_3_positions_and_up_to_2_moves_each,_playouts_of_up_to_3_steps
pub fn p15_playout(src: &mut Src) {
    let limit = 1 + src.pick("limit", 3);
    check_simulate(src, limit);
}

/// harness: prop=P15 mode=paths game=Mock bounded=finished_positions
pub fn p15_finished(src: &mut Src) {
    let g = any_mock(src);
    requires!(g.check_winner().is_some());
    let w = g.check_winner().unwrap();
    let node: Node<Mock> = Node::new(g, 0, None, None, 0.0);
    let limit = 1 + src.pick("limit", 5);
    ensures!("a finished node is worth its result", node.simulate(1, limit) == w as f32);
    ensures!("the value is seen from the given player's side", node.simulate(-1, limit) == -(w as f32));
}

// ---------------------------------------------------------------- P19

fn spec_ucb(n: &Node<Mock>, parent_visits: f32, c: f32) -> f32 {
    n.value / n.visits + (c * parent_visits.ln() / n.visits).sqrt()
}
fn spec_puct(n: &Node<Mock>, parent_visits: f32, c: f32) -> f32 {
    let q = if n.visits == 0.0 { 0.0 } else { n.value / n.visits };
    q + c * n.policy * parent_visits.sqrt() / (1.0 + n.visits)
}

/// harness: prop=P19 mode=paths game=Mock bounded=a_node_with_up_to_3_children
pub fn p19_ucb_formula(src: &mut Src) {
    let store = any_store(src, 3);
    let i = src.pick("node", 3);
    let c = src.f32("c", 0.0, 8.0);
    let x = store.get_node(i);
    if i > 0 {
        let pv = store.get_node(x.parent.unwrap()).visits;
        ensures!("the UCB value is mean value plus exploration term", same(x.ucb(&store, c), spec_ucb(&x, pv, c)));
        ensures!("the PUCT value is mean value plus prior-weighted exploration term", same(x.alpha_ucb(&store, c), spec_puct(&x, pv, c)));
        let mut y = x.clone();
        y.visits = 0.0;
        y.value = 0.0;
        ensures!("the PUCT value of an unvisited node is its exploration term", same(y.alpha_ucb(&store, c), c * y.policy * pv.sqrt()));
    }
    ensures!("the win percentage is the mean value", same(x.win_pct(), x.value / x.visits));
}

/// harness: prop=P19 mode=paths game=Mock bounded=a_node_with_up_to_3_children
pub fn p19_select_ucb(src: &mut Src) {
    let k = 1 + src.pick("children", 3);
    let store = any_star(src, k);
    let c = src.f32("c", 0.0, 8.0);
    let best = select_ucb(0, &store, c);
    ensures!("the selected node is a child", store.get_node(0).children.contains(&best.idx) && best.idx >= 1);
    let b = store.get_node(best.idx).ucb(&store, c);
    for i in 1..k + 1 {
        let v = store.get_node(i).ucb(&store, c);
        ensures!("no child has a larger UCB value", at_least(b, v));
    }
}

/// a root with k children with any statistics
pub fn any_star(src: &mut Src, k: usize) -> NodeStore<Mock> {
    let mut store: NodeStore<Mock> = NodeStore::new();
    let g = <Mock as LearnableGame>::new();
    store.add_node(g, None, None, 0.0);
    let w = src.f32("visits", 1.0, 60.0);
    store.get_node_as_mut(0).visits = w;
    for i in 1..k + 1 {
        store.add_node(g, Some(0), Some(i as u8 + 20), 0.0);
        store.get_node_as_mut(0).children.push(i);
        let v = src.f32("value", -10.0, 10.0);
        let w = src.f32("visits", 1.0, 20.0);
        let m = store.get_node_as_mut(i);
        m.value = v;
        m.visits = w;
    }
    store
}

/// harness: prop=P19 mode=paths game=Mock bounded=a_root_with_up_to_4_children
pub fn p19_answer_has_most_visits(src: &mut Src) {
    let k = src.pick("children", 5);
    let store = any_star(src, k);
    let m = select_most_visits(0, &store);
    let w = select_win_pct(0, &store);
    if k == 0 {
        ensures!("without children the answer is the empty move", m == 9 && w == 9);
    } else {
        ensures!("the answer is a child's move", m >= 21 && m <= 20 + k as u8);
        ensures!("the best mean is a child's move", w >= 21 && w <= 20 + k as u8);
        let b = store.get_node(m as usize - 20);
        let a = store.get_node(w as usize - 20);
        for i in 1..k + 1 {
            let x = store.get_node(i);
            ensures!("no child has more visits than the answer", b.visits >= x.visits);
            ensures!("no child has a better mean than the best mean", at_least(a.value / a.visits, x.value / x.visits));
        }
    }
}

/// harness: prop=P19,P12 mode=paths game=Mock bounded=trees_with_up_to_4_nodes
pub fn p19_descent(src: &mut Src) {
    let n = 1 + src.pick("nodes", 4);
    let mut store = any_store(src, n);
    for i in 0..n {
        if src.pick("unexpanded", 2) == 1 {
            store.get_node_as_mut(i).expandable_moves = vec![1];
        }
    }
    let c = src.f32("c", 0.0, 8.0);
    let leaf = select_leaf_node(0, &store, c);
    ensures!("descent ends at a node of the tree", leaf < n);
    let x = store.get_node(leaf);
    ensures!("descent ends where expansion is needed or no child exists", x.children.is_empty() || !x.expandable_moves.is_empty());
    let parents = parents_of(&store, n);
    for i in 0..n {
        if i != leaf && ancestor_or_self(&parents, leaf, i) {
            let y = store.get_node(i);
            ensures!("descent passes only fully expanded nodes", y.expandable_moves.is_empty() && !y.children.is_empty());
            // the child it went on to
            for k in y.children.iter() {
                if ancestor_or_self(&parents, leaf, *k) {
                    let b = spec_ucb(&store.get_node(*k), y.visits, c);
                    for o in y.children.iter() {
                        ensures!("descent goes to a child with maximal UCB value", at_least(b, spec_ucb(&store.get_node(*o), y.visits, c)));
                    }
                }
            }
        }
    }
}
