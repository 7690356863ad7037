//! Contract of turning move trees into play sequences (P28).
use crate::src::Src;
use crate::{cover, ensures};
use die_e::backgammon::backgammon_logic::*;

/// a tree of any shape up to the given depth and width, with arbitrary moves
pub fn any_tree(src: &mut Src, depth: usize, width: usize) -> ActionNode {
    let value = (src.i8("from", -1, 23), src.i8("to", -1, 23));
    let n = if depth == 0 { 0 } else { src.pick("children", width + 1) };
    let mut children: Vec<ActionNode> = vec![];
    for _ in 0..n {
        children.push(any_tree(src, depth - 1, width));
    }
    ActionNode { value, children }
}

/// the root-to-leaf paths, depth first, each behind the given prefix
pub fn paths(n: &ActionNode, prefix: &Actions, out: &mut Vec<Actions>) {
    let mut here: Actions = prefix.clone();
    here.push(n.value);
    if n.children.is_empty() {
        out.push(here);
    } else {
        for c in n.children.iter() {
            paths(c, &here, out);
        }
    }
}

pub fn check_node(src: &mut Src, depth: usize, width: usize) {
    let t = any_tree(src, depth, width);
    let mut want: Vec<Actions> = vec![];
    paths(&t, &vec![], &mut want);
    ensures!("a tree yields its root-to-leaf paths in order", Backgammon::extract_sequences_node(&t) == want);
}

/// harness: prop=P28 mode=merge game=Backgammon bounded=trees_of_depth_up_to_3_with_up_to_2_children_per_node
pub fn p28_deep_trees(src: &mut Src) {
    check_node(src, 3, 2);
}

/// harness: prop=P28 mode=merge game=Backgammon bounded=trees_of_depth_up_to_2_with_up_to_4_children_per_node
pub fn p28_wide_trees(src: &mut Src) {
    check_node(src, 2, 4);
}

/// harness: prop=P28 mode=merge game=Backgammon bounded=trees_of_depth_up_to_5_with_up_to_1_child_per_node
pub fn p28_chains(src: &mut Src) {
    check_node(src, 5, 1);
}

/// harness: prop=P28 mode=merge game=Backgammon bounded=lists_of_up_to_3_trees_of_depth_1_and_width_2
pub fn p28_lists(src: &mut Src) {
    let n = src.pick("trees", 4);
    let mut list: Vec<ActionNode> = vec![];
    let mut want: Vec<Actions> = vec![];
    for _ in 0..n {
        let t = any_tree(src, 1, 2);
        paths(&t, &vec![], &mut want);
        list.push(t);
    }
    ensures!("a list of trees yields the paths of its trees in order", Backgammon::extract_sequences_list(list) == want);
}
