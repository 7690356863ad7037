//! The contracts of training, learning runs and of the commands on larger runs of the compiled program.
use crate::alpha::*;
use crate::learning::*;
use crate::matches::*;
use crate::mock::*;
use crate::runs::*;
use crate::selfplay::*;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::base::LearnableGame;
use die_e::versus::*;
use std::path::{Path, PathBuf};

/// among copies of one sample the order does not matter
/// harness: prop=P22 mode=native game=Mock
pub fn p22_equal_samples(src: &mut Src) {
    let n = 1 + src.pick("samples", 200);
    let size = 1 + src.pick("batch size", 150);
    let mut az = any_az(1, 3, 1, size);
    let one = any_samples(src, 1);
    let samples: Vec<MemoryFragment> = (0..n).map(|_| copy_of(&one[0])).collect();
    let mut memory: Vec<MemoryFragment> = samples.iter().map(|m| copy_of(m)).collect();
    let net = twin(&az.model);
    az.train(&mut memory);
    ref_train(&net, &samples, &(0..n).collect(), size);
    ensures!("training keeps the number of samples", memory.len() == n);
    ensures!("every sample was used in exactly one batch of the configured size", same_network(&net, &az.model));
}

/// harness: prop=P22 mode=native game=Mock
pub fn p22_keeps_many(src: &mut Src) {
    let n = 1 + src.pick("samples", 120);
    let mut az = any_az(1, 3, 1, 1 + src.pick("batch size", 130));
    let samples = any_samples(src, n);
    let mut memory: Vec<MemoryFragment> = samples.iter().map(|m| copy_of(m)).collect();
    az.train(&mut memory);
    ensures!("training keeps the number of samples", memory.len() == n);
    let mut found = vec![0; n];
    for m in memory.iter() {
        let s = &samples[tag_of(m) - 1];
        found[tag_of(m) - 1] += 1;
        ensures!("training leaves a sample's outcome, policy and state alone", m.outcome == s.outcome && same_tensor(&m.ps, &s.ps) && same_tensor(&m.state, &s.state));
    }
    ensures!("training keeps every sample", found.iter().all(|k| *k == 1));
}

/// harness: prop=P29 mode=native game=Learner
pub fn p29_many_iterations(src: &mut Src) {
    let (learns, plays, epochs) = [(11, 1, 1), (6, 1, 2), (4, 2, 1), (1, 4, 1), (2, 3, 1), (3, 2, 2)][src.pick("plan", 6)];
    check_run(src, &Plan { learns, plays, games: 1, epochs, size: 1 });
}

/// harness: prop=P29 mode=native game=Learner
pub fn p29_many_self_plays(src: &mut Src) {
    let p = Plan { learns: 1 + src.pick("learning iterations", 3), plays: 1 + src.pick("self-play iterations", 12), games: 1 + src.pick("games", 12), epochs: 1, size: 4 };
    let (mut az, _) = start_run(src, &p);
    az.learn_parallel::<Learner>();
    let run = format!("./data/learner/{}", names_in("./data/learner")[0]);
    let mut next = 0;
    for l in 0..p.learns {
        let lrn = format!("{}/lrn-{}", run, l);
        ensures!("a learning iteration stores data for every self-play iteration", names_in(&lrn).len() == p.plays);
        let mut tags: Vec<usize> = vec![];
        for s in 0..p.plays {
            let here = stored_games(&format!("{}/sp-{}", lrn, s));
            let own: Vec<usize> = here.iter().copied().filter(|t| !tags.contains(t)).collect();
            ensures!("every self-play iteration stores one sample per game, on its own or after the ones before", own.len() == p.games && (here.len() == own.len() || here.len() == own.len() + tags.len()));
            tags.extend(own);
        }
        tags.sort();
        let first = tags[0];
        ensures!("the samples of a learning iteration are those of its own games, all of them", (0..tags.len()).all(|k| tags[k] == first + k) && first >= next);
        next = first + tags.len();
    }
}

/// harness: prop=P27 mode=native game=Duel
pub fn p27_many_games(src: &mut Src) {
    let n = 1 + src.pick("games", 250);
    let mut games: Vec<Game<Duel>> = vec![];
    for _ in 0..n {
        let start = any_duel(src);
        let states: Vec<Duel> = (0..src.pick("turns", 8)).map(|_| any_duel(src)).collect();
        games.push(recorded(src, start, &states));
    }
    fresh_dir();
    for g in games.iter() {
        save_game(g, "./data").unwrap();
    }
    let all: Vec<Game<Duel>> = load_all_games::<Duel>(PathBuf::from("./data")).unwrap();
    let mut before: Vec<String> = games.iter().map(|g| format!("{:?}", g)).collect();
    let mut after: Vec<String> = all.iter().map(|g| format!("{:?}", g)).collect();
    before.sort();
    after.sort();
    ensures!("every saved game comes back exactly once and unchanged", before == after);
}
