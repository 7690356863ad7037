//! Contracts of learning runs (P29) and of the settings (P30).
use crate::alpha::*;
use crate::learning::*;
use crate::mock::*;
use crate::selfplay::*;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::*;
use die_e::mcts::node_store::NodeStore;
use die_e::versus::*;
use die_e::MctsConfig;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use tch::nn::{Adam, OptimizerConfig, VarStore};
use tch::{Device, Reduction, Tensor};

/// A game of a single legal move whose course is known from its number, which every started game gets anew:
/// the samples of self-play are known in advance and told apart by their number.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Learner {
    pub tag: usize,
    pub over: bool,
    pub id: usize,
}

impl Learner {
    pub fn winner(&self) -> i8 {
        (self.tag % 3) as i8 - 1
    }
}

impl LearnableGame for Learner {
    type Move = usize;
    const EMPTY_MOVE: usize = 9;
    const IS_DETERMINISTIC: bool = false;
    const ACTION_SPACE_SIZE: i64 = 8;
    const N_INPUT_CHANNELS: i64 = 2;
    const CONV_OUTPUT_SIZE: i64 = 25;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;

    fn new() -> Self {
        Learner { tag: 0, over: false, id: 0 }
    }
    fn name() -> String {
        String::from("learner")
    }
    fn get_valid_moves(&self) -> Vec<usize> {
        if self.over {
            vec![]
        } else {
            vec![self.tag % 5]
        }
    }
    fn apply_move(&mut self, action: &usize) {
        assert!(!self.over && *action == self.tag % 5, "an illegal move was played");
        self.over = true;
    }
    fn roll_die(&mut self) -> (u8, u8) {
        self.tag = next_tag();
        (1, 1)
    }
    fn skip_turn(&mut self) {}
    fn get_player(&self) -> i8 {
        if self.tag % 2 == 0 {
            1
        } else {
            -1
        }
    }
    fn check_winner(&self) -> Option<i8> {
        if self.over {
            Some(self.winner())
        } else {
            None
        }
    }
    fn as_tensor(&self) -> Tensor {
        let mut v: Vec<f32> = vec![];
        for i in 0..50usize {
            v.push(if i == self.tag % 7 || i == 30 + self.tag % 11 { 1.0 } else if i == 20 { self.tag as f32 } else if i == 21 && self.over { 1.0 } else { 0.0 });
        }
        Tensor::from_slice(&v).view([1, 2, 5, 5])
    }
    fn decode(&self, action: u32) -> usize {
        action as usize - 1
    }
    fn encode(&self, action: &usize) -> u32 {
        *action as u32 + 1
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, new_id: usize) {
        self.id = new_id
    }
    fn to_pretty_str(&self) -> String {
        String::new()
    }
}

/// a match as far as its caller depends on it: any number of wins
pub fn spec_learner_match(player1: Player, player2: Player, _config: &MctsConfig, _temp: f64) -> PlayResult<Learner> {
    let wins = table(0) as usize;
    PlayResult {
        player1: player1.player_type,
        player2: player2.player_type,
        wins_p1: wins,
        wins_p2: 400 - wins,
        draws: 0,
        winrate: wins as f64 / 400.0,
        n_games: 400,
        games: vec![],
    }
}

pub const WD: f64 = 0.01;
pub const LR: f64 = 0.003;

pub struct Plan {
    pub learns: usize,
    pub plays: usize,
    pub games: usize,
    pub epochs: usize,
    pub size: usize,
}

pub fn learner(p: &Plan) -> AlphaZero {
    AlphaZero::from_config::<Learner>(
        None,
        &config_of(vec![
            ("iterations", 2.0),
            ("exploration_const", 1.5),
            ("simulate_round_limit", 5.0),
            ("dirichlet_alpha", 0.3),
            ("dirichlet_epsilon", 0.25),
            ("temperature", 1.0),
            ("learn_iterations", p.learns as f64),
            ("self_play_iterations", p.plays as f64),
            ("num_epochs", p.epochs as f64),
            ("training_batch_size", p.size as f64),
            ("num_self_play_batches", p.games as f64),
            ("wd", WD),
            ("lr", LR),
        ]),
    )
}

pub fn names_in(dir: &str) -> Vec<String> {
    match std::fs::read_dir(dir) {
        Ok(es) => es.map(|e| e.unwrap().path().file_name().unwrap().to_str().unwrap().to_string()).collect(),
        Err(_) => vec![],
    }
}

/// the sample of a game
pub fn sample_of(tag: usize) -> MemoryFragment {
    let g = Learner { tag, over: false, id: 0 };
    let mut p: Vec<f32> = vec![];
    for i in 0..8usize {
        p.push(if i == g.encode(&(tag % 5)) as usize { 1.0 } else { 0.0 });
    }
    MemoryFragment { outcome: g.winner() * g.get_player(), ps: Tensor::from_slice(&p), state: g.as_tensor() }
}

pub fn learner_twin(net: &ResNet) -> ResNet {
    let mut t = ResNet::new::<Learner>(VarStore::new(Device::Cpu));
    t.vs.copy(&net.vs).unwrap();
    t
}

/// a training pass: which samples, in which order
#[derive(Clone)]
pub struct Pass {
    pub first: usize,
    pub order: Vec<usize>,
}

/// the network after the given passes, one optimizer throughout
pub fn trained(start: &ResNet, passes: &Vec<Pass>, size: usize) -> ResNet {
    let net = learner_twin(start);
    let mut opt = Adam::default().wd(WD).build(&net.vs, LR).unwrap();
    for pass in passes.iter() {
        let mut at = 0;
        while at < pass.order.len() {
            let to = if at + size < pass.order.len() { at + size } else { pass.order.len() };
            let mut out: Vec<f32> = vec![];
            let mut ps: Vec<Tensor> = vec![];
            let mut st: Vec<Tensor> = vec![];
            for k in at..to {
                let s = sample_of(pass.first + pass.order[k]);
                out.push(s.outcome as f32);
                ps.push(s.ps.copy());
                st.push(s.state.view([2, 5, 5]));
            }
            let (p, v) = net.forward_train(&Tensor::stack(&st, 0), true);
            let loss = p.cross_entropy_loss::<Tensor>(&Tensor::stack(&ps, 0), None, Reduction::Mean, -100, 0.0)
                + v.mse_loss(&Tensor::from_slice(&out).unsqueeze(1), Reduction::Mean);
            opt.zero_grad();
            loss.backward();
            opt.step();
            at = to;
        }
    }
    net
}

/// the histories of passes that explain the network, out of all that continue the given ones by the
/// configured number of passes over the games from `first` on
pub fn explaining(start: &ResNet, known: &Vec<Vec<Pass>>, first: usize, games: usize, p: &Plan, net: &ResNet) -> Vec<Vec<Pass>> {
    let mut all: Vec<Vec<Pass>> = known.clone();
    for _ in 0..p.epochs {
        let mut longer: Vec<Vec<Pass>> = vec![];
        for h in all.iter() {
            for o in orders(games).iter() {
                let mut l = h.clone();
                l.push(Pass { first, order: o.clone() });
                longer.push(l);
            }
        }
        all = longer;
    }
    let mut good: Vec<Vec<Pass>> = vec![];
    for h in all.iter() {
        if same_network(&trained(start, h, p.size), net) {
            good.push(h.clone());
        }
    }
    good
}

/// the numbers of the games stored in a directory, in increasing order, every one once
pub fn stored_games(dir: &str) -> Vec<usize> {
    let mut tags: Vec<usize> = vec![];
    for s in AlphaZero::load_training_data(Path::new(dir)).iter() {
        let tag = s.state.view([50]).double_value(&[20]) as usize;
        let known = sample_of(tag);
        ensures!("a stored sample is the sample of its game", s.outcome == known.outcome && same_tensor(&s.ps, &known.ps) && same_tensor(&s.state.view([50]), &known.state.view([50])));
        tags.push(tag);
    }
    let n = tags.len();
    tags.sort();
    tags.dedup();
    ensures!("no sample is stored twice in a directory", tags.len() == n);
    tags
}

pub fn learner_model(path: &str) -> ResNet {
    ResNet::from_path::<Learner>(&PathBuf::from(path))
}

pub fn start_run(src: &mut Src, p: &Plan) -> (AlphaZero, ResNet) {
    fresh_dir();
    std::fs::create_dir_all("./models/learner").unwrap();
    put_table(vec![if src.pick("match", 2) == 0 { 300 } else { 200 }]);
    let az = learner(p);
    let start = learner_twin(&az.model);
    (az, start)
}

pub fn check_run(src: &mut Src, p: &Plan) {
    let (mut az, start) = start_run(src, p);
    az.learn_parallel::<Learner>();
    let runs = names_in("./data/learner");
    ensures!("a run has one directory of training data", runs.len() == 1 && runs[0].starts_with("run-"));
    let run = format!("./data/learner/{}", runs[0]);
    ensures!("a run stores data for every learning iteration", names_in(&run).len() == p.learns);
    let mut known: Vec<Vec<Pass>> = vec![vec![]];
    let mut next = 0;
    for l in 0..p.learns {
        let lrn = format!("{}/lrn-{}", run, l);
        ensures!("a learning iteration stores data for every self-play iteration", names_in(&lrn).len() == p.plays);
        // the samples stored so far
        let mut tags: Vec<usize> = vec![];
        for s in 0..p.plays {
            let here = stored_games(&format!("{}/sp-{}", lrn, s));
            // the samples of this self-play iteration
            let own: Vec<usize> = here.iter().copied().filter(|t| !tags.contains(t)).collect();
            ensures!("every self-play iteration stores one sample per game, on its own or after the ones before", own.len() == p.games && (here.len() == own.len() || here.len() == own.len() + tags.len()));
            tags.extend(own);
        }
        tags.sort();
        let first = tags[0];
        ensures!("the samples of a learning iteration are those of its own games, all of them", (0..tags.len()).all(|k| tags[k] == first + k) && (if l == 0 { first == 0 } else { first >= next }));
        next = first + tags.len();
        let stored = learner_model(&format!("./models/learner/model_{}.ot", l));
        known = explaining(&start, &known, first, tags.len(), p, &stored);
        ensures!("the model of an iteration is the network after its passes over exactly its samples", !known.is_empty());
        if l + 1 == p.learns {
            ensures!("the model of the last iteration is the current network", same_network(&stored, &az.model));
        }
    }
    ensures!("no other models are stored", names_in("./models/learner").len() == p.learns + 1);
    cover!("a run", true);
}

/// harness: prop=P29 mode=paths game=Learner subst=versus::play>spec_learner_match bounded=up_to_2_learning_iterations_of_up_to_2_games
pub fn p29_iterations(src: &mut Src) {
    let learns = 1 + src.pick("learning iterations", 2);
    let size = 1 + src.pick("batch size", 2);
    check_run(src, &Plan { learns, plays: 1, games: 2, epochs: 1, size });
}

/// harness: prop=P29 mode=paths game=Learner subst=versus::play>spec_learner_match bounded=up_to_3_self-play_iterations_of_a_game
pub fn p29_self_plays(src: &mut Src) {
    let plays = 1 + src.pick("self-play iterations", 3);
    check_run(src, &Plan { learns: 1, plays, games: 1, epochs: 1, size: 1 });
}

/// harness: prop=P29 mode=paths game=Learner subst=versus::play>spec_learner_match bounded=up_to_3_passes_over_2_games
pub fn p29_passes(src: &mut Src) {
    let epochs = 1 + src.pick("passes", 3);
    check_run(src, &Plan { learns: 1, plays: 1, games: 2, epochs, size: 2 });
}

/// harness: prop=P29 mode=paths game=Learner tier=thorough subst=versus::play>spec_learner_match bounded=2_learning_iterations_of_2_self-play_iterations_and_2_passes
pub fn p29_all_at_once(src: &mut Src) {
    check_run(src, &Plan { learns: 2, plays: 2, games: 1, epochs: 2, size: 1 });
}

/// harness: prop=P29 mode=paths game=Learner bounded=up_to_2_learning_iterations,_up_to_2_self-play_iterations,_up_to_2_passes
pub fn p29_sequential(src: &mut Src) {
    let learns = 1 + src.pick("learning iterations", 2);
    let plays = 1 + src.pick("self-play iterations", 2);
    let epochs = 1 + src.pick("passes", 2);
    let p = Plan { learns, plays, games: 1, epochs, size: 1 };
    let (mut az, start) = start_run(src, &p);
    az.learn::<Learner>();
    let mut known: Vec<Vec<Pass>> = vec![vec![]];
    for l in 0..p.learns {
        let stored = learner_model(&format!("./models/learner/model_{}.ot", l));
        known = explaining(&start, &known, l * plays, plays, &p, &stored);
        ensures!("the model of an iteration is the network after its passes over exactly its samples", !known.is_empty());
        if l + 1 == p.learns {
            ensures!("the model of the last iteration is the current network", same_network(&stored, &az.model));
        }
    }
}

// ---------------------------------------------------------------- P30

pub const KEYS: [&str; 13] = [
    "iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon", "temperature", "learn_iterations",
    "self_play_iterations", "num_epochs", "training_batch_size", "num_self_play_batches", "wd", "lr",
];

pub fn usual() -> Vec<(&'static str, f64)> {
    let mut v: Vec<(&'static str, f64)> = vec![];
    for k in 0..KEYS.len() {
        v.push((KEYS[k], if k == 0 || k == 2 || (k >= 6 && k <= 10) { 2.0 } else { 0.5 }));
    }
    v
}

/// harness: prop=P30 mode=paths game=Learner
pub fn p30_learning_settings(src: &mut Src) {
    fresh_dir();
    let temperature = src.f32("temperature", 0.1, 4.0) as f64;
    let mut n: Vec<u32> = vec![];
    for _ in 0..5 {
        n.push(src.u32("number", 1, 5000));
    }
    let az = AlphaZero::from_config::<Learner>(
        None,
        &config_of(vec![
            ("num_epochs", n[0] as f64),
            ("learn_iterations", n[1] as f64),
            ("num_self_play_batches", n[2] as f64),
            ("training_batch_size", n[3] as f64),
            ("self_play_iterations", n[4] as f64),
            ("temperature", temperature),
            ("iterations", 2.0),
            ("exploration_const", 1.5),
            ("simulate_round_limit", 5.0),
            ("dirichlet_alpha", 0.3),
            ("dirichlet_epsilon", 0.25),
            ("wd", 0.5),
            ("lr", 0.25),
        ]),
    );
    let c = &az.config;
    ensures!("the number of passes is the configured one", c.num_epochs == n[0] as usize);
    ensures!("the number of learning iterations is the configured one", c.learn_iterations == n[1] as usize);
    ensures!("the number of games at a time is the configured one", c.num_self_play_batches == n[2] as usize);
    ensures!("the batch size is the configured one", c.training_batch_size == n[3] as usize);
    ensures!("the number of self-play iterations is the configured one", c.self_play_iterations == n[4] as usize);
    ensures!("the temperature is the configured one", c.temperature == temperature);
}

/// harness: prop=P30 mode=paths game=Learner
pub fn p30_missing_or_no_number(src: &mut Src) {
    fresh_dir();
    let k = src.pick("key", 13);
    let text = src.pick("a text instead", 2) == 1;
    let conf = if text {
        config_with_text(usual(), KEYS[k])
    } else {
        config_of(usual().into_iter().filter(|x| x.0 != KEYS[k]).collect())
    };
    ensures!("a setting that is missing or holds no number is an error", panics(|| {
        AlphaZero::from_config::<Learner>(None, &conf);
    }));
    ensures!("the settings of the search alone are the search's", MctsConfig::from_config(&conf).is_err() == (k < 5));
    ensures!("complete settings are accepted", MctsConfig::from_config(&config_of(usual())).is_ok());
    AlphaZero::from_config::<Learner>(None, &config_of(usual()));
}

/// harness: prop=P30 mode=paths game=Learner bounded=two_training_steps
pub fn p30_optimizer(src: &mut Src) {
    fresh_dir();
    let wd = src.f32("weight decay", 0.001, 0.1) as f64;
    let lr = src.f32("learning rate", 0.001, 0.1) as f64;
    let mut conf = usual();
    conf[11].1 = wd;
    conf[12].1 = lr;
    conf[9].1 = 1.0;
    let mut az = AlphaZero::from_config::<Learner>(None, &config_of(conf));
    let net = learner_twin(&az.model);
    let mut opt = Adam::default().wd(wd).build(&net.vs, lr).unwrap();
    for _ in 0..2 {
        let mut memory = vec![sample_of(3)];
        az.train(&mut memory);
        let s = sample_of(3);
        let (p, v) = net.forward_train(&s.state, true);
        let loss = p.cross_entropy_loss::<Tensor>(&Tensor::stack(&[s.ps.copy()], 0), None, Reduction::Mean, -100, 0.0)
            + v.mse_loss(&Tensor::from_slice(&[s.outcome as f32]).unsqueeze(1), Reduction::Mean);
        opt.zero_grad();
        loss.backward();
        opt.step();
    }
    ensures!("training uses the configured learning rate and weight decay", same_network(&net, &az.model));
}

/// a game that goes on for ever
pub fn endless() -> Mock {
    let mut g = <Mock as LearnableGame>::new();
    g.won = [2; 4];
    g.deg = [2; 4];
    g.next = [[2, 3], [2, 3], [3, 0], [0, 2]];
    g
}

/// harness: prop=P30 mode=paths game=Mock bounded=up_to_4_simulations
pub fn p30_simulations(src: &mut Src) {
    let k = 1 + src.pick("iterations", 4);
    let net = any_net();
    let mut store: NodeStore<Mock> = NodeStore::new();
    alpha_mcts_parallel(&mut store, &vec![endless()], &net, &mcts_config(k, 1.5, 9, 0.3, 0.0), None);
    let mut n = 0.0f32;
    for c in store.get_node(0).children.iter() {
        n += store.get_node(*c).visits;
    }
    ensures!("a search makes the configured number of simulations", n == k as f32);
}

/// harness: prop=P30 mode=paths game=Mock bounded=limits_up_to_4
pub fn p30_round_limit(src: &mut Src) {
    let limit = 1 + src.pick("limit", 4);
    prepare(&vec![endless()]);
    let az = any_az(1, limit, 1, 4);
    let samples = az.self_play_parallel::<Mock>();
    ensures!("a game is cut off after the configured number of rounds", samples.len() == limit);
    ensures!("a game that is cut off is drawn", samples.iter().all(|s| s.outcome == 0));
}

/// harness: prop=P30 mode=paths game=Mock bounded=a_position_with_2_moves
pub fn p30_noise_settings(src: &mut Src) {
    let net = any_net();
    let alpha = src.f32("alpha", -2.0, 2.0);
    let eps = if src.pick("epsilon", 2) == 0 { 0.0 } else { 0.75 };
    let g = endless();
    let run = || {
        let mut store: NodeStore<Mock> = NodeStore::new();
        let at = store.add_node(g, None, None, 0.0);
        apply_dirichlet_to_root(at, &mut store, &net, &g, &mcts_config(1, 1.5, 3, alpha, eps));
        store
    };
    if alpha <= 0.0 {
        ensures!("a concentration that is not positive is an error", panics(|| {
            run();
        }));
    } else {
        let store = run();
        let plain = priors_of(&g, &opinion(&net, &g).0);
        for k in 0..2usize {
            let x = store.get_node(child_by(&store, 0, k as u8).unwrap()).policy;
            ensures!("the noise gets the configured share", at_least(x, (1.0 - eps) * plain[k]) && at_least((1.0 - eps) * plain[k] + eps, x));
        }
    }
    cover!("noise", alpha > 0.0 && eps > 0.0);
    cover!("no noise", alpha > 0.0 && eps == 0.0);
}

/// the concentration of the noise: near the even distribution when it is large, near the corners when it is small
/// harness: prop=P30 mode=native game=Mock
pub fn p30_noise_concentration(src: &mut Src) {
    let net = any_net();
    let g = endless();
    let large = src.pick("large", 2) == 1;
    let mut middle = 0;
    for _ in 0..40 {
        let mut store: NodeStore<Mock> = NodeStore::new();
        let at = store.add_node(g, None, None, 0.0);
        apply_dirichlet_to_root(at, &mut store, &net, &g, &mcts_config(1, 1.5, 3, if large { 1e6 } else { 0.004 }, 1.0));
        let x = store.get_node(child_by(&store, 0, 0).unwrap()).policy;
        if x > 0.4 && x < 0.6 {
            middle += 1;
        }
    }
    ensures!("the concentration of the noise is the configured one", if large { middle == 40 } else { middle < 20 });
}

/// a low temperature plays the most visited move, a high one any move
/// harness: prop=P30 mode=native game=Mock
pub fn p30_temperature(src: &mut Src) {
    let hot = src.pick("hot", 2) == 1;
    let mut conf = usual();
    conf[0].1 = 6.0;
    conf[4].1 = 0.0;
    conf[5].1 = if hot { 20.0 } else { 0.02 };
    let az = AlphaZero::from_config::<Mock>(None, &config_of(conf));
    let g = endless();
    let pi = alpha_mcts(&g, &az.model, &az.mcts_config).unwrap();
    let (a, b) = (pi.double_value(&[0]), pi.double_value(&[1]));
    requires!(a > 0.0 && b > 0.0 && a != b);
    let mut rare = 0;
    for _ in 0..60 {
        let m = az.get_next_move_for_state(&g);
        if (m == 0) == (a < b) {
            rare += 1;
        }
    }
    ensures!("the temperature of play is the configured one", if hot { rare > 5 } else { rare == 0 });
}
