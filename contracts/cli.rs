//! Contracts of the commands of the program: training from stored data (P31), matches (P32).
use crate::cli_glue::*;
use crate::learning::*;
use crate::runs::*;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::versus::*;
use die_e::MctsConfig;
use std::path::{Path, PathBuf};
use tch::nn::VarStore;
use tch::{Device, Tensor};

/// stored samples: run, learning iteration, self-play iteration, numbers of the games
pub fn store_samples(az: &AlphaZero, run: &str, learn: usize, play: usize, tags: Vec<usize>) {
    let dir = format!("./data/learner/run-{}/lrn-{}/sp-{}", run, learn, play);
    std::fs::create_dir_all(&dir).unwrap();
    let data: Vec<MemoryFragment> = tags.iter().map(|t| sample_of(*t)).collect();
    az.save_training_data(&data, Path::new(&dir));
}

pub fn settings(size: f64) -> Vec<(&'static str, f64)> {
    let mut c = usual();
    c[9].1 = size;
    c[11].1 = WD;
    c[12].1 = LR;
    c
}

pub fn is_trained(start: &ResNet, tags: &Vec<usize>, size: usize, net: &ResNet) -> bool {
    let mut ok = false;
    for o in orders(tags.len()).iter() {
        let p = Pass { first: 0, order: o.iter().map(|k| tags[*k]).collect() };
        ok = ok | same_network(&trained(start, &vec![p], size), net);
    }
    ok
}

pub fn learner_net() -> ResNet {
    ResNet::new::<Learner>(VarStore::new(Device::Cpu))
}

pub fn train_setup() -> AlphaZero {
    fresh_dir();
    std::fs::create_dir_all("./models/learner").unwrap();
    std::fs::create_dir_all("./data/learner").unwrap();
    AlphaZero::from_config::<Learner>(None, &config_of(settings(1.0)))
}

pub fn check_train(run_a: &str, run_b: &str, scope: usize, size: usize) {
    let az = train_setup();
    store_samples(&az, run_a, 0, 0, vec![1]);
    store_samples(&az, run_a, 0, 1, vec![2]);
    store_samples(&az, run_a, 1, 0, vec![3]);
    store_samples(&az, run_b, 0, 0, vec![4]);
    let start = learner_net();
    start.vs.save("./models/learner/start.ot").unwrap();
    let conf = config_of(settings(size as f64));
    let model = Some("./models/learner/start.ot");
    let out = Some("./models/learner/out.ot");
    let tags = match scope {
        0 => {
            cli_train::<Learner>(model, out, None, None, None, &conf);
            vec![1, 2, 3, 4]
        }
        1 => {
            cli_train::<Learner>(model, out, Some(run_a), None, None, &conf);
            vec![1, 2, 3]
        }
        2 => {
            cli_train::<Learner>(model, out, Some(run_b), None, None, &conf);
            vec![4]
        }
        3 => {
            cli_train::<Learner>(model, out, Some(run_a), Some("0"), None, &conf);
            vec![1, 2]
        }
        4 => {
            cli_train::<Learner>(model, out, Some(run_a), Some("1"), None, &conf);
            vec![3]
        }
        5 => {
            cli_train::<Learner>(model, out, Some(run_a), Some("0"), Some("0"), &conf);
            vec![1]
        }
        6 => {
            cli_train::<Learner>(model, out, Some(run_a), Some("0"), Some("1"), &conf);
            vec![2]
        }
        _ => {
            cli_train::<Learner>(model, out, Some(run_b), Some("0"), Some("0"), &conf);
            vec![4]
        }
    };
    let net = learner_model("./models/learner/out.ot");
    ensures!("the stored model is the given one after a pass over exactly the samples in scope", is_trained(&start, &tags, size, &net));
    ensures!("the given model stays as it was", same_network(&learner_model("./models/learner/start.ot"), &start));
}

/// harness: prop=P31 mode=paths game=Learner bounded=two_runs_with_four_directories_of_a_sample_each
pub fn p31_scope(src: &mut Src) {
    let scope = src.pick("scope", 8);
    let size = if src.pick("batch size", 2) == 0 { 1 } else { 3 };
    check_train("V1StGXR8_Z5jdHi6B-myT", "4f90d13a42", scope, size);
}

/// run numbers are arbitrary texts, directory names of a part of a run may occur in them
/// harness: prop=P31 mode=paths game=Learner bounded=two_runs_with_four_directories_of_a_sample_each
pub fn p31_run_names(src: &mut Src) {
    let scope = src.pick("scope", 8);
    let name = ["Zsp-8_Z5jdHi6B-myTu0q", "qlrn-0tsp", "sp-0", "run-sp-1"][src.pick("name", 4)];
    check_train(name, "lrn-1sp", scope, 2);
}

/// harness: prop=P31 mode=paths game=Learner bounded=three_samples_in_a_directory
pub fn p31_models(src: &mut Src) {
    let az = train_setup();
    store_samples(&az, "x", 0, 0, vec![2, 4, 7]);
    let (given, best) = (learner_net(), learner_net());
    let has_given = src.pick("a model", 2) == 1;
    let has_out = src.pick("an output", 2) == 1;
    let size = 1 + src.pick("batch size", 3);
    given.vs.save("./models/learner/given.ot").unwrap();
    best.vs.save("./models/learner/best_model.ot").unwrap();
    cli_train::<Learner>(
        if has_given { Some("./models/learner/given.ot") } else { None },
        if has_out { Some("./models/elsewhere.ot") } else { None },
        Some("x"),
        None,
        None,
        &config_of(settings(size as f64)),
    );
    let net = learner_model(if has_out { "./models/elsewhere.ot" } else { "./models/learner/trained_model.ot" });
    ensures!("the given model is trained, the best one if there is none given, and stored where it was asked for", is_trained(if has_given { &given } else { &best }, &vec![2, 4, 7], size, &net));
    ensures!("the best model stays as it was", same_network(&learner_model("./models/learner/best_model.ot"), &best));
    ensures!("only the asked for file is written", Path::new("./models/learner/trained_model.ot").exists() == !has_out);
}

/// harness: prop=P31 mode=paths game=Learner
pub fn p31_bad_requests(src: &mut Src) {
    let az = train_setup();
    store_samples(&az, "x", 0, 0, vec![2]);
    let conf = config_of(settings(1.0));
    let kind = src.pick("request", 11);
    ensures!("a request that is incomplete, for data that is not there or a file that cannot be written is an error", panics(|| {
        match kind {
            0 => cli_train::<Learner>(None, None, Some("y"), None, None, &conf),
            1 => cli_train::<Learner>(None, None, Some("x"), Some("1"), None, &conf),
            2 => cli_train::<Learner>(None, None, Some("x"), Some("0"), Some("1"), &conf),
            3 => cli_train::<Learner>(None, None, None, Some("0"), None, &conf),
            4 => cli_train::<Learner>(None, None, None, None, Some("0"), &conf),
            5 => cli_train::<Learner>(None, None, Some("x"), None, Some("0"), &conf),
            6 => cli_train::<Learner>(None, None, None, Some("0"), Some("0"), &conf),
            7 => cli_train::<Learner>(Some("./models/learner/none.ot"), None, None, None, None, &conf),
            8 => cli_train::<Learner>(None, Some("./nowhere/at/all.ot"), Some("y"), None, None, &conf),
            9 => cli_train::<Learner>(None, Some("./nowhere/at/all.ot"), Some("x"), None, None, &conf),
            _ => cli_train::<Learner>(None, Some("./models"), None, None, None, &conf),
        }
    }));
    ensures!("nothing is stored after an error", !Path::new("./models/learner/trained_model.ot").exists());
}

/// runs with many directories; as all samples are copies of one, only their number matters
/// harness: prop=P31 mode=native game=Learner
pub fn p31_many_directories(src: &mut Src) {
    let az = train_setup();
    let learns = 1 + src.pick("learning iterations", 14);
    let plays = 1 + src.pick("self-play iterations", 14);
    let (at_l, at_s) = (src.pick("which", learns), src.pick("which", plays));
    let mut counts = [0; 4];
    for (r, run) in ["one", "another"].iter().enumerate() {
        for l in 0..learns {
            // not all learning iterations need have got equally far
            let here = if l == at_l || src.pick("complete", 3) > 0 { plays } else { 1 };
            for s in 0..here {
                let k = 1 + src.pick("samples", 3);
                store_samples(&az, run, l, s, vec![5; k]);
                counts[0] += k;
                if r == 0 {
                    counts[1] += k;
                    counts[2] += if l == at_l { k } else { 0 };
                    counts[3] += if l == at_l && s == at_s { k } else { 0 };
                }
            }
        }
    }
    let size = [1, 7, 64, 1000][src.pick("batch size", 4)];
    let start = learner_net();
    start.vs.save("./models/learner/start.ot").unwrap();
    let scope = src.pick("scope", 4);
    let (l, s) = (at_l.to_string(), at_s.to_string());
    cli_train::<Learner>(
        Some("./models/learner/start.ot"),
        Some("./models/learner/out.ot"),
        if scope > 0 { Some("one") } else { None },
        if scope > 1 { Some(l.as_str()) } else { None },
        if scope > 2 { Some(s.as_str()) } else { None },
        &config_of(settings(size as f64)),
    );
    let expected = trained(&start, &vec![Pass { first: 5, order: vec![0; counts[scope]] }], size);
    ensures!("the stored model is the given one after a pass over exactly the samples in scope", same_network(&expected, &learner_model("./models/learner/out.ot")));
}

/// harness: prop=P29 mode=paths game=Learner subst=versus::play>spec_learner_match bounded=one_learning_iteration_of_2_games
pub fn p29_learn_command(src: &mut Src) {
    let (_, _) = start_run(src, &Plan { learns: 1, plays: 1, games: 2, epochs: 1, size: 1 });
    let (given, best) = (learner_net(), learner_net());
    let has_given = src.pick("a model", 2) == 1;
    given.vs.save("./models/learner/given.ot").unwrap();
    best.vs.save("./models/learner/best_model.ot").unwrap();
    let mut c = settings(1.0);
    c[0].1 = 2.0;
    c[6].1 = 1.0;
    c[7].1 = 1.0;
    c[8].1 = 1.0;
    c[10].1 = 2.0;
    c[5].1 = 1.0;
    cli_learn::<Learner>(if has_given { Some("./models/learner/given.ot") } else { None }, &config_of(c));
    let net = learner_model("./models/learner/model_0.ot");
    ensures!("learning starts from the given model, or from the best one", is_trained(if has_given { &given } else { &best }, &vec![0, 1], 1, &net));
    ensures!("a run has one directory of training data", names_in("./data/learner").len() == 1);
}

// ---------------------------------------------------------------- P32

/// no kinds of agents
pub const NO_AGENTS: [&str; 16] = ["", "r", "rand", "rando", "randoms", "random ", " random", "mct", "mctss", "m", "mode", "models", "none", "human", "0", "alpha"];

/// harness: prop=P32 mode=paths game=Learner subst=versus::play>spec_cli_match bounded=sixteen_names
pub fn p32_unknown_agents(src: &mut Src) {
    play_setup();
    let a = src.pick("other agent", 3);
    let second = src.pick("which", 2) == 1;
    put_table(vec![if second { a as i64 } else { 0 }, if second { 0 } else { a as i64 }, 0, 0, 1]);
    let name = NO_AGENTS[src.pick("name", 16)];
    let conf = config_of(usual());
    ensures!("an unknown kind of agent is an error", panics(|| {
        if second {
            cli_play::<Learner>(Some(AGENTS[a]), None, Some(name), None, Some("./games"), &conf);
        } else {
            cli_play::<Learner>(Some(name), None, Some(AGENTS[a]), None, Some("./games"), &conf);
        }
    }));
    ensures!("no game is stored after an error", names_in("./games").is_empty());
}

/// a match as far as the command depends on it; who plays is compared with the request
pub fn spec_cli_match(player1: Player, player2: Player, config: &MctsConfig, temp: f64) -> PlayResult<Learner> {
    assert!(player1.player_type == agent_of(table(0) as usize) && player2.player_type == agent_of(table(1) as usize), "the requested agents play");
    assert!(right_model(&player1.model, "./models/learner/one.ot", table(2) == 1), "player one has its own network");
    assert!(right_model(&player2.model, "./models/learner/two.ot", table(3) == 1), "player two has its own network");
    assert!(debug_eq(config, &MctsConfig::from_config(&config_of(usual())).unwrap()), "the match has the configured search settings");
    assert!(temp == 0.5, "the match has the configured temperature");
    let n = table(4) as usize;
    let mut games: Vec<Game<Learner>> = vec![];
    for k in 0..n {
        let mut s = <Learner as LearnableGame>::new();
        s.tag = k;
        games.push(Game::new(agent_of(table(0) as usize), agent_of(table(1) as usize), s));
    }
    PlayResult {
        player1: player1.player_type,
        player2: player2.player_type,
        wins_p1: 0,
        wins_p2: 0,
        draws: n,
        winrate: 0.0,
        n_games: n,
        games,
    }
}

pub fn right_model(m: &Option<ResNet>, path: &str, there: bool) -> bool {
    match m {
        Some(net) => there && same_network(net, &learner_model(path)),
        None => !there,
    }
}

pub fn agent_of(k: usize) -> Agent {
    match k {
        0 => Agent::Random,
        1 => Agent::Mcts,
        _ => Agent::Model,
    }
}

pub const AGENTS: [&str; 3] = ["random", "mcts", "model"];
pub const SHOUTED: [&str; 3] = ["Random", "MCTS", "mODel"];

pub fn play_setup() {
    fresh_dir();
    std::fs::create_dir_all("./models/learner").unwrap();
    std::fs::create_dir_all("./games").unwrap();
    learner_net().vs.save("./models/learner/one.ot").unwrap();
    learner_net().vs.save("./models/learner/two.ot").unwrap();
}

/// harness: prop=P32 mode=paths game=Learner subst=versus::play>spec_cli_match bounded=matches_of_up_to_3_games
pub fn p32_play(src: &mut Src) {
    play_setup();
    let (a, b) = (src.pick("agent one", 3), src.pick("agent two", 3));
    let (one, two) = (a == 2 || src.pick("spare model", 2) == 1, b == 2);
    let games = src.pick("games", 4);
    let name = if src.pick("capitals", 2) == 1 { SHOUTED } else { AGENTS };
    put_table(vec![a as i64, b as i64, one as i64, two as i64, games as i64]);
    cli_play::<Learner>(
        Some(name[a]),
        if one { Some("./models/learner/one.ot") } else { None },
        Some(name[b]),
        if two { Some("./models/learner/two.ot") } else { None },
        Some("./games"),
        &config_of(usual()),
    );
    let stored = names_in("./games");
    ensures!("every game of the match is stored", stored.len() == games || stored.len() == 400);
    for s in stored.iter() {
        let g = load_game::<Learner>(Path::new("./games").join(s)).unwrap();
        ensures!("a stored game names the requested agents", agent_in(&g, "player1") == agent_of(a) && agent_in(&g, "player2") == agent_of(b));
    }
}

/// harness: prop=P32 mode=paths game=Learner subst=versus::play>spec_cli_match
pub fn p32_bad_requests(src: &mut Src) {
    play_setup();
    put_table(vec![0, 0, 0, 0, 1]);
    let conf = config_of(usual());
    let kind = src.pick("request", 7);
    let r = Some("random");
    ensures!("an unusable request is an error", panics(|| {
        match kind {
            0 => cli_play::<Learner>(None, None, r, None, Some("./games"), &conf),
            1 => cli_play::<Learner>(r, None, None, None, Some("./games"), &conf),
            2 => cli_play::<Learner>(Some("human"), None, r, None, Some("./games"), &conf),
            3 => cli_play::<Learner>(r, None, Some("modell"), None, Some("./games"), &conf),
            4 => cli_play::<Learner>(r, None, r, None, None, &conf),
            5 => cli_play::<Learner>(r, None, r, None, Some("./nowhere"), &conf),
            _ => cli_play::<Learner>(r, None, r, Some("./models/learner/three.ot"), Some("./games"), &conf),
        }
    }));
    ensures!("no game is stored after an error", names_in("./games").is_empty());
}
