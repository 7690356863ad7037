//! Contracts of training (P22), training data on disk (P23) and stored models (P24).
use crate::alpha::*;
use crate::mock::*;
use crate::selfplay::*;
use crate::src::Src;
use crate::support::*;
use crate::{cover, ensures, requires};
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use std::path::{Path, PathBuf};
use tch::nn::{Adam, OptimizerConfig, VarStore};
use tch::{Device, Kind, Reduction, Tensor};

/// any training samples, told apart by their state's tag
pub fn any_samples(src: &mut Src, n: usize) -> Vec<MemoryFragment> {
    let mut v: Vec<MemoryFragment> = vec![];
    for i in 0..n {
        let mut g = <Mock as LearnableGame>::new();
        g.tag = i as u8 + 1;
        g.pos = src.u8("pos", 0, 3);
        g.turns = src.u8("turns", 0, 3);
        let mut p: Vec<f32> = vec![];
        for _ in 0..8 {
            p.push(src.f32("share", 0.0, 1.0));
        }
        v.push(MemoryFragment { outcome: src.i8("outcome", -1, 1), ps: Tensor::from_slice(&p), state: g.as_tensor() });
    }
    v
}

pub fn copy_of(m: &MemoryFragment) -> MemoryFragment {
    MemoryFragment { outcome: m.outcome, ps: m.ps.copy(), state: m.state.copy() }
}

pub fn tag_of(m: &MemoryFragment) -> usize {
    m.state.view([50]).double_value(&[4]) as usize
}

/// all orders of n things
pub fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out: Vec<Vec<usize>> = vec![];
    for o in orders(n - 1).iter() {
        for at in 0..n {
            let mut v: Vec<usize> = vec![];
            for k in 0..n {
                if k < at {
                    v.push(o[k]);
                } else if k == at {
                    v.push(n - 1);
                } else {
                    v.push(o[k - 1]);
                }
            }
            out.push(v);
        }
    }
    out
}

/// one training pass over the samples in the given order, in consecutive batches
pub fn ref_train(net: &ResNet, samples: &Vec<MemoryFragment>, order: &Vec<usize>, size: usize) {
    let mut opt = Adam::default().wd(0.0001).build(&net.vs, 0.001).unwrap();
    let mut at = 0;
    while at < order.len() {
        let to = if at + size < order.len() { at + size } else { order.len() };
        let mut out: Vec<f32> = vec![];
        let mut ps: Vec<Tensor> = vec![];
        let mut st: Vec<Tensor> = vec![];
        for k in at..to {
            let s = &samples[order[k]];
            out.push(s.outcome as f32);
            ps.push(s.ps.copy());
            st.push(s.state.view([2, 5, 5]));
        }
        let outcomes = Tensor::from_slice(&out).unsqueeze(1);
        let policies = Tensor::stack(&ps, 0);
        let states = Tensor::stack(&st, 0);
        let (p, v) = net.forward_train(&states, true);
        let loss = p.cross_entropy_loss::<Tensor>(&policies, None, Reduction::Mean, -100, 0.0) + v.mse_loss(&outcomes, Reduction::Mean);
        opt.zero_grad();
        loss.backward();
        opt.step();
        at = to;
    }
}

pub fn twin(net: &ResNet) -> ResNet {
    let mut t = ResNet::new::<Mock>(VarStore::new(Device::Cpu));
    t.vs.copy(&net.vs).unwrap();
    t
}

pub fn check_epoch(src: &mut Src, n: usize, size: usize) {
    let mut az = any_az(1, 3, 1, size);
    let samples = any_samples(src, n);
    let mut memory: Vec<MemoryFragment> = samples.iter().map(|m| copy_of(m)).collect();
    let before = twin(&az.model);
    az.train(&mut memory);
    ensures!("training keeps the number of samples", memory.len() == n);
    for s in samples.iter() {
        let mut found = 0;
        for m in memory.iter() {
            if tag_of(m) == tag_of(s) {
                found += 1;
                ensures!("training leaves a sample's outcome, policy and state alone", m.outcome == s.outcome && same_tensor(&m.ps, &s.ps) && same_tensor(&m.state, &s.state));
            }
        }
        ensures!("training keeps every sample", found == 1);
    }
    let mut explained = false;
    for o in orders(n).iter() {
        let net = twin(&before);
        ref_train(&net, &samples, o, size);
        explained = explained | same_network(&net, &az.model);
    }
    ensures!("every sample, as a whole, was used in exactly one batch of the configured size", explained);
}

/// harness: prop=P22 mode=paths game=Mock bounded=up_to_3_samples,_batch_sizes_up_to_3
pub fn p22_epoch(src: &mut Src) {
    let n = src.pick("samples", 4);
    let size = 1 + src.pick("batch size", 3);
    check_epoch(src, n, size);
}

/// harness: prop=P22 mode=paths game=Mock bounded=4_samples,_batch_sizes_up_to_4
pub fn p22_epoch_larger(src: &mut Src) {
    let size = 1 + src.pick("batch size", 4);
    check_epoch(src, 4, size);
}

// ---------------------------------------------------------------- P23

/// harness: prop=P23 mode=paths game=Mock bounded=up_to_3_samples
pub fn p23_round_trip(src: &mut Src) {
    fresh_dir();
    let az = any_az(1, 3, 1, 2);
    let n = 1 + src.pick("samples", 3);
    let samples = any_samples(src, n);
    let dir = Path::new("./data");
    if src.pick("older data there", 2) == 1 {
        let mut older = any_samples(src, 2);
        older[0].outcome = 0;
        az.save_training_data(&older, dir);
    }
    az.save_training_data(&samples, dir);
    let back = AlphaZero::load_training_data(dir);
    ensures!("as many samples come back as were saved", back.len() == n);
    for i in 0..n {
        ensures!("the outcome of every sample comes back", back[i].outcome == samples[i].outcome);
        ensures!("the move distribution of every sample comes back", same_tensor(&back[i].ps, &samples[i].ps));
        ensures!("the state of every sample comes back", same_tensor(&back[i].state.view([50]), &samples[i].state.view([50])));
    }
    let again = AlphaZero::load_training_data(dir);
    ensures!("loading leaves the data on disk", again.len() == n);
}

/// harness: prop=P23 mode=paths game=Mock bounded=two_directories
pub fn p23_two_directories(src: &mut Src) {
    fresh_dir();
    let az = any_az(1, 3, 1, 2);
    let a = any_samples(src, 1);
    let b = any_samples(src, 2);
    az.save_training_data(&a, Path::new("./data"));
    az.save_training_data(&b, Path::new("./models/mock"));
    let back = AlphaZero::load_training_data(Path::new("./data"));
    ensures!("every directory keeps its own samples", back.len() == 1 && back[0].outcome == a[0].outcome && same_tensor(&back[0].ps, &a[0].ps));
    let back = AlphaZero::load_training_data(Path::new("./models/mock"));
    ensures!("every directory keeps its own samples", back.len() == 2 && back[1].outcome == b[1].outcome && same_tensor(&back[1].ps, &b[1].ps));
    ensures!("a missing directory is an error", panics(|| {
        AlphaZero::load_training_data(Path::new("./nowhere"));
    }));
    ensures!("saving to a missing directory is an error", panics(|| {
        az.save_training_data(&b, Path::new("./nowhere"));
    }));
}

/// harness: prop=P23 mode=native game=Mock
pub fn p23_larger(src: &mut Src) {
    fresh_dir();
    let az = any_az(1, 3, 1, 2);
    let n = 1 + src.pick("samples", 60);
    let samples = any_samples(src, n);
    az.save_training_data(&samples, Path::new("./data"));
    let back = AlphaZero::load_training_data(Path::new("./data"));
    ensures!("as many samples come back as were saved", back.len() == n);
    for i in 0..n {
        ensures!("every sample comes back in its place", back[i].outcome == samples[i].outcome && same_tensor(&back[i].ps, &samples[i].ps) && same_tensor(&back[i].state.view([50]), &samples[i].state.view([50])));
    }
}

// ---------------------------------------------------------------- P24

pub fn az_from(path: Option<PathBuf>) -> AlphaZero {
    AlphaZero::from_config::<Mock>(
        path,
        &config_of(vec![
            ("iterations", 1.0),
            ("exploration_const", 1.5),
            ("simulate_round_limit", 3.0),
            ("dirichlet_alpha", 0.3),
            ("dirichlet_epsilon", 0.25),
            ("temperature", 1.0),
            ("learn_iterations", 1.0),
            ("self_play_iterations", 1.0),
            ("num_epochs", 1.0),
            ("training_batch_size", 2.0),
            ("num_self_play_batches", 1.0),
            ("wd", 0.0001),
            ("lr", 0.001),
        ]),
    )
}

/// harness: prop=P24 mode=paths game=Mock
pub fn p24_start_up(src: &mut Src) {
    fresh_dir();
    let best = any_net();
    let given = any_net();
    let has_best = src.pick("a best model", 2) == 1;
    let has_path = src.pick("a model path", 2) == 1;
    if has_best {
        best.vs.save("./models/mock/best_model.ot").unwrap();
    }
    given.vs.save("./models/mock/given.ot").unwrap();
    let path = if has_path { Some(PathBuf::from("./models/mock/given.ot")) } else { None };
    let az = az_from(path);
    if has_path {
        ensures!("the given model is the network", same_network(&az.model, &given));
    } else if has_best {
        ensures!("the best model is the network", same_network(&az.model, &best));
    } else {
        ensures!("without a model the network is a new one", !same_network(&az.model, &given));
    }
    // what is saved is what was loaded
    az.save_current_model(Path::new("./models/mock/again.ot")).unwrap();
    let again = ResNet::from_path::<Mock>(&PathBuf::from("./models/mock/again.ot"));
    ensures!("a saved network loads back", same_network(&az.model, &again));
}

/// harness: prop=P24 mode=paths game=Mock
pub fn p24_bad_files(src: &mut Src) {
    fresh_dir();
    let kind = src.pick("what is wrong", 2);
    if kind == 0 {
        write_junk("./models/mock/bad.ot");
    }
    let bad = PathBuf::from("./models/mock/bad.ot");
    ensures!("an unreadable or missing model file is an error", panics(|| {
        az_from(Some(PathBuf::from("./models/mock/bad.ot")));
    }));
    ensures!("an unreadable or missing model file is an error for a network, too", panics(|| {
        ResNet::from_path::<Mock>(&PathBuf::from("./models/mock/bad.ot"));
    }));
    if kind == 0 {
        write_junk("./models/mock/best_model.ot");
        ensures!("an unreadable best model is an error", panics(|| {
            az_from(None);
        }));
    }
    // a network of another shape
    let other: ResNet = ResNet::new::<Wide>(VarStore::new(Device::Cpu));
    other.vs.save("./models/mock/other.ot").unwrap();
    ensures!("a mismatching model file is an error", panics(|| {
        az_from(Some(PathBuf::from("./models/mock/other.ot")));
    }));
    ensures!("a mismatching model file is an error for a network, too", panics(|| {
        ResNet::from_path::<Mock>(&PathBuf::from("./models/mock/other.ot"));
    }));
}

/// harness: prop=P24 mode=paths game=Mock
pub fn p24_trained_model(src: &mut Src) {
    fresh_dir();
    let mut az = any_az(1, 3, 1, 2);
    let before = twin(&az.model);
    let samples = any_samples(src, 2);
    let mut memory: Vec<MemoryFragment> = samples.iter().map(|m| copy_of(m)).collect();
    az.train(&mut memory);
    ensures!("training changes the network", !same_network(&az.model, &before));
    az.save_current_model(Path::new("./models/mock/best_model.ot")).unwrap();
    let next = az_from(None);
    ensures!("the trained best model is the network of the next run", same_network(&next.model, &az.model));
}
