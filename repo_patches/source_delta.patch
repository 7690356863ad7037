From adbd341780d4f1738a4ba75aa73ab30899703059 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 01/12] fix: bear off with a larger die only when no own
 checker is further from home

The test summed all checkers on the points behind, so opposing checkers there
could hide the mover's own and an illegal bearing off was offered.
---
 src/backgammon/backgammon_logic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 51227fd..2cb6835 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -571,8 +571,8 @@ impl Backgammon {
                 for m_idx in (0..point).rev() {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[m_idx_usize + 1..6].iter().sum();
-                    if n_pieces_on_point < 0 && left_sum >= 0 {
+                    let none_behind = board[m_idx_usize + 1..6].iter().all(|n| *n >= 0);
+                    if n_pieces_on_point < 0 && none_behind {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
@@ -588,8 +588,8 @@ impl Backgammon {
                 for m_idx in point..=23 {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[18..m_idx_usize].iter().sum();
-                    if n_pieces_on_point > 0 && left_sum <= 0 {
+                    let none_behind = board[18..m_idx_usize].iter().all(|n| *n <= 0);
+                    if n_pieces_on_point > 0 && none_behind {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
-- 
2.43.0


From 53070fa7d94b36ebc9f336cf9feaee3e9d994424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 02/12] fix: plain search plays out from a position without a
 legal move instead of panicking

---
 src/mcts/simple_mcts.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index d8c2210..8c966c2 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,6 +27,10 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
+            backpropagate(selected_node_idx, value, &mut store)
+        } else if selected_node.is_fully_expanded() {
+            // No legal move here, the player to move can only pass
+            let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
             backpropagate(selected_node_idx, value, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
-- 
2.43.0


From 480901e791210b95f9790cfbfb989ccb9daeed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 03/12] fix: a playout stops at the end of the simulated game,
 not of the node it started from

---
 src/mcts/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index e3d91a7..598cfed 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -178,7 +178,7 @@ impl <T: LearnableGame> Node<T>{
         let mut curr_state = self.state;
 
         for _ in 0..sim_limit {
-            if let Some(winner) = self.state.check_winner() {
+            if let Some(winner) = curr_state.check_winner() {
                 return if winner == player {1.}
                 else if winner == -player {-1.}
                 else {0.};
-- 
2.43.0


From cce565bd45378a3267f463edb745bbdb30772432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 04/12] fix: alpha_mcts takes the single policy row of the
 batch and values terminal leaves by their own result

---
 src/mcts/alpha_mcts.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 981da3c..998b99d 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -35,7 +35,7 @@ fn select_alpha<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>, c: f32)
 pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut NodeStore<T>, net: &ResNet, state: &impl LearnableGame, mcts_config: &MctsConfig) {
     let mut root_node = store.get_node(root_idx);
     
-    let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false);
+    let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false).get(0);
 
     let policy_vec = turn_policy_to_probs(&policy, &root_node);
     root_node.alpha_expand(store, policy_vec);
@@ -69,14 +69,16 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
 
-        let value = if !selected_node.is_terminal() {
+        let value = if let Some(winner) = selected_node.state.check_winner() {
+            if winner == state.get_player() {1.}
+            else if winner == -state.get_player() {-1.}
+            else {0.}
+        } else {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
-            let policy_vec = turn_policy_to_probs(&policy, &selected_node);
+            let policy_vec = turn_policy_to_probs(&policy.get(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
             eval.double_value(&[0]) as f32
-        } else {
-            ((state.check_winner().unwrap() + 1) / 2) as f32
         };
 
         backpropagate(idx, value, &mut store);
-- 
2.43.0


From a9a6a410cec058bd45ae19ab741a0967df67f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 05/12] fix: alpha_mcts_parallel evaluates only the leaves
 selected in the current iteration

---
 src/mcts/alpha_mcts.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 998b99d..d568327 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -140,17 +140,14 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
     */
     let games: HashSet<usize> = HashSet::from_iter(0..states.len());
 
-    // Game id to node idx mapping
-    let mut selected_nodes_idxs = vec![0; states.len()];
-
     let pb = match pb {
         Some(p) => p,
         None => ProgressBar::new(mcts_config.iterations as u64)
     };
 
     for _ in 0..mcts_config.iterations {
-        // Clear selected node indices
-        let mut node_selected = false;
+        // Nodes selected in this iteration, games whose leaf is terminal have none
+        let mut selected_nodes_idxs: Vec<usize> = vec![];
         pb.inc(1);
         for &game_idx in games.iter() {
             let idx = alpha_select_leaf_node(game_idx, store, mcts_config.c);
@@ -164,12 +161,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                node_selected = true;
-                selected_nodes_idxs[game_idx] = selected_node.idx;
+                selected_nodes_idxs.push(selected_node.idx);
             }
         }
 
-        if !node_selected {
+        if selected_nodes_idxs.is_empty() {
             continue;
         }
             
-- 
2.43.0


From d394a73c28a530a8a30c3d606863076188ccc8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:22 +0000
Subject: [PATCH 06/12] fix: a self-play game that reached the round limit is
 recorded once and not played on

---
 src/alphazero/alpha_parallel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index b47783e..64e246c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -177,6 +177,7 @@ impl AlphaZero {
                     });
                     all_memories.extend(curr_memory);
                     states_to_remove.push(*init_idx);
+                    continue;
                 }
 
                 // If prob tensor of the current state is all zeros then skip turn, has_children check just in case
-- 
2.43.0


From 1a3850e161cdecf3bff29213d6103a78383d1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 07/12] fix: a drawn self-play game is labelled 0, not a loss
 for both sides

---
 src/alphazero/alpha_no_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 5478b59..248ea1d 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -73,7 +73,7 @@ impl AlphaZero {
                 return memory
                     .iter()
                     .map(|mem| MemoryFragment {
-                        outcome: if mem.outcome == winner { 1 } else { -1 },
+                        outcome: if mem.outcome == winner { 1 } else if mem.outcome == -winner { -1 } else { 0 },
                         ps: mem.ps.shallow_clone(),
                         state: mem.state.shallow_clone(),
                     })
-- 
2.43.0


From 406eb1a92b056be37ada37cbd63fe8f530df06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 08/12] fix: load_training_data keeps the sample dimension of a
 single sample

---
 src/alphazero/alphazero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index a49edcc..7cc02af 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -185,9 +185,9 @@ impl AlphaZero {
         if !path.exists() {
             panic!("path: {} does not exist!", path.to_str().unwrap())
         }
-        let ps = Tensor::load(path.join("ps.ot")).unwrap().squeeze();
-        let states = Tensor::load(path.join("states.ot")).unwrap().squeeze();
-        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap().squeeze();
+        let ps = Tensor::load(path.join("ps.ot")).unwrap();
+        let states = Tensor::load(path.join("states.ot")).unwrap();
+        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
         (0..data_size).map(|data_idx| {
-- 
2.43.0


From e96244bb68bfbe8d22b032ab5951a3d75e555e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 09/12] fix: create the network before loading its weights, so
 that they are loaded

---
 src/alphazero/alphazero.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 7cc02af..f62dc0d 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -79,19 +79,19 @@ torch.optim.Adam(params, lr=0.001, betas=(0.9, 0.999), eps=1e-08, weight_decay=0
 
 impl AlphaZero {
     pub fn new<T: LearnableGame>(model_path: Option<PathBuf>, config: AlphaZeroConfig, mcts_config: MctsConfig, op: OptimizerParams) -> Self {
-        let mut vs = nn::VarStore::new(*DEVICE);
+        let mut model = ResNet::new::<T>(nn::VarStore::new(*DEVICE));
 
         println!("Initializing AlphaZero...\nDevice: {:?}\n{:?}\n{:?}", *DEVICE, &config, mcts_config);
 
         match model_path {
-            Some(m_path) => match vs.load(&m_path) {
+            Some(m_path) => match model.vs.load(&m_path) {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
             None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
-                match vs.load(bm_path) {
+                match model.vs.load(bm_path) {
                     Ok(_) => println!("Successfully loaded best model"),
                     Err(e) => panic!("failed to load best model: {}", e),
                 }
@@ -99,10 +99,10 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
-        let opt = Adam::default().wd(op.wd).build(&vs, op.lr).unwrap();
+        let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-            model: ResNet::new::<T>(vs),
+            model,
             optimizer: opt,
             config,
             mcts_config,
-- 
2.43.0


From 7fee1d57636ccf7b910c4a254e9982b120e601c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 10/12] fix: the round limit of a match also ends a game in
 which both sides can only pass

---
 src/versus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index 38edd1f..b80b0b9 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -222,11 +222,10 @@ pub fn play<T: LearnableGame>(player1: Player, player2: Player, mcts_config: &Mc
 
             if action.eq(&T::EMPTY_MOVE) {
                 game_mut.skip_turn();
-                continue;
+            } else {
+                assert!(game_mut.get_valid_moves().contains(action));
+                game_mut.apply_move(action);
             }
-            assert!(game_mut.get_valid_moves().contains(action));
-
-            game_mut.apply_move(action);
 
             let winner = match game_mut.check_winner() {
                 Some(winner) => Some(winner),
-- 
2.43.0


From aa4153c4916894c0503ba97cbe150e618fecc1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:45 +0000
Subject: [PATCH 11/12] fix: train on a requested self-play directory, and on
 runs whose id contains "sp"

---
 src/main.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 66eda67..ae237e5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -217,15 +217,14 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
 fn get_all_paths_rec(dir: &Path, res: &mut Vec<PathBuf>) -> io::Result<()> {
     if dir.is_dir() {
+        // Self play directories are named sp-x, run ids can be any text
+        if dir.file_name().unwrap().to_str().unwrap().starts_with("sp-") {
+            res.push(dir.to_path_buf());
+            return Ok(());
+        }
         for entry in fs::read_dir(dir)? {
-            let entry = entry?;
-            let path = entry.path();
-            if path.file_name().unwrap().to_str().unwrap().contains("sp") {
-                res.push(path);
-            } else {
-                get_all_paths_rec(&path, res)?;
-            }
+            get_all_paths_rec(&entry?.path(), res)?;
         }
     }
     Ok(())
-}
+}
\ No newline at end of file
-- 
2.43.0


From ac3cbcc46d8ac2165af82dc5e085dc2930576c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:49 +0000
Subject: [PATCH 12/12] fix: exploration noise of a small concentration could
 be no distribution at all

---
 src/mcts/noise.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mcts/noise.rs b/src/mcts/noise.rs
index 3376a45..316502d 100644
--- a/src/mcts/noise.rs
+++ b/src/mcts/noise.rs
@@ -1,4 +1,4 @@
-use rand::thread_rng;
+use rand::{thread_rng, Rng};
 use rand_distr::{Dirichlet, Distribution};
 use tch::Tensor;
 
@@ -13,7 +13,7 @@ impl <T: LearnableGame> Node <T> {
             "unable to apply dirichlet, node has no visits!"
         );
         let dirichlet = Dirichlet::new(&vec![alpha; self.children.len()]).unwrap();
-        let sample = dirichlet.sample(&mut thread_rng());
+        let sample = finite_noise(dirichlet.sample(&mut thread_rng()));
         for (child_idx, noise) in self.children.iter().zip(sample) {
             let child = store.get_node_as_mut(*child_idx);
             child.policy = noise * eps + child.policy * (1. - eps)
@@ -27,8 +27,21 @@ impl <T: LearnableGame> Node <T> {
 pub fn apply_dirichlet(tensor: &Tensor, alpha: f32, eps: f32) -> Tensor {
     let n_policies = tensor.size()[1] as usize;
     let dirichlet = Dirichlet::new(&vec![alpha; n_policies]).unwrap();
-    let diriclet_tensor = Tensor::from_slice(&dirichlet.sample(&mut thread_rng()))
+    let diriclet_tensor = Tensor::from_slice(&finite_noise(dirichlet.sample(&mut thread_rng())))
         .to_device_(*DEVICE, DEFAULT_TYPE, false, false)
         .unsqueeze(0);
     (1. - eps) * tensor + eps * diriclet_tensor
 }
+
+/*
+    With a small concentration all draws behind a sample can underflow, which leaves nothing to normalise.
+    Such a sample has all of its weight on one move
+*/
+fn finite_noise(sample: Vec<f32>) -> Vec<f32> {
+    if sample.iter().all(|noise| noise.is_finite()) {
+        return sample;
+    }
+    let mut noise = vec![0.; sample.len()];
+    noise[thread_rng().gen_range(0..sample.len())] = 1.;
+    noise
+}
-- 
2.43.0

