//! How the contracts reach the command line: the commands as the program's argument parser hands them over.
//! (The native runs go through the argument parser itself, see native/src/cli_glue.rs.)
use die_e::base::LearnableGame;
use std::path::PathBuf;

pub fn cli_train<T: LearnableGame>(model: Option<&str>, out: Option<&str>, run: Option<&str>, learn: Option<&str>, self_play: Option<&str>, conf: &Config) {
    handle_command::<T>(
        Commands::Train {
            model_path: model.map(|s| PathBuf::from(s)),
            out_path: out.map(|s| PathBuf::from(s)),
            run_id: run.map(|s| s.to_string()),
            learn: learn.map(|s| s.to_string()),
            self_play: self_play.map(|s| s.to_string()),
        },
        conf,
    )
}

pub fn cli_play<T: LearnableGame>(one: Option<&str>, model_one: Option<&str>, two: Option<&str>, model_two: Option<&str>, out: Option<&str>, conf: &Config) {
    handle_command::<T>(
        Commands::Play {
            agent_one: one.map(|s| s.to_string()),
            model_path_one: model_one.map(|s| PathBuf::from(s)),
            agent_two: two.map(|s| s.to_string()),
            model_path_two: model_two.map(|s| PathBuf::from(s)),
            output_path: out.map(|s| PathBuf::from(s)),
        },
        conf,
    )
}

pub fn cli_learn<T: LearnableGame>(model: Option<&str>, conf: &Config) {
    handle_command::<T>(Commands::Learn { model_path: model.map(|s| PathBuf::from(s)) }, conf)
}
