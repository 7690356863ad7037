// natively the commands go through the program's own argument parser

fn cli_run<T: LearnableGame>(words: Vec<(&str, Option<&str>)>, command: &str, conf: &Config) {
    let mut v = vec!["die-e".to_string(), "--game".to_string(), "tic-tac-toe".to_string(), command.to_string()];
    for (k, x) in words {
        if let Some(x) = x {
            v.push(format!("--{}", k));
            v.push(x.to_string());
        }
    }
    let args = match Args::try_parse_from(v) {
        Ok(a) => a,
        Err(e) => std::panic!("arguments: {}", e),
    };
    handle_command::<T>(args.command, conf)
}

pub fn cli_train<T: LearnableGame>(model: Option<&str>, out: Option<&str>, run: Option<&str>, learn: Option<&str>, self_play: Option<&str>, conf: &Config) {
    cli_run::<T>(vec![("model-path", model), ("out-path", out), ("run-id", run), ("learn", learn), ("self-play", self_play)], "train", conf)
}

pub fn cli_play<T: LearnableGame>(one: Option<&str>, model_one: Option<&str>, two: Option<&str>, model_two: Option<&str>, out: Option<&str>, conf: &Config) {
    cli_run::<T>(vec![("agent-one", one), ("model-path-one", model_one), ("agent-two", two), ("model-path-two", model_two), ("output-path", out)], "play", conf)
}

pub fn cli_learn<T: LearnableGame>(model: Option<&str>, conf: &Config) {
    cli_run::<T>(vec![("model-path", model)], "learn", conf)
}
