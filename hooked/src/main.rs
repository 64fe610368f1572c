#[path = "../../api/src/drive.rs"]
mod drive;
#[path = "../../api/src/steps.rs"]
mod steps;
mod cplx;
mod dense;
mod deriv;
mod lin;
use engine::runner::Env;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut env = Env::from_env();
    let id = args.get(1).cloned().unwrap_or_default();
    if let Some(p) = args.get(2) {
        env.replay = Some(p.into());
    }
    let code = match id.as_str() {
        "C15" => deriv::c15(&env),
        "C16" => lin::c16(&env),
        "C17" => lin::c17(&env),
        "C18" => dense::c18(&env),
        _ => {
            eprintln!("ERROR: unknown check {}", id);
            3
        }
    };
    std::process::exit(code);
}
