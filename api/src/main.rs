mod accuracy;
mod building;
mod callbacks;
mod control;
mod domain;
mod drive;
mod driving;
mod economy;
mod exact;
mod horizon;
mod mesh;
mod newton;
mod singular;
mod steps;
mod symmetry;
use engine::runner::Env;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut env = Env::from_env();
    let id = args.get(1).cloned().unwrap_or_default();
    if let Some(p) = args.get(2) {
        env.replay = Some(p.into());
    }
    let code = match id.as_str() {
        "C01" => accuracy::c01(&env),
        "C02" => accuracy::c02(&env),
        "C03" => steps::c03(&env),
        "C04" => steps::c04(&env),
        "C05" => mesh::c05(&env),
        "C06" => mesh::c06(&env),
        "C07" => mesh::c07(&env),
        "C08" => driving::c08(&env),
        "C09" => driving::c09(&env),
        "C10" => symmetry::c10(&env),
        "C11" => symmetry::c11(&env),
        "C12" => symmetry::c12(&env),
        "C13" => callbacks::c13(&env),
        "C14" => economy::c14(&env),
        "C19" => economy::c19(&env),
        "C20" => economy::c20(&env),
        "C22" => economy::c22(&env),
        "C21" => building::c21(&env),
        "C23" => control::c23(&env),
        "C24" => control::c24(&env),
        "C27" => newton::c27(&env),
        "C26" => callbacks::c26(&env),
        "C28" => singular::c28(&env),
        "C29" => exact::c29(&env),
        "C30" => exact::c30(&env),
        "C31" => horizon::c31(&env),
        "C32" => domain::c32(&env),
        "C25" => control::c25(&env),
        _ => {
            eprintln!("ERROR: unknown check {}", id);
            3
        }
    };
    std::process::exit(code);
}
