//! Bounded exhaustive exploration of toon_rust.  `mc <property> <quick|thorough>`
mod alloc;
mod checks;
mod engine;
mod gen_docs;
mod gen_values;
mod model;
mod real;
mod step;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    if let Some(code) = checks::install::stand_in() {
        std::process::exit(code);
    }
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).map_or("", String::as_str).to_string();
    if id == "C16" && a.get(2).is_some_and(|x| x == "op") {
        return checks::history::op_in_process(a[3].parse().unwrap());
    }
    if id == "C16" && a.get(2).is_some_and(|x| x == "step") {
        return checks::history::step_in_process(&a[3..]);
    }
    if id == "C26" && a.get(2).is_some_and(|x| x == "measure") {
        return checks::work::measure(&a[3..]);
    }
    let thorough = a.get(2).is_some_and(|t| t == "thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = engine::known_findings(&id);
    let ctx = engine::Ctx::new(&id, thorough, seed, known);
    match id.as_str() {
        "C01" => checks::values::c01(&ctx),
        "C02" => checks::values::c02(&ctx),
        "C03" => checks::docs::c03(&ctx),
        "C04" => checks::docs::c04(&ctx),
        "C05" => checks::docs::c05(&ctx),
        "C06" => checks::nopanic::c06(&ctx),
        "C07" => checks::fold::c07(&ctx),
        "C08" => checks::docs::c08(&ctx),
        "C09" => checks::docs::c09(&ctx),
        "C10" => checks::stream::c10(&ctx),
        "C11" => checks::events::c11(&ctx),
        "C12" => checks::events::c12(&ctx),
        "C13" => checks::events::c13(&ctx),
        "C14" => checks::strings::c14(&ctx),
        "C15" => checks::strings::c15(&ctx),
        "C16" => checks::history::c16(&ctx),
        "C18" => checks::cli::c18(&ctx),
        "C19" => checks::cli::c19(&ctx),
        "C17" => checks::entry::c17(&ctx),
        "C24" => checks::js::c24(&ctx),
        "C25" => checks::jsontext::c25(&ctx),
        "C26" => checks::work::c26(&ctx),
        "C27" => checks::install::c27(&ctx),
        "C20" => checks::docs::c20(&ctx),
        "C21" => checks::docs::c21(&ctx),
        "C22" => checks::docs::c22(&ctx),
        "C23" => checks::docs::c23(&ctx),
        _ => {
            eprintln!("usage: mc C01..C27 quick|thorough");
            std::process::exit(3);
        }
    }
    ctx.finish_and_exit();
}
