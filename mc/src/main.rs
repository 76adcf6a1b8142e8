mod base;
mod books;
mod engine;
mod fixed;
mod hist;
mod more;
mod refuse;
mod refm;
mod stmts;
mod store;
mod edge;
mod wide;
use engine::*;

fn prop(id: &str, t: bool) -> Option<Prop> {
    let mut p = match id {
        "B01" => base::b01(t),
        "B02" => base::b02(t),
        "B03" => base::b03(t),
        "B04" => base::b04(t),
        "B05" => base::b05(t),
        "B06" => base::b06(t),
        "B07" => base::b07(t),
        "B08" => base::b08(t),
        "B09" => base::b09(t),
        "B10" => hist::b10(t),
        "S01" => stmts::s01(t),
        "S02" => stmts::s02(t),
        "S03" => stmts::s03(t),
        "S04" => stmts::s04(t),
        "S05" => stmts::s05(t),
        "S06" => stmts::s06(t),
        "S07" => stmts::s07(t),
        "S08" => stmts::s08(t),
        "S09" => stmts::s09(t),
        "S10" => books::s10(t),
        "S11" => stmts::s11(t),
        "S12" => books::s12(t),
        "S13" => books::s13(t),
        "S14" => books::s14(t),
        "S15" => books::s15(t),
        "S16" => books::s16(t),
        "S17" => store::s17(t),
        "S18" => store::s18(t),
        "S19" => stmts::s19(t),
        "S20" => refuse::s20(t),
        "B11" => base::b11(t),
        "F01" => fixed::f01(t),
        "F02" => fixed::f02(t),
        "F03" => fixed::f03(t),
        "F04" => fixed::f04(t),
        "F05" => fixed::f05(t),
        "F06" => fixed::f06(t),
        "F07" => fixed::f07(t),
        "F08" => fixed::f08(t),
        "F09" => fixed::f09(t),
        "F10" => fixed::f10(t),
        _ => return None,
    };
    p.tasks.extend(more::extra(id, t));
    p.tasks.extend(wide::extra(id, t));
    p.tasks.extend(edge::extra(id, t));
    Some(p)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("MC_SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("b10-child") => {
            hist::child(&args[2]);
            0
        }
        Some("b10-args") => {
            hist::child_args(&args[2]);
            0
        }
        Some("replay") => {
            let file = &args[2];
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
            let t = v["tier"].as_str().map(|x| x == "thorough").unwrap_or(thorough);
            replay(&prop(v["property"].as_str().unwrap(), t).expect("property"), file)
        }
        Some(id) => match prop(id, thorough) {
            Some(p) => run(p, tier, args.get(2).map(|s| s.as_str())),
            None => {
                println!("unknown property {id}");
                2
            }
        },
        None => 2,
    };
    std::process::exit(rc);
}
