mod calls;
mod ht;
mod httab;
mod code;
mod dec;
mod lay;
mod layers;
mod meta;
mod refenc;
mod conf;
mod driver;
mod info;
mod irrev;
mod jp2box;
mod refj2k;
mod streams;
mod truncate;
mod corrupt;
mod tilewise;
mod views;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let tier = mck::tier_from_env();
    let c = match a.first().map(|s| s.as_str()) {
        Some("C10") => code::c10(tier),
        Some("C11") => code::c11(tier),
        Some("C12") => dec::c12(tier),
        Some("C13") => views::c13(tier),
        Some("C14") => views::c14(tier),
        Some("C15") => views::c15(tier),
        Some("C16") => views::c16(tier),
        Some("C17") => layers::c17(tier),
        Some("C18") => streams::c18(tier),
        Some("C19") => streams::c19(tier),
        Some("C20") => truncate::c20(tier),
        Some("C21") => corrupt::c21(tier),
        Some("C22") => calls::c22(tier),
        Some("C25") => irrev::c25(tier),
        Some("C26") => irrev::c26(tier),
        Some("C27") => tilewise::c27(tier),
        Some("C23") => meta::c23(tier),
        Some("C28") => ht::c28(tier),
        Some("C24") => info::c24(tier),
        _ => {
            eprintln!("usage: jp2mc C10..C28 [--replay FILE]");
            std::process::exit(3);
        }
    };
    
    let replay = a.iter().position(|x| x == "--replay").and_then(|k| a.get(k + 1)).map(|s| s.as_str());
    std::process::exit(mck::run_check(c, tier, replay));
}
