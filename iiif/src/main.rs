mod parse;
mod path;
mod serve;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|s| s.as_str()) == Some("decode-server") {
        return path::decode_server();
    }
    let tier = mck::tier_from_env();
    let c = match a.first().map(|s| s.as_str()) {
        Some("C01") => parse::c01(tier),
        Some("C02") => parse::c02(tier),
        Some("C03") => parse::c03(tier),
        Some("C04") => path::c04(tier),
        Some("C05") => serve::c05(tier),
        Some("C06") => serve::c06(tier),
        Some("C07") => serve::c07(tier),
        _ => {
            eprintln!("usage: iiifmc C01..C07 [--replay FILE]");
            std::process::exit(3);
        }
    };
    let replay = a.iter().position(|x| x == "--replay").and_then(|k| a.get(k + 1)).map(|s| s.as_str());
    std::process::exit(mck::run_check(c, tier, replay));
}
