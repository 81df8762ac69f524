use kit::Check;
fn main() {
    let p = std::env::args().nth(1).expect("property id");
    let c = Check::new(&p);
    match p.as_str() {
        "N01" => mcmath::xyk::trade(&c),
        "N02" => mcmath::xyk::liquidity(&c),
        "N03" => mcmath::lbp::weights(&c),
        "N04" => mcmath::lbp::trade(&c),
        "N05" => mcmath::omnipool::trade(&c),
        "N06" => mcmath::omnipool::liquidity(&c),
        "N07" => mcmath::omnipool::caps(&c),
        "N08" => mcmath::stableswap::trade(&c),
        "N09" => mcmath::stableswap::shares(&c),
        "N10" => mcmath::spot::ramp(&c),
        "N11" => mcmath::spot::spot(&c),
        "N12" => mcmath::num::transcendental(&c),
        "N13" => mcmath::num::rational(&c),
        "N14" => mcmath::num::ema_numerics(&c),
        "N19" => mcmath::num::fractions(&c),
        "N15" => mcmath::misc::dynamic(&c),
        "N16" => mcmath::misc::stake(&c),
        "N17" => mcmath::misc::mining(&c),
        "N18" => mcmath::misc::rate(&c),
        "N20" => mcmath::misc::subpools(&c),
        _ => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    c.finish()
}
