//! K01: every place that turns text into an EVM hash or selector agrees with Keccak-256.
use kit::serde_json::json;
use kit::Check;
include!(concat!(env!("OUT_DIR"), "/cases.rs"));

/// Keccak-256, written out from the specification.
fn keccak(data: &[u8]) -> [u8; 32] {
    let mut s = [[0u64; 5]; 5];
    let mut msg = data.to_vec();
    msg.push(1);
    while msg.len() % 136 != 0 { msg.push(0) }
    *msg.last_mut().unwrap() |= 0x80;
    for block in msg.chunks(136) {
        for (i, w) in block.chunks(8).enumerate() { s[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap()) }
        let mut lfsr: u8 = 1;
        for _ in 0..24 {
            let c: Vec<u64> = (0..5).map(|x| s[x].iter().fold(0, |a, b| a ^ b)).collect();
            for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { s[x][y] ^= d } }
            let (mut x, mut y, mut cur) = (1, 0, s[1][0]);
            for t in 0..24u32 {
                let (nx, ny) = (y, (2 * x + 3 * y) % 5);
                x = nx;
                y = ny;
                let tmp = s[x][y];
                s[x][y] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
                cur = tmp;
            }
            for y in 0..5 { let r: Vec<u64> = (0..5).map(|x| s[x][y]).collect(); for x in 0..5 { s[x][y] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]) } }
            for j in 0..7 { if lfsr & 1 == 1 { s[0][0] ^= 1u64 << ((1u32 << j) - 1) } lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 } }
        }
    }
    let mut out = [0u8; 32];
    for i in 0..4 { out[i * 8..i * 8 + 8].copy_from_slice(&s[i][0].to_le_bytes()) }
    out
}
fn main() {
    let c = Check::new("K01");
    assert_eq!(u32::from_be_bytes(keccak(b"transfer(address,uint256)")[..4].try_into().unwrap()), 0xa9059cbb);
    let bad = |key: &str, s: &str, got: String, want: String| c.violation(key, format!("{key}: {s:?}: {got}, Keccak-256 gives {want}"), json!({"input": s, "got": got, "want": want}));
    for (s, p, a) in HASHES {
        let w = keccak(s.as_bytes());
        if *p != w { bad("precompile keccak256!", s, format!("{p:?}"), format!("{w:?}")) }
        if **a != w { bad("evm-utility keccak256!", s, format!("{a:?}"), format!("{w:?}")) }
        c.add_states(1);
        c.add_transitions(2);
        c.add_traces(2);
    }
    for (s, a) in selectors() {
        let w = u32::from_be_bytes(keccak(s.as_bytes())[..4].try_into().unwrap());
        if a != w { bad("evm-utility selector", s, a.to_string(), w.to_string()) }
        c.add_states(1);
        c.add_transitions(1);
        c.add_traces(1);
        c.sample(json!({"signature": s, "selector": format!("{a:#010x}")}));
    }
    // run-time helpers: every string over the alphabet up to the depth
    let alpha: Vec<char> = if c.thorough { (0x20u8..0x7f).map(|x| x as char).collect() } else { "abcxyzABXYZ0189_(),[] ".chars().collect() };
    let mut layer = vec![String::new()];
    for depth in 0..=3 {
        for s in &layer {
            let w = keccak(s.as_bytes());
            let h = module_evm_utility::sha3_256(s);
            if h != w { bad("sha3_256", s, format!("{h:?}"), format!("{w:?}")) }
            let f = module_evm_utility::get_function_selector(s);
            let g = u32::from_be_bytes(w[..4].try_into().unwrap());
            if f != g { bad("get_function_selector", s, f.to_string(), g.to_string()) }
            if c.stop() { c.finish() }
        }
        c.add_states(layer.len() as u64);
        c.add_transitions(2 * layer.len() as u64);
        c.add_traces(2 * layer.len() as u64);
        if depth < 3 { layer = layer.iter().flat_map(|s| alpha.iter().map(move |a| format!("{s}{a}"))).collect() }
    }
    // and lengths across several sponge blocks
    for len in 0..c.pick(1200usize, 8000) {
        let s: String = (0..len).map(|i| (33 + ((i * i + len * 5) % 90) as u8) as char).collect();
        let (w, h) = (keccak(s.as_bytes()), module_evm_utility::sha3_256(&s));
        if h != w { bad("sha3_256", &s, format!("{h:?}"), format!("{w:?}")) }
        if module_evm_utility::get_function_selector(&s).to_be_bytes() != w[..4] { bad("get_function_selector", &s, String::new(), format!("{w:?}")) }
        c.add_states(1);
        c.add_transitions(2);
        c.add_traces(2);
    }
    c.section("bounds", json!({"compile_time_strings": HASHES.len(), "alphabet": alpha.len(), "depth": 3}));
    c.finish()
}
