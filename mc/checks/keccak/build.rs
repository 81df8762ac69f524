//! Writes the programs to expand: every string of the bounded set, through every macro.
use std::fmt::Write;
fn main() {
    let mut strs: Vec<String> = vec![];
    for a in 0x20u8..0x7f { strs.push((a as char).to_string()) }
    for len in 0..=420usize { strs.push((0..len).map(|i| (b'a' + ((i * 7 + len) % 26) as u8) as char).collect()) }
    for a in "abyz09_(),[]".chars() { for b in "abyz09_(),[]".chars() { strs.push(format!("{a}{b}")) } }
    for s in ["é", "ß∂ƒ", "日本語", "🦀", "tab\tnl\nq\"bs\\", "nul\0x"] { strs.push(s.into()) }
    // solidity signatures
    let names = ["name", "symbol", "decimals", "totalSupply", "balanceOf", "allowance", "transfer", "approve", "transferFrom", "callPermit", "nonces", "DOMAIN_SEPARATOR", "dispatch", "a", "_x9"];
    let args = ["", "address", "address,uint256", "address,address,uint256", "uint8[]", "bytes", "(uint256,bytes)[]", "address,address,uint256,bytes,uint64,uint256,uint8,bytes32,bytes32", "string,bool,int128"];
    let mut sigs = vec![];
    for n in names { for a in args { sigs.push(format!("{n}({a})")) } }
    strs.extend(sigs.iter().cloned());
    let mut o = String::new();
    writeln!(o, "pub static HASHES: &[(&str, [u8; 32], &[u8; 32])] = &[").unwrap();
    for s in &strs { writeln!(o, "({s:?}, precompile_utils_macro::keccak256!({s:?}), module_evm_utility_macro::keccak256!({s:?})),").unwrap() }
    writeln!(o, "];").unwrap();
    // enums of 1..=24 variants from every starting point
    let mut tests = String::new();
    let mut k = 0;
    let mut i = 0;
    while i < sigs.len() {
        let n = 1 + k % 24;
        let vs: Vec<&String> = sigs[i..].iter().take(n).collect();
        for (m, name) in [("#[module_evm_utility_macro::generate_function_selector] #[derive(Debug, Clone, Copy, PartialEq)] #[repr(u32)]", "A")] {
            writeln!(o, "{m} #[allow(dead_code)] pub enum {name}{k} {{").unwrap();
            for (j, s) in vs.iter().enumerate() { writeln!(o, "V{j} = {s:?},").unwrap() }
            writeln!(o, "}}").unwrap();
        }
        for (j, s) in vs.iter().enumerate() {
            writeln!(tests, "({s:?}, A{k}::V{j} as u32),").unwrap();
        }
        i += n;
        k += 1;
    }
    writeln!(o, "pub fn selectors() -> Vec<(&'static str, u32)> {{ vec![{tests}] }}").unwrap();
    std::fs::write(format!("{}/cases.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
