# px.sh <crate> [args]: build release and run one checker, short output
rm -f /verif/target/release/$1; . /verif/mc/env.sh; cd /verif/mc; python3 fresh.py /verif/target; cargo build --release --offline -q -p $1 2>&1 | grep -E "^error" -A6 | head -30; shift_=$1; shift
RUST_BACKTRACE=0 VERIF_DIR=/verif MC_CAP=${MC_CAP:-120} /verif/target/release/$shift_ "$@" | cut -c1-${W:-420} | head -${N:-12}
