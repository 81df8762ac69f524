# cargo build -p $1, concise errors
cd /verif/mc && . ./env.sh && cargo ${3:-build} --offline -p $1 --message-format short 2>&1 | grep -E "error" | sed 's/error: could not compile.*//' | cut -c1-230 | head -${2:-14}
