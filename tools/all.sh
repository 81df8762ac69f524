# bash tools/all.sh: run every registered check (quick) and print exit codes
cd "$(dirname "$0")/.."; for i in $(cut -f1 checks.tsv); do s=$(date +%s); bash run.sh $i >/tmp/all.$i.log 2>&1; r=$?; echo "$i rc=$r $(( $(date +%s)-s ))s $(grep -c KNOWN-FINDING /tmp/all.$i.log)"; done
