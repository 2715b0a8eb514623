#!/bin/bash
# Runs every quick check, prints verdicts, times and the memory in use at most (GB). Not a registered command.
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import props; print(*props.PROPS)")}; do
  s=$(date +%s); python3 check.py $p --tier quick > build/run-$p.txt 2>&1 & pid=$!
  m=0; while kill -0 $pid 2>/dev/null; do u=$(free -m | awk 'NR==2{print $3}'); [ $u -gt $m ] && m=$u; sleep 1; done
  wait $pid; c=$?
  echo "$p exit=$c $(( $(date +%s) - s ))s $(( m / 1024 ))GB $(grep -c KNOWN-FINDING build/run-$p.txt) known $(grep VIOLATION build/run-$p.txt | head -2)"
done
