# rn.sh HARNESS DEADLINE [options]: unique violations of a harness. R: the repository (default /tmp/r2 or /repo)
h=$1; dl=${2:-100s}; shift; shift
timeout 900 nice /verif/bin/gosym run -repo ${R:-/tmp/r2} -h $h -deadline $dl "$@" > /tmp/o/$h 2>&1
head -3 /tmp/o/$h | tail -2 | cut -c1-200
awk '/   VIOL/{v=$0} /      notes/{n=$0} /      inputs/{i=$0; print n " | " substr(v,20,70) }' /tmp/o/$h | sort | uniq -c | sort -rn | cut -c1-170 | head -${N:-12}
