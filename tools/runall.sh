cd /verif
for p in $(ls harness | grep '^c[0-9]' | tr a-z A-Z); do
 [ -n "$(ls harness/$(echo $p|tr A-Z a-z)/*.go 2>/dev/null)" ] || continue
 s=$(date +%s); ./check $p ${1:-quick} > /tmp/run_$p.log 2>&1; rc=$?; e=$(date +%s)
 echo "$p rc=$rc $((e-s))s $(tail -1 /tmp/run_$p.log | cut -c1-220)"
done
