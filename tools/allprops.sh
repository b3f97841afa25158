#!/bin/bash
# development aid: verify every property's contracts (no harness); prints one line per property
cd /verif
for c in ${@:-$(grep -ho '^prop C[0-9]*\|^table.* C[0-9]*:' specs/*.gvc | grep -o 'C[0-9]*' | sort -u)}; do
  s=$(date +%s.%N); T=600 ./dev.sh -prop $c >/tmp/ap_$c.out 2>&1
  printf "%s ok=%s fail=%s %.0fs\n" $c $(grep -ac '^OK' /tmp/ap_$c.out) $(grep -ac '^FAIL\|^UNSUP\|^TIME\|^SPEC\|^MISS' /tmp/ap_$c.out) $(echo "$(date +%s.%N)-$s"|bc)
  grep -a '^[A-Z][A-Z]* ' /tmp/ap_$c.out | grep -v '^OK' | cut -c1-200
done
