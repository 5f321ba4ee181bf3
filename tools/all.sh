#!/bin/bash
# tools/all.sh C01 C02 ... : run checks writing the ledger, condensed output
cd /verif
for p in "$@"; do DGA_NO_EVIDENCE=${EV:-1} ./check.sh $p quick --write-ledger > /tmp/all_$p.txt 2>&1; grep -v " ok [0-9]* proved\|^note" /tmp/all_$p.txt | cut -c1-${W:-400}; done
