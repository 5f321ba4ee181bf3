#!/bin/bash
# devall PROP : all contracts in parallel, condensed
cd /verif
grep -o "^def [a-z_0-9A-Z]*(E)" contracts/$(echo $1|tr A-Z a-z).py | sed 's/def //;s/(E)//' | grep -E "${2:-.}" | xargs -P 6 -I{} tools/dev.sh $1 {} 
