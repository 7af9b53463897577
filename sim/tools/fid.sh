#!/bin/bash
# Runs the repository's own pallet unit tests on the stand-in substrate (fidelity check of the stand-in).
cd /verif/sim
for d in wrap/*; do c=$(basename $d); case $c in ethy-gadget) continue;; esac
[ -n "$1" ] && [[ ! "$c" =~ $1 ]] && continue
timeout 900 cargo +stable --offline test -p $c --lib >/tmp/t_$c.log 2>&1; echo "$c $(grep -E '^test result' /tmp/t_$c.log | head -1 | cut -c1-60) errs=$(grep -cE '^error' /tmp/t_$c.log)"; done
