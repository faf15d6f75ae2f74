#!/bin/sh
# list the functions of a unit that have no contract, as of now: verus/units/UNIT.known;
# and the order of the numbered closures and loops: verus/units/UNIT.base.json
cd "$(dirname "$0")/.." || exit 2
for u in "$@"; do rm -f /verif/verus/units/$u.known /verif/verus/units/$u.base.json; python3 vlib/vrun.py $u -q -u -b 2>/dev/null | sed -n '/^unknown/,/^notes/p' | grep '::' > verus/units/$u.known; wc -l verus/units/$u.known; done
