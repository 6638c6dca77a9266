#!/bin/bash
# negatives.sh: the invariants that a design model has to violate, each must be reported by TLC.
cd "$(dirname "$0")/../spec" || exit 2
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
rc=0
neg() { # module invariant policy
	sed -e "s/^INVARIANT.*/INVARIANT $2/" -e "s/^CONSTANTS Policies = .*/CONSTANTS Policies = {\"$3\"}/" "$1.cfg" > "$d/$2.cfg"
	if java -Djava.io.tmpdir="$d" -Xmx4g -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
		tlc2.TLC -noGenerateSpecTE -metadir "$d/m" -workers 4 -config "$d/$2.cfg" "$1.tla" | grep -q "Invariant $2 is violated"
	then echo "$1 $2: violated, as it has to be"; else echo "$1 $2: NOT violated"; rc=1; fi
	rm -rf "$d/m"
}
neg MC_Isolation DefaultUnnoticed default
neg MC_Isolation InputUnnoticed input
neg MC_Isolation AgainUnnoticed again
exit $rc
