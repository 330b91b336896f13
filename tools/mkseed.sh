# usage: mk.sh id prop "needs" "breaks"  (diff from /tmp/sb/repo, demo.cc body from stdin)
id=$1; d=/verif/seeded/$id; mkdir -p $d
python3 /verif/tools/seed.py new $id $2 | head -40
cat > $d/demo.cc
cat > $d/demo.sh <<'S'
#!/bin/bash
# cwd: the repository. Compiles the demonstration against its sources in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -w -O1 -I. -o "$t/demo" "$here/demo.cc" clpoly/variable.cc clpoly/polynomial_gcd.cc clpoly/upolynomial.cc clpoly/associatedgraph.cc clpoly/realroot.cc -lgmpxx -lgmp -lpthread || exit 3
timeout 120 "$t/demo"
S
python3 - "$@" <<'P'
import json,sys
id,p,n,b=sys.argv[1:5]
json.dump(dict(property=p,needs=n,what_it_breaks=b),open("/verif/seeded/%s/meta.json"%id,"w"),indent=1)
P
