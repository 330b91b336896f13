#!/bin/bash
# cwd: the repository. Compiles the demonstration against its sources in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w @FLAGS@ -I. -o "$t/demo" "$here/demo.cc" clpoly/variable.cc clpoly/polynomial_gcd.cc clpoly/upolynomial.cc clpoly/associatedgraph.cc clpoly/realroot.cc -lgmpxx -lgmp -lpthread || exit 3
timeout 120 "$t/demo"
