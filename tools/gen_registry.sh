#!/bin/sh
# regenerates harness/props/registry_gen.go from the harness functions
cd "$(dirname "$0")/../harness/props" || exit 2
{
echo "// Code generated by tools/gen_registry.sh; DO NOT EDIT."
echo "package props"
echo
echo "// Registry lists every harness for native replay."
echo "var Registry = map[string]func(){"
grep -ho '^func C[0-9][0-9]_[A-Za-z0-9_]*()' c*.go large*.go twice.go powers.go | sed 's/^func //; s/()$//' | sort | sed 's/.*/	"&": &,/'
echo "}"
} > registry_gen.go
gofmt -w registry_gen.go
