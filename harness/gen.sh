#!/bin/sh
# regenerates replay/all.go (the registry of harness functions)
cd "$(dirname "$0")" || exit 1
{
echo '// Code generated by gen.sh. DO NOT EDIT.'
echo
echo 'package main'
echo
echo 'import "verif/harness/props"'
echo
echo 'var all = map[string]func(){'
sed -n 's/^func \(H[A-Za-z0-9_]*\)() {$/\t"\1": props.\1,/p' props/*.go | sort
echo '}'
} > replay/all.go
gofmt -w replay/all.go
