#!/bin/bash
# Makes mc/pair/fork from mc/pair/std.
cd "$(dirname "$0")/../mc/pair" || exit 1
for f in types matrix; do
sed -e 's|^package std|package fork|' -e 's|^// Package std .*|// Package fork is package std for the XML package of the repository; made by|' -e 's|^// for the XML package.*|// tools/genpair.sh.|' -e 's|xml "encoding/xml"|xml "github.com/Eyevinn/dash-mpd/xml"|' std/$f.go > fork/$f.go
gofmt -w std/$f.go fork/$f.go
done
