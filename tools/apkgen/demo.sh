#!/bin/bash
# Runs the demonstration beside this file against the apkverifier tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/bin GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here"/*.go "$t"/
v=$(awk '/avast\/apkparser/{print $NF; exit}' "$repo/go.mod")
{
  echo "module demo"
  echo "go 1.22"
  echo "require github.com/avast/apkverifier v0.0.0"
  echo "require github.com/avast/apkparser $v"
  grep -h 'klauspost' "$repo/go.mod"
  echo "replace github.com/avast/apkverifier => $repo"
} > "$t/go.mod"
cp "$repo/go.sum" "$t/go.sum"
cd "$t" && go build -o demo . || exit 3
timeout 120 ./demo
