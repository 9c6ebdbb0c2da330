# Sourced by the check scripts: the offline Go toolchain of the sandbox.
export HOME=${HOME:-/root} LANG=C.UTF-8
export GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOWORK=off GOFLAGS=-mod=readonly
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export TMPDIR=/tmp
