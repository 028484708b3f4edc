# Sourced by check.sh and setup.sh: the toolchain, offline, with fixed settings.
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export CGO_ENABLED=1
unset GODEBUG GORACE GOMAXPROCS GOGC GOMEMLIMIT GOEXPERIMENT GOAMD64
