# Toolchain of the sandbox, as /opt/vp/env.sh sets it for builds.
export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.26.10
export PATH="$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
