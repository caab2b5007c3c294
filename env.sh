# the Go toolchain the repository is built with (see /opt/vp/env.sh)
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1
export GOFLAGS=-buildvcs=false
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GOWORK GOROOT
