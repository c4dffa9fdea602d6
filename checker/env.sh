# Go toolchain for building and running the checker (offline).
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=1
unset GOOS GOARCH
