# Go toolchain environment shared by the scripts (offline)
export HOME=/root
export GOROOT=/opt/veriftools/go1.24.13 PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*'
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_DIR=${VERIF_DIR:-/verif}
