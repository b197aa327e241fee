# Sourced by everything that runs the Go toolchain here.
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1
export GOFLAGS="-mod=mod -modfile=/verif/gomod/go.mod"
