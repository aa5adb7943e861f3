# common environment of setup.sh and run.sh: offline, pinned toolchain, nothing written to the module files
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly GO111MODULE=on
unset GOROOT GOEXPERIMENT GODEBUG
export HOME=${HOME:-/root}
export GOCACHE=${VERIF_GOCACHE:-$HOME/.cache/go-build}
export VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
