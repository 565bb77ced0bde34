# Sourced by the scripts: the same offline Go environment that /opt/vp/build.sh uses.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build} GO111MODULE=on CGO_ENABLED=1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
