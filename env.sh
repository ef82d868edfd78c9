# offline Go environment for the analyzer
export HOME=/root
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${NL_GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off GONOSUMDB='*'
unset GOOS GOARCH CGO_ENABLED GOEXPERIMENT
