# the environment the analysed program is loaded with (same Go as the repository's own build)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off GOFLAGS=-mod=mod
