# Go environment for the checker; nothing is written under /opt.
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go*/bin; do
  if [ -x "$d/go" ]; then export PATH="$d:$PATH"; break; fi
done
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOFLAGS
