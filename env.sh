# sourced by run.sh and setup.sh: an offline Go toolchain
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && { PATH=$d:$PATH; break; }; done
export PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off VERIF_ROOT=$ROOT
