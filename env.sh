# Go environment of all scripts here: offline, no module downloads.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1
