# sourced by the scripts
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
VERIF=$(pwd)
build_plain() { (cd harness && go build -o bin/mc ./cmd/mc); }
build_instr() { (cd harness && go build -o bin/instr ./cmd/instr && mkdir -p gen/worker gen/request gen/clock); }
# the worker under the controlled scheduler
build_worker() {
	build_instr && (cd harness && ./bin/instr gen/worker /repo utils:stmt &&
		go build -overlay gen/worker/overlay.json -o bin/mcw ./cmd/mc)
}
# request handling under the controlled scheduler, with the race detector
build_request() {
	build_instr && (cd harness && ./bin/instr gen/request /repo .:func inject:func params:func request-logger:func gzip:func utils:func utils/apires:func &&
		go build -race -overlay gen/request/overlay.json -o bin/mcr ./cmd/mc)
}
# virtual clock
build_clock() {
	build_instr && (cd harness && ./bin/instr gen/clock /repo sessions:clock caches:clock request-logger:clock &&
		go build -overlay gen/clock/overlay.json -o bin/mcc ./cmd/mc)
}
# build_for ID: builds the binary that decides a property and names it in BIN
build_for() {
	case "$1" in
	C11) BIN=mcr; build_request && return ;;
	C12|C13) BIN=mcw; build_worker && return ;;
	C1[4-9]|C25|C29|C34|C35) BIN=mcc; build_clock && return ;;
	*) BIN=mc; build_plain; return ;;
	esac
	# The instrumented copy does not build. If the code itself builds this is
	# a shortcoming of the instrumentation, not an answer about the property.
	(cd /repo && go build ./...) || return 1
	BIN=
}
