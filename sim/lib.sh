# Sourced by check.sh, replay.sh and setup.sh: builds a simulator from the current tree of the repository.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
verif=$(dirname "$here")
export VERIF_SIM=$here
repo=${VERIF_REPO:-/repo}
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off TZ=UTC LC_ALL=C
unset GOMAXPROCS GODEBUG GOGC GOMEMLIMIT
# The patched standard library is kept apart from the build cache of the repository itself
export GOCACHE=${VERIF_GOCACHE:-$(dirname "$(go env GOCACHE)")/go-build-verif-sim}

simulator_of() {
	case $1 in
	C0[1-9] | C1[0-5] | C25 | C30) echo core ;;
	C16 | C17 | C26) echo gen ;;
	C18 | C27) echo web ;;
	C19 | C2[0-9]) echo exp ;;
	*) return 1 ;;
	esac
}

build_simulator() { # NAME DIR: leaves the program in DIR/NAME
	python3 "$here/overlay.py" "$2" "$repo" || return 2
	cd "$repo" || return 2
	if [ "$1" = web ]; then
		go test -c -vet=off -overlay "$2/overlay.json" -modfile "$2/go.mod" -o "$2/$1" . || return 2
	else
		go build -overlay "$2/overlay.json" -modfile "$2/go.mod" -o "$2/$1" "./internal/verifsim/$1" || return 2
	fi
}
