#!/bin/bash
# usage: build.sh TARGET...   (harness, race, gen, tool)
# Builds the simulator binaries from /repo's working tree into a scratch
# directory keyed by the content of /repo and of the machinery, and prints it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
err() { echo "build.sh: $*" >&2; exit 3; }
key=$( (cd "$repo" && find . -path ./.git -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum \) ! -name '*_test.go' -print0 | sort -z | xargs -0 sha256sum
	cd "$here" && find sim tools build.sh -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
root=$here/.build
B=$root/$key
mkdir -p "$B" || err "mkdir"
exec 9>"$root/$key.lock"
flock 9
# keep the scratch directory small
ls -1dt "$root"/*/ 2>/dev/null | tail -n +5 | while read -r d; do d=${d%/}; [ "$d" != "$B" ] && rm -rf "$d" "$d.lock"; done

prepare() { # level
	local L=$B/l$1
	[ -f "$L/ok" ] && return 0
	rm -rf "$L"; mkdir -p "$L"
	[ -x "$B/instr" ] || (cd "$here/tools/instr" && GOFLAGS= go build -o "$B/instr" .) || err "cannot build instr"
	"$B/instr" -repo "$repo" -out "$L" -level "$1" -extra github.com/alxarch/meta >&2 || return 1
	local lang
	lang=$(sed -n 's/^go \([0-9.]*\).*/\1/p' "$repo/go.mod")
	case "$lang" in ''|1.[0-9]|1.1[0-9]|1.20) lang=1.21 ;; esac
	sed -e "s/^go .*/go $lang/" "$repo/go.mod" > "$L/main/go.mod"
	grep -q '^go ' "$L/main/go.mod" || echo "go $lang" >> "$L/main/go.mod"
	cp "$repo/go.sum" "$L/main/go.sum"
	echo >> "$L/main/go.mod"
	echo "require github.com/alxarch/njson/verifsim v0.0.0" >> "$L/main/go.mod"
	printf 'module github.com/alxarch/meta\n\ngo 1.21\n\nrequire github.com/alxarch/njson/verifsim v0.0.0\n' > "$L/dep/meta/go.mod"
	cp -r "$here/sim" "$L/sim" || return 1
	{
		printf 'module github.com/alxarch/njson/verifsim\n\ngo 1.24\n\nrequire (\n\tgithub.com/alxarch/njson v0.0.0\n'
		sed -n '/^require (/,/^)/p' "$repo/go.mod" | sed -e '1d' -e '$d' | sed 's/ *\/\/ indirect//'
		sed -n 's/^require \([^(].*\)/\t\1/p' "$repo/go.mod"
		printf ')\n\nreplace github.com/alxarch/njson => ../main\n\nreplace github.com/alxarch/meta => ../dep/meta\n'
	} > "$L/sim/go.mod"
	cp "$repo/go.sum" "$L/sim/go.sum"
	touch "$L/ok"
}

# The generator loads the project's packages at run time with go/importer, which
# looks for export data in $GOPATH/pkg and knows nothing of modules.
genenv() {
	[ -f "$B/genenv" ] && return 0
	local P=$B/gopath/pkg/$(go env GOOS)_$(go env GOARCH)
	mkdir -p "$P" || return 1
	(cd "$repo" && go list -e -export -deps -f '{{if and (not .Standard) .Export}}{{.ImportPath}} {{.Export}}{{end}}' ./...) > "$B/exports" || return 1
	while read -r path file; do
		mkdir -p "$(dirname "$P/$path")" && cp "$file" "$P/$path.a" || return 1
	done < "$B/exports"
	echo "export GOPATH=$B/gopath" > "$B/genenv"
}

# The types of sim/gentypes get the methods the generator of the tree writes. If
# it does not work for them they go without, and reflection does the same: how
# the generator fails is for C16 and C17 to say.
gentypes() {
	local G=$L/sim/gentypes f=$B/gentypes_njson.go
	if [ ! -f "$f" ]; then
		genenv && (cd "$repo" && go build -o "$B/njson" ./cmd/njson) &&
			(. "$B/genenv" && cd "$G" && timeout 60 "$B/njson" -p . gentypes '^(Box[ED]|In[EDL]|Line)$') >"$f" || { : >"$f"; return 0; } 2>&1
	fi
	[ -s "$f" ] || return 0
	cp "$f" "$G/" && (cd "$L/sim" && go build ./gentypes) >&2 || rm -f "$G/gentypes_njson.go"
}

S=github.com/alxarch/njson/verifsim
one() { # target level
	local out=$B/$1 L=$B/l$2
	case $1 in
	harness) gentypes; (cd "$L/sim" && go build -o "$out.tmp" ./harness) ;;
	race) gentypes; (cd "$L/sim" && go build -race -gcflags="$S/simrt=-race=false -l" -gcflags="$S/simsync=-race=false -l" -o "$out.tmp" ./harness) ;;
	gen) (cd "$L/sim" && go build -o "$out.tmp" ./genharness) && genenv ;;
	tool) (cd "$L/sim" && go build -o "$out.tmp" ./toolharness) ;;
	*) err "unknown target $1" ;;
	esac && mv "$out.tmp" "$out" && cp "$L/sites.txt" "$out.sites" && echo "$2" > "$out.level"
}

for t in "$@"; do
	[ -x "$B/$t" ] && continue
	done=
	for level in 2 1 0; do
		if prepare $level 2>"$B/$t.log$level" && one "$t" $level 2>>"$B/$t.log$level"; then done=1; break; fi
	done
	[ -n "$done" ] || { cat "$B/$t.log2" >&2; err "cannot build $t"; }
	[ "$(cat "$B/$t.level")" = 2 ] || { echo "build.sh: note: $t built at instrumentation level $(cat "$B/$t.level")" >&2; cat "$B/$t.log2" >&2; }
done
echo "$B"
