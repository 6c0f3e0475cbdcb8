# Sourced by check.sh, replay.sh and setup.sh: build PROPERTY builds $WORK/pbt (and the server for C26).
export HOME="${HOME:-/root}"
export PATH="/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
unset GOOS GOARCH GOEXPERIMENT GOMAXPROCS GOGC GOMEMLIMIT GODEBUG 2>/dev/null
export PBT_REPO="${PBT_REPO:-/repo}"
case "$SEED" in ''|*[!0-9]*) SEED=1;; esac
WORK="$(mktemp -d /tmp/gseverif.XXXXXX)" || exit 2
trap 'rm -rf "$WORK"' EXIT

build() {
    local race=""
    case " C24 C25 " in *" $1 "*) race="-race";; esac
    cd "$HERE/harness" || return 2
    # go.mod and go.sum are read from copies, so that a build never rewrites the committed ones
    sed "s#=> /repo\$#=> $PBT_REPO#" go.mod >"$WORK/go.mod" && cp go.sum "$WORK/go.sum" || return 2
    # C32 is built with the embedded dictionaries, laid over by small ones (some of them are not in the repository)
    local how="-tags ne"
    if [ "$1" = C32 ]; then
        local e="$HERE/harness/data/embed" d="$PBT_REPO/data/dict"
        printf '{"Replace":{"%s":"%s","%s":"%s","%s":"%s","%s":"%s","%s":"%s"}}\n' \
            "$d/jp/dict.txt" "$e/ja.txt" "$d/zh/t_1.txt" "$e/zh_t.txt" "$d/zh/s_1.txt" "$e/zh_s.txt" \
            "$d/zh/idf.txt" "$e/idf.txt" "$d/zh/stop_tokens.txt" "$e/stop.txt" >"$WORK/overlay.json"
        how="-overlay $WORK/overlay.json"
    fi
    if ! go build -buildvcs=false $race $how -modfile="$WORK/go.mod" -o "$WORK/pbt" . 2>"$WORK/build.log"; then
        cat "$WORK/build.log" >&2
        echo "check error: the harness does not build against $PBT_REPO" >&2
        return 2
    fi
    if [ "$1" = C26 ]; then
        cp "$PBT_REPO/go.mod" "$WORK/repo.mod" && cp "$PBT_REPO/go.sum" "$WORK/repo.sum" || return 2
        if ! (cd "$PBT_REPO" && go build -buildvcs=false -race -tags ne -modfile="$WORK/repo.mod" -o "$WORK/server" ./tools/server) 2>"$WORK/build.log"; then
            cat "$WORK/build.log" >&2
            echo "check error: the server does not build" >&2
            return 2
        fi
        export PBT_SERVER="$WORK/server"
    fi
    return 0
}
