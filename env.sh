# sourced by check.sh and setup.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export HOME=${HOME:-/root}
REPO=${VERIF_REPO:-/repo}
RACE_PROPS="C22 C24 C25"
# build_vmon DIR [-race]: build DIR/vmon (and DIR/cmd/*) from $REPO's working tree
build_vmon() {
    local dir=$1 race=$2 ov=()
    sed "s#=> /repo#=> $REPO#" "$root/harness/go.mod" >"$dir/go.mod" && cp "$root/harness/go.sum" "$dir/go.sum" || return 1
    if [ ! -e "$REPO/go.mod" ]; then
        printf '{"Replace":{"%s/go.mod":"%s/harness/repo.go.mod"}}\n' "$REPO" "$root" >"$dir/overlay.json"
        ov=(-overlay "$dir/overlay.json")
    fi
    mkdir -p "$dir/s" "$dir/cmd"
    (cd "$root/harness" && go build $race -modfile "$dir/go.mod" "${ov[@]}" -o "$dir/vmon" . ) || return 1
    case ${id:-C30} in # setup.sh, or a check that runs the commands
    C30) (cd "$root/harness" && go build $race -modfile "$dir/go.mod" "${ov[@]}" -o "$dir/cmd/" \
        github.com/jcorbin/anansi/cmd/to24bit github.com/jcorbin/anansi/cmd/decode) || return 1 ;;
    esac
    case ${id:-C32} in
    C32) (cd "$root/harness" && go build $race -modfile "$dir/go.mod" "${ov[@]}" -o "$dir/cmd/" \
        github.com/jcorbin/anansi/cmd/{demo,interact,lolwut,palette}) || return 1 ;;
    esac
}
