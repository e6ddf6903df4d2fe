# Sourced by run.sh and setup.sh.
export HOME="${HOME:-/root}"
for g in /opt/veriftools/go1.27.3/bin /opt/veriftools/go*/bin; do
  [ -x "$g/go" ] && { export PATH="$g:$PATH"; break; }
done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOTELEMETRY=off CGO_ENABLED=1 GOSUMDB=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export TDEX_NETWORK=regtest TDEX_EXPLORER_ENDPOINT=http://127.0.0.1:3001 TDEX_LOG_LEVEL=0
export TDEX_BASE_ASSET=5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225
export TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD=1000

# What the "default" instrumentation covers.
INSTR_DEFAULT="internal/core/application=LGSE internal/core/domain=LGSE \
internal/infrastructure/storage/db/inmemory=LGSE internal/infrastructure/storage/db/badger=LGSE \
internal/infrastructure/pubsub/webhook=LGSE pkg/crawler=LGSE pkg/explorer=LGSE \
pkg/securestore/bolt=LGSE pkg/swap=LGSE pkg/circuitbreaker=LGSE pkg/wallet=LGSE pkg/explorer/esplora=LGSE"

# build_check <dir under cmd> <output> <scratch>
build_check() {
  local spec mode
  # the module files are copied so that nothing rewrites the committed ones
  cp go.mod "$3/go.mod" && cp go.sum "$3/go.sum" || return 1
  spec=$(sed -n 's,^//mc:instr ,,p' "cmd/$1/main.go" | head -1)
  [ "$spec" = default ] && spec=$INSTR_DEFAULT
  if [ -z "$spec" ]; then
    go build -modfile "$3/go.mod" -o "$2" "./cmd/$1"
    return
  fi
  go build -modfile "$3/go.mod" -o "$3/instr.bin" ./instr || return 1
  for mode in full nogo sync none; do
    rm -rf "$3/ov"; mkdir -p "$3/ov"
    "$3/instr.bin" -repo /repo -out "$3/ov" -mode $mode $spec || return 1
    if go build -modfile "$3/go.mod" -trimpath -overlay "$3/ov/overlay.json" -o "$2" "./cmd/$1" 2> "$3/err.$mode"; then
      [ $mode = full ] || echo "note: instrumentation reduced to '$mode'"
      return 0
    fi
  done
  cat "$3/err.full"
  return 1
}
