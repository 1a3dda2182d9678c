#!/bin/sh
# a stand-in for the go command of a small GOROOT: what it builds is a digest
# of the sources it is built from
set -e
bin=$(dirname "$0")
root=$(dirname "$bin")
case "$1" in
version) echo "go version @GOVERSION@ linux/amd64"; exit 0;;
env)
  shift
  for x in "$@"; do
    case "$x" in
    GOROOT) echo "$root";;
    GOVERSION) echo "@GOVERSION@";;
    -json) echo '{}';;
    *) GOROOT=@REAL@ @REAL@/bin/go env "$x";;
    esac
  done
  exit 0;;
run|build|install) ;;
*) echo "fake go: $*"; exit 0;;
esac
# the step at which something is to go wrong
how=
if [ -f "$HOME/fault" ]; then
  read -r step how < "$HOME/fault"
  n=0
  if [ -f "$HOME/step" ]; then read -r n < "$HOME/step"; fi
  n=$((n + 1))
  echo $n > "$HOME/step"
  if [ $n != "$step" ]; then how=; fi
fi
case "$how" in
fail) echo "fake go: told to fail" >&2; exit 1;;
kill) kill -9 $PPID; exit 1;;
esac
case "$1" in
run)
  out=builtin.go
  sum=$(sha256sum < _builtin/runtime.go)
  echo "// generated $sum" > "$out.tmp";;
build)
  out=$3
  for x in "$@"; do last=$x; done
  if [ "$2" = -a ]; then out=$4; fi
  files=$(find "$root/src" -type f | LC_ALL=C sort)
  sums=$(cat $files | sha256sum)
  if [ "$last" = cmd/go ]; then
    sed '/^# built/d' "$0" > "$out.tmp"
    echo "# built $sums" >> "$out.tmp"
  else
    echo "#!/bin/sh" > "$out.tmp"
    echo "# built $last $sums" >> "$out.tmp"
  fi
  chmod 755 "$out.tmp";;
install)
  mkdir -p "$root/pkg/linux_amd64"
  out=$root/pkg/linux_amd64/std.a
  sums=$(cat "$root/src/runtime/proc.go" | sha256sum)
  echo "std $sums" > "$out.tmp";;
esac
case "$how" in
half|failhalf)
  rm -f "$out"
  printf '\177ELF half' > "$out"
  rm -f "$out.tmp"
  if [ $how = half ]; then kill -9 $PPID; fi
  exit 1;;
esac
mv "$out.tmp" "$out"
if [ "$how" = after ]; then kill -9 $PPID; exit 1; fi
exit 0
