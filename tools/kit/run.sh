# sourced by demo.sh with cwd = the repository; D = folder of the demo
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_DEFAULT_SOURCE -DDATA_DIR= -iquote src -o "$T/drive" "$D/drive.c" src/keyboard.c src/string.c src/macro.c src/config.c src/log.c src/ini.c src/keys.c src/unicode.c || exit 2
export ASAN_OPTIONS=detect_leaks=0
bad=0
# expect SCRIPT OUTPUT
expect() {
	got=$("$T/drive" "$T/conf" "$1" 2>"$T/err") || { cat "$T/err"; echo "failed: $1"; bad=1; return; }
	[ "$got" = "$2" ] || { echo "input:    $1"; echo "expected: $2"; echo "got:      $got"; bad=1; }
}
