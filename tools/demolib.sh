# Copied into each seeded/<id>/ as lib.sh: a scratch ticat with modules.
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
cp bin/ticat "$S/ticat"; mkdir -p "$S/ticat.data/hub" "$S/mods" "$S/home"
export HOME="$S/home" TERM=dumb
mod() { # mod PATH META BODY
	f="$S/mods/$(echo "$1" | tr . /).bash"; mkdir -p "$(dirname "$f")"
	printf '#!/bin/bash\nsess=$1; shift\nenvs() { tr "\\t" = < "$sess/env" | grep "^k\\." | sort | tr "\\n" " "; }\necho "%s args=[$*] $(envs)" >> "%s/log"\n%s\n' "$1" "$S" "$3" > "$f"
	printf 'help = h\n%b' "$2" > "$f.ticat"
}
flow() { f="$S/mods/$1.tiflow"; printf 'help = h\n%b' "$2" > "$f"; }
t() { (cd "$S" && timeout 60 ./ticat "$@" > "$S/out" 2>&1 < /dev/null); rc=$?; }
usemods() { t hub.add.local path="$S/mods"; rm -f "$S/log"; }
log() { cat "$S/log" 2>/dev/null; }
fail() { echo "FAIL: $*"; echo "--- log"; log; echo "--- out"; head -40 "$S/out"; exit 1; }
