#!/bin/bash
# Runs a command with copies of /repo and /verif mounted in their place (in a namespace of its own), so
# that planted changes can be tried while the real ones are in use. Usage: lab.sh NAME COMMAND...
name=$1; shift
L=/tmp/lab/$name
mkdir -p "$L/repo" "$L/verif"
rsync -a --delete --exclude target /repo/ "$L/repo/" 2>/dev/null || { cp -a /repo/. "$L/repo/"; }
rsync -a --exclude evidence --exclude replays /verif/ "$L/verif/" 2>/dev/null || cp -a /verif/. "$L/verif/"
git -C "$L/repo" checkout -q -- .
exec unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec "$@"' "$L" "$@"
