#!/bin/sh
# alt.sh DIR: a scratch pair DIR/repo, DIR/verif in which DIR/verif's checks look at DIR/repo (never registered; for trying edits)
set -e
mkdir -p "$1/repo" "$1/verif"
rsync -a --delete --exclude target /repo/ "$1/repo/"
rsync -a --exclude seeded --exclude .git --exclude evidence /verif/ "$1/verif/"
sed -i "s#/repo#$1/repo#" "$1/verif/harness/Cargo.toml" "$1/verif/harness_derive/Cargo.toml"
