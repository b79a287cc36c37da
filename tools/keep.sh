#!/bin/bash
# tools/keep.sh C06 definition name : save the latest replay as a regression input
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/regress/$1" && cp "$here/replays/$1/$2.json" "$here/regress/$1/$3.json"
