#!/bin/bash
# names.sh FILE...: harness names declared in modules
cd ${D:-/verif/harness}/src; for f in "$@"; do grep -oE '^    fn [a-z0-9_]+\(\)' $f.rs | sed -E "s/^    fn ([a-z0-9_]+)\(\)/$f::\1/"; done
