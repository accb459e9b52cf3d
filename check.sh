#!/bin/bash
# usage: check.sh ID [quick|thorough]
set -u
id=$1
tier=${2:-quick}
bin=mc
case $id in C26 | C27) bin=api ;; esac
/verif/build.sh "$bin" conform || exit 2
. /verif/env.sh
cd /verif || exit 2
exec "/verif/.cache/target/debug/$bin" check "$id" "$tier" 2>/verif/.cache/"$id".stderr
