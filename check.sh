#!/bin/bash
# ./check.sh C01 quick|thorough: the check of one property
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./bin/govc check -prop "$1" -tier "${2:-quick}" -verif "$PWD"
