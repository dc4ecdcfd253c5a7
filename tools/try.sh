#!/bin/sh
# try.sh PATCH ID...: run checks against a planted change, then undo it
p=$1; shift
git -C /repo apply "$p" || exit 3
for i in "$@"; do /verif/check.sh $i; echo "exit $?"; done
git -C /repo checkout -q -- .
