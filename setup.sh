#!/bin/bash
# Warms the build cache: every check builds its monitor itself.
here=$(cd "$(dirname "$0")" && pwd)
for id in C01 C24 C29 C30 C32 C33 C35; do
  VERIF_BUILD_ONLY=1 "$here/check.sh" $id || echo "setup: the monitor for $id does not build"
done
exit 0
