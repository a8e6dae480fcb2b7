#!/bin/bash
# check.sh <property> [symgo options]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
new=$(cat engine/*.go engine/go.mod | sha256sum)
if [ ! -x .build/symgo ] || [ "$(cat .build/symgo.src 2>/dev/null)" != "$new" ]; then
  bash build.sh >&2 || exit 2
  echo "$new" > .build/symgo.src
fi
exec ./.build/symgo check "$@"
