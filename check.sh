#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the checker if need be and runs one check against /repo.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if ! "$here/setup.sh" >/tmp/gosym-setup.$$ 2>&1; then
  echo "note: the checker could not be built; nothing decided"; cat /tmp/gosym-setup.$$; rm -f /tmp/gosym-setup.$$
  exit 2
fi
rm -f /tmp/gosym-setup.$$
mkdir -p "$here/evidence"
exec "$here/bin/gosym" check -repo /repo -verif "$here" -prop "$1" -tier "${2:-quick}"
