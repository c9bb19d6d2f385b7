#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/setup.sh" >&2 || exit 2
exec "$here/sa/target/release/sa" run "$1" --tier "${2:-quick}" --repo "${REPO:-/repo}" --verif "$here"
