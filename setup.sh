#!/bin/bash
# Nothing to install: builds the harness once (plain, AddressSanitizer, Miri), which also shows that
# the toolchains and the cached crates work. The checks rebuild whatever /repo's tree makes stale.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
exec bash check.sh build
