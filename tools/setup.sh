#!/bin/bash
# nothing is prebuilt: every check compiles /repo's current tree itself. Only checks the tools are there.
set -e
export PATH=/root/.cargo/bin:$PATH
cargo kani --version
/root/.kani/kani-0.68.0/bin/cbmc --version
