#!/bin/bash
# Nothing to compile: verifies that the interpreter, the code under test and hypothesis can be imported.
HERE="$(cd "$(dirname "$0")" && pwd)"
exec bash "$HERE/check.sh" selftest
