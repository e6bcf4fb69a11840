#!/bin/bash
# runs the built server in a scratch directory of its own and talks to it over the loopback network
exec timeout 200 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
