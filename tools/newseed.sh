#!/usr/bin/env bash
# newseed.sh <seed id> : copies the demo template into /verif/seeded/<id> (development helper)
set -e
D=/verif/seeded/$1; mkdir -p "$D"; cp /verif/tools/seedtmpl/* "$D/"
