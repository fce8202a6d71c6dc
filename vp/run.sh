#!/bin/bash
cd /verif; for c in "$@"; do VP_VERBOSE=1 python3 vp/check.py $c ${TIER:-quick} | cut -c1-${W:-260}; done
