#!/bin/bash
# short summary of a check run: tools/sum.sh PID [tier]
cd /verif; python3 check.py "$1" "${2:-quick}" 2>&1 | grep -v "^VIOLATION" | cut -c1-${W:-420}; 
