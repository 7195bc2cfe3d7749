#!/bin/bash
# dev helper: run one check with the unit/obligation log
cd /verif; VC_DEBUG=1 timeout 1200 /opt/venv/bin/python -m checks.$1 2>&1 | grep -E "^ +\[|^UND|^VIOL|^KNOWN|^[A-Z][0-9][0-9]:|^      |Error|Traceback" | cut -c1-${2:-500} | tail -${3:-80}
