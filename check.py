#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import ctx  # noqa
import checks_tracking  # noqa
import checks_obs  # noqa
import checks_geo  # noqa
import checks_net  # noqa
import checks_grid  # noqa

REGISTRY = {}
for m in (checks_tracking, checks_obs, checks_geo, checks_net, checks_grid):
    REGISTRY.update(m.REGISTRY)

if __name__ == "__main__":
    ctx.main(REGISTRY)
