#!/usr/bin/env python3
"""Builds the drivers once (the checks rebuild whatever has changed since then)"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build as B

DRIVERS = [("model_driver", dict(main="model_driver.cpp", parts=["lib"]))]
try:
    from drivers import DRIVERS
except ImportError:
    pass

for name, kw in DRIVERS:
    try:
        print(name, B.build(name, **kw))
    except B.BuildError as e:
        print("could not build", name, str(e)[:2000])
