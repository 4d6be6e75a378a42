#!/usr/bin/env python3
"""Offline sanity check of the tool chain the checks rely on (the checks build everything else themselves)."""
import os, shutil, sys
missing = [p for p in ("/usr/bin/g++", "/usr/include/eigen3", "/usr/include/pcl-1.14", "/usr/include/opencv4") if not os.path.exists(p)]
if missing:
    print("missing:", missing); sys.exit(1)
print("tool chain present"); sys.exit(0)
