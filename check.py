#!/usr/bin/env python3
"""check.py <property>: decides one property. VERIF_SEED and VERIF_TIER come from the environment."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import main
sys.exit(main.main(sys.argv[1:]))
