import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import bug

PRE = '''import sys
from datetime import datetime, timedelta
import numpy as np
import gnome.scripting as gs
T0 = datetime(2020, 1, 1)


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)

'''

