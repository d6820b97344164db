from contracts import p04, p08, p13, p09, p11
from contracts.p03 import *
from contracts import context  # noqa: F401
