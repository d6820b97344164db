from contracts import p04, p05, p06, p07, p08, p16, p13, p09, p11
from contracts.p03 import *
from contracts import mapper  # noqa: F401
