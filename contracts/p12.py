from contracts import p09, p11
from contracts import schema
