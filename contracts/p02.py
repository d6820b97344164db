"""P02: see p01."""
from contracts import p01, p07  # noqa: F401
