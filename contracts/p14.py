"""P14: see p13."""
from contracts import p13  # noqa: F401
