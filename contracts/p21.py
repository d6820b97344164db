"""P21."""
from contracts import schema
