"""P22."""
from contracts import schema
