from contracts import mapper  # noqa: F401
