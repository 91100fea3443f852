from diwire._internal.integrations.pytest_plugin import (
    _diwire_state,
    diwire_container,
    pytest_pycollect_makeitem,
    pytest_pyfunc_call,
)

__all__ = [
    "diwire_container",
    "pytest_pycollect_makeitem",
    "pytest_pyfunc_call",
]
