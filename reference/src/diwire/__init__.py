from diwire._internal.container import Container
from diwire._internal.lock_mode import LockMode
from diwire._internal.markers import (
    All,
    AsyncProvider,
    Component,
    FromContext,
    Injected,
    Maybe,
    Provider,
)
from diwire._internal.policies import DependencyRegistrationPolicy, MissingPolicy
from diwire._internal.providers import Lifetime
from diwire._internal.resolver_context import ResolverContext, resolver_context
from diwire._internal.resolvers.protocol import ResolverProtocol
from diwire._internal.scope import BaseScope, Scope

__all__ = [
    "All",
    "AsyncProvider",
    "BaseScope",
    "Component",
    "Container",
    "DependencyRegistrationPolicy",
    "FromContext",
    "Injected",
    "Lifetime",
    "LockMode",
    "Maybe",
    "MissingPolicy",
    "Provider",
    "ResolverContext",
    "ResolverProtocol",
    "Scope",
    "resolver_context",
]
