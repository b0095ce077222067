"""Offline stand-in for ament_index_python (not installable in this sandbox)."""
from .packages import get_package_prefix
from .packages import get_package_share_directory
from .packages import PackageNotFoundError


RESOURCES = {}


def has_resource(resource_type, resource_name):
    return '/somewhere' if (resource_type, resource_name) in RESOURCES else False


def get_resource(resource_type, resource_name):
    if (resource_type, resource_name) in RESOURCES:
        return RESOURCES[resource_type, resource_name], '/somewhere'
    raise LookupError('{}/{}'.format(resource_type, resource_name))


__all__ = ['get_package_prefix', 'get_package_share_directory', 'PackageNotFoundError',
           'has_resource', 'get_resource']
