"""Offline stand-in for ament_index_python (not installable in this sandbox)."""
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class PackageNotFoundError(KeyError):
    pass


def get_package_prefix(name):
    for root in (os.environ.get('VERIF_PREFIX', ''), REPO):
        path = os.path.join(root, name)
        if root and os.path.isdir(path):
            return path
    raise PackageNotFoundError(name)


def get_package_share_directory(name):
    prefix = get_package_prefix(name)
    share = os.path.join(prefix, 'share', name)
    return share if os.path.isdir(share) else prefix
