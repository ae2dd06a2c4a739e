import os


class PackageNotFoundError(KeyError):
    pass


def get_package_share_directory(name):
    root = os.path.join(os.environ.get('PYVC_REPO', '/repo'), name)
    if name == 'launch':
        return os.path.join(root, 'share', 'launch') if os.path.isdir(
            os.path.join(root, 'share', 'launch', 'frontend')) else os.path.join(root, 'share')
    return root
