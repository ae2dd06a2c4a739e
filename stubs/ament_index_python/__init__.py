"""Stand-in for the absent ament_index_python package: only locates the grammar file in the tree."""
from .packages import get_package_share_directory  # noqa: F401
