from .proc import RULE, check_lines, scripts  # noqa: F401


def run(h):
    scripts(h, check_lines, 'lines', 'lines')
