from .proc import RULE, check_signals, scripts  # noqa: F401


def run(h):
    scripts(h, check_signals, 'signals', 'signals')
