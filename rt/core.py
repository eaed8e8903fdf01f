class Violation(Exception):
    """The property is broken; args[0] says how."""


class Inconclusive(Exception):
    """The check could not decide."""


class Hang(BaseException):
    """Raised by the watchdog inside a case."""


def expect(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)
