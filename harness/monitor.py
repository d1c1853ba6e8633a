"""Monitors: what a case reports about the executions it observed."""
import operator
import hashlib
import os
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


# the stack is theirs to change
CHANGES_ARGUMENTS = ('EvalScript', '_EvalScript', 'setattr')


class Violation(Exception):
    """An oracle saw the property broken"""
    def __init__(self, msg, detail=''):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Hang(BaseException):
    """CPU watchdog: a case used far more processor time than any could need"""


def short(o, n=400):
    try:
        s = repr(o)
    except Exception as e:                      # repr of a broken object
        s = '<unprintable %s: %s>' % (type(o).__name__, e)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def through_repo(tb):
    """Does a traceback pass through the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            return True
    return False


class Monitor:
    def __init__(self, seed, tier):
        self.seed = seed
        self.tier = tier
        self.events = {}
        self.distinct = {}
        self.samples = []
        self.known_seen = {}
        self.notes = {}

    # -- what was observed
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def state(self, kind, key):
        """Count a distinct non-trivial state/input/outcome"""
        if not isinstance(key, (bytes, bytearray)):
            key = repr(key).encode('utf8', 'backslashreplace')
        h = hashlib.blake2b(key, digest_size=7).hexdigest()
        seen = self.distinct.setdefault(kind, set())
        seen.add(h)
        if len(seen) in (1, 40) and len(self.samples) < 12:
            try:
                text = bytes(key).decode('ascii')
            except UnicodeDecodeError:
                text = '\n'
            self.samples.append('%s: %s' % (kind, text[:240] if text.isprintable() else bytes(key).hex()[:240]))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(short(s, 300))

    def known(self, key):
        self.known_seen[key] = self.known_seen.get(key, 0) + 1

    def note(self, k, v):
        self.notes[k] = v

    # -- oracles
    def fail(self, msg, *detail):
        raise Violation(msg, '; '.join(d if isinstance(d, str) else short(d) for d in detail))

    def check(self, cond, msg, *detail):
        self.event('checks')
        if not cond:
            self.fail(msg, *detail)

    def eq(self, actual, expected, msg, *detail):
        self.event('checks')
        if not (actual == expected):
            self.fail('%s: got %s, expected %s' % (msg, short(actual), short(expected)), *detail)

    def same(self, actual, expected, msg, *detail):
        """Equal and of the same builtin type (True is not 1, bytes not bytearray)"""
        self.event('checks')
        if not (actual == expected and type(actual) is type(expected)):
            self.fail('%s: got %s, expected %s' % (msg, short(actual), short(expected)), *detail)

    def run(self, what, fn, args, kw):
        """Call, with a watch on the containers given to it: they are the caller's, and stay as they are"""
        kept = [(a, type(a)(a)) for a in (*args, *kw.values()) if type(a) in (list, dict, bytearray)]
        if not kept or getattr(fn, '__name__', '') in CHANGES_ARGUMENTS:
            return fn(*args, **kw)
        try:
            return fn(*args, **kw)
        finally:
            for a, b in kept:
                self.event('arguments watched')
                if len(a) != len(b) or not (a == b if type(a) is bytearray else all(map(operator.is_, a, b))
                                            and (type(a) is list or all(map(operator.is_, a.values(), b.values())))):
                    self.fail('%s changed an argument' % what, short(b), short(a))

    def call(self, what, fn, *args, **kw):
        """Call that must succeed"""
        self.event('calls')
        try:
            return self.run(what, fn, args, kw)
        except Violation:
            raise
        except Exception as e:
            self.fail('%s raised %s: %s' % (what, type(e).__name__, short(str(e), 200)),
                      ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:]),
                      'args: ' + short(args))

    def raises(self, what, types, fn, *args, **kw):
        """Call that must raise one of types; returns the exception"""
        self.event('calls')
        try:
            r = self.run(what, fn, args, kw)
        except Violation:
            raise
        except types as e:
            self.event('refused')
            return e
        except Exception as e:
            self.fail('%s raised %s (%s), expected %s' % (what, type(e).__name__, short(str(e), 200), types),
                      ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:]),
                      'args: ' + short(args))
        self.fail('%s was accepted (returned %s), expected %s' % (what, short(r), types),
                  'args: ' + short(args))

    def outcome(self, what, fn, *args, errors=Exception, **kw):
        """('ok', value) or ('error', exception) for exceptions of the allowed types"""
        self.event('calls')
        try:
            return 'ok', self.run(what, fn, args, kw)
        except Violation:
            raise
        except errors as e:
            return 'error', e
        except Exception as e:
            self.fail('%s raised %s: %s' % (what, type(e).__name__, short(str(e), 200)),
                      ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:]),
                      'args: ' + short(args))
