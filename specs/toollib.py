"""What the seal tool sees of the command line and of the file system.

A command line is (global options, command, positional arguments, options).  A
file system maps names to contents; TORN holds the names of files somebody else
makes just before the tool opens them."""


import bitcoin


class World:
    pass


W = World()


def begin(globals_, command, positionals, options, files):
    W.globals = globals_
    W.command = command
    W.positionals = positionals
    W.options = options
    W.files = {}
    for name, content in files:
        W.files[name] = content
    W.written = []
    W.out = []
    W.sent = []
    W.asked = []
    W.refused = False


class File:
    def __init__(self, name, mode):
        if not isinstance(name, str):
            raise TypeError
        exists = name in W.files
        if mode == 'xb' or mode == 'bx':
            if exists:
                raise FileExistsError
            W.files[name] = b''
            self.writes, self.reads = True, False
        elif mode == 'rb' or mode == 'br':
            if not exists:
                raise FileNotFoundError
            self.writes, self.reads = False, True
        elif mode == 'wb' or mode == 'w+b' or mode == 'wb+':
            W.files[name] = b''
            self.writes, self.reads = True, False
        elif mode == 'ab':
            if not exists:
                W.files[name] = b''
            self.writes, self.reads = True, False
        elif mode == 'r+b' or mode == 'rb+':
            if not exists:
                raise FileNotFoundError
            self.writes, self.reads = True, True
        elif mode == 'ab+' or mode == 'a+b':
            if not exists:
                W.files[name] = b''
            self.writes, self.reads = True, True
        else:
            raise NotImplementedError
        self.at = 0 if mode[0] == 'r' else None
        self.name = name
        self.mode = mode
        self.rest = W.files[name] if self.reads else None
        self.closed = False

    def read(self, *a):
        if not self.reads or self.closed:
            raise ValueError
        if a and a[0] is not None and a[0] >= 0:
            raise NotImplementedError
        r = self.rest
        self.rest = b''
        if self.at is not None:
            self.at = len(W.files[self.name])
        return r

    def write(self, data):
        if not self.writes or self.closed:
            raise ValueError
        old = W.files[self.name]
        if self.at is None:
            W.files[self.name] = old + bytes(data)
        else:
            W.files[self.name] = old[:self.at] + bytes(data) + old[self.at + len(data):]
            self.at = self.at + len(data)
        return len(data)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


def open_(name, mode='r', *a, **kw):
    return File(name, mode)


def exists(name):
    return name in W.files


def print_(*a, **kw):
    if 'file' not in kw:
        W.out.append(a)


# ---- argparse
class Namespace:
    pass


class ArgumentTypeError(Exception):
    pass


class ArgumentError(Exception):
    pass


class HelpFormatter:
    pass


class FileType:
    def __init__(self, mode='r', *a, **kw):
        self.mode = mode

    def __call__(self, name):
        try:
            return File(name, self.mode)
        except OSError:
            raise ArgumentTypeError()


class Action:
    def __init__(self, option_strings, dest, nargs=None, const=None, default=None, type=None, choices=None, required=False, help=None, metavar=None):
        self.option_strings = option_strings
        self.dest = dest
        self.nargs = nargs
        self.const = const
        self.default = default
        self.type = type
        self.choices = choices
        self.required = required

    def __call__(self, parser, namespace, values, option_string=None):
        raise NotImplementedError


class StoreAction(Action):
    def __call__(self, parser, namespace, values, option_string=None):
        setattr(namespace, self.dest, values)


class Constant(Action):
    def __init__(self, option_strings, dest, const=None, default=None, required=False, **kw):
        super().__init__(option_strings, dest, 0, const, default, required=required)

    def __call__(self, parser, namespace, values, option_string=None):
        setattr(namespace, self.dest, self.const)


class Count(Action):
    def __init__(self, option_strings, dest, default=None, **kw):
        super().__init__(option_strings, dest, 0, None, default)

    def __call__(self, parser, namespace, values, option_string=None):
        n = getattr(namespace, self.dest, None)
        setattr(namespace, self.dest, (0 if n is None else n) + 1)


class Group:
    def __init__(self, container, required=False, exclusive=False):
        self.container = container
        self.required = required
        self.exclusive = exclusive
        self.members = []

    def add_argument(self, *a, **kw):
        r = self.container.add_argument(*a, **kw)
        self.members.append(r)
        return r


class ArgumentParser:
    def __init__(self, *a, **kw):
        self.actions = []
        self.groups = []
        self.defaults = []
        self.commands = None

    def add_argument(self, *names, **kw):
        flags = [n for n in names if n.startswith('-')]
        dest = kw.pop('dest', None)
        if dest is None:
            if not flags:
                dest = names[0]
            else:
                dest = None
                for n in flags:
                    if dest is None and n.startswith('--'):
                        dest = n[2:]
                if dest is None:
                    dest = flags[0][1:]
            dest = dest.replace('-', '_')
        how = kw.pop('action', 'store')
        if how == 'store':
            a = StoreAction(flags, dest, **kw)
        elif how == 'store_true':
            a = Constant(flags, dest, True, False)
        elif how == 'store_false':
            a = Constant(flags, dest, False, True)
        elif how == 'store_const':
            a = Constant(flags, dest, **kw)
        elif how == 'count':
            a = Count(flags, dest, **kw)
        elif isinstance(how, str):
            raise NotImplementedError
        else:
            a = how(flags, dest, **kw)
        self.actions.append(a)
        return a

    def add_subparsers(self, *a, **kw):
        self.commands = Commands(kw.get('dest'))
        return self.commands

    def add_mutually_exclusive_group(self, required=False):
        g = Group(self, required, True)
        self.groups.append(g)
        return g

    def add_argument_group(self, *a, **kw):
        return Group(self)

    def set_defaults(self, **kw):
        for k in kw:
            self.defaults.append((k, kw[k]))

    def error(self, message):
        self.exit(message, 2)

    def exit(self, message=None, status=0):
        W.refused = True
        raise SystemExit(2)

    def value(self, action, raw):
        if action.type is None:
            return raw
        try:
            return action.type(raw)
        except ArgumentTypeError:
            self.error('')
        except TypeError:
            self.error('')
        except ValueError:
            self.error('')

    def fill(self, ns, positionals, options):
        for a in self.actions:
            if not hasattr(ns, a.dest):
                setattr(ns, a.dest, a.default)
        for k, v in self.defaults:
            setattr(ns, k, v)
        seen = []
        for o in options:
            action = None
            for a in self.actions:
                if o[0] in a.option_strings:
                    action = a
            if action is None:
                self.error('')
            for g in self.groups:
                for m in g.members:
                    for s in seen:
                        if action in g.members and m is s and s is not action:
                            self.error('')
            seen.append(action)
            if action.nargs == 0:
                action(self, ns, None, o[0])
            else:
                action(self, ns, self.value(action, o[1]), o[0])
        for g in self.groups:
            if g.required:
                met = False
                for s in seen:
                    if s in g.members:
                        met = True
                if not met:
                    self.error('')
        for a in self.actions:
            if a.option_strings and a.required and a not in seen:
                self.error('')
        places = [a for a in self.actions if not a.option_strings]
        at = 0
        for j in range(len(places)):
            a = places[j]
            if a.nargs is None:
                if at >= len(positionals):
                    self.error('')
                a(self, ns, self.value(a, positionals[at]))
                at += 1
            elif a.nargs == '+':
                end = len(positionals) - (len(places) - j - 1)
                if end <= at:
                    self.error('')
                a(self, ns, [self.value(a, p) for p in positionals[at:end]])
                at = end
            else:
                raise NotImplementedError
        if at != len(positionals):
            self.error('')

    def parse_args(self, *a, **kw):
        ns = Namespace()
        self.fill(ns, [], W.globals)
        if W.command is not None:
            if self.commands is None:
                self.error('')
            p = None
            for name, sub in self.commands.parsers:
                if name == W.command:
                    p = sub
            if p is None:
                self.error('')
            if self.commands.dest is not None:
                setattr(ns, self.commands.dest, W.command)
            p.fill(ns, W.positionals, W.options)
        return ns


class Commands:
    def __init__(self, dest):
        self.parsers = []
        self.dest = dest

    def add_parser(self, name, **kw):
        p = ArgumentParser()
        self.parsers.append((name, p))
        return p


# ---- the node
class Node:
    """bitcoin.rpc.Proxy: a node which knows one transaction"""
    def __init__(self, service_url=None, service_port=None, *a, **kw):
        self.port = bitcoin.params.RPC_PORT if service_port is None else service_port

    def getrawtransaction(self, txid, verbose=False):
        if verbose:
            raise NotImplementedError
        W.asked.append(self.port)
        for t, tx in W.chain:
            if t == txid:
                return tx
        raise IndexError

    def sendrawtransaction(self, tx, *a):
        W.sent.append(tx)


class Logger:
    """logging, switched off"""
    level = 30
    handlers = ()

    def debug(self, *a, **kw):
        pass

    info = warning = warn = error = critical = exception = log = basicConfig = setLevel = addHandler = debug

    def isEnabledFor(self, level):
        return False

    def getEffectiveLevel(self):
        return 30

    def getLogger(self, *a):
        return self

    getChild = getLogger


LOGGER = Logger()


class Handler:
    def __init__(self, *a, **kw):
        pass

    setLevel = setFormatter = __init__
