"""Dual-mode classes built from a spec: recorded methods and properties, every way of carrying the mode flag."""
import functools

import a_sync
from a_sync.a_sync.abstract import ASyncABC

import dual_common as D

STYLES = ["init_sync", "init_asynchronous", "init_default", "attr_sync", "attr_asynchronous", "abc", "kwonly", "inst_attr"]


def root_class(style, base=a_sync.ASyncGenericBase, default=True):
    """A class whose instances are made by make(cls, style, mode, tag)."""
    if style == "init_sync":

        class Root(base):
            def __init__(self, tag, sync):
                self.tag = tag
                self.sync = sync
                super().__init__()

    elif style == "init_asynchronous":

        class Root(base):
            def __init__(self, tag, asynchronous):
                super().__init__()
                self.tag = tag
                self.asynchronous = asynchronous

    elif style == "init_default":

        class Root(base):
            def __init__(self, tag, sync=default):
                self.tag = tag
                self.sync = sync
                super().__init__()

    elif style == "kwonly":

        class Root(base):
            def __init__(self, tag, *, asynchronous=not default):
                self.tag = tag
                self.asynchronous = asynchronous
                super().__init__()

    elif style == "attr_sync":

        class Root(base):
            sync = default

            def __init__(self, tag):
                self.tag = tag
                super().__init__()

    elif style == "attr_asynchronous":

        class Root(base):
            asynchronous = not default

            def __init__(self, tag):
                self.tag = tag
                super().__init__()

    elif style == "inst_attr":

        class Root(base):
            def __init__(self, tag, mode):
                self.tag = tag
                self.sync = mode
                super().__init__()

    else:

        class Root(ASyncABC):
            def __init__(self, tag, mode):
                self.tag = tag
                self.mode = mode
                ASyncABC.__init__(self)

            @property
            def __a_sync_flag_name__(self):
                return "asynchronous"

            @property
            def __a_sync_flag_value__(self):
                return not self.mode

            @classmethod
            def __a_sync_default_mode__(cls):
                return default

    Root.__qualname__ = Root.__name__ = "Root"
    return Root


def make(cls, style, mode, tag, default=True, explicit=True):
    """An instance in the given mode (mode None: the class's default)."""
    if style == "init_sync":
        return cls(tag, sync=mode)
    if style == "init_asynchronous":
        return cls(tag, asynchronous=not mode)
    if style == "init_default":
        return cls(tag, sync=mode) if explicit or mode != default else cls(tag)
    if style == "kwonly":
        return cls(tag, asynchronous=not mode) if explicit or mode != default else cls(tag)
    if style in ("attr_sync", "attr_asynchronous"):
        return cls(tag)
    return cls(tag, mode)
