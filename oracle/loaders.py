"""
Models of the import hooks of six and setuptools, with the interface that those
have. Used by both worlds.
"""

import importlib.machinery

# Names in six.moves that are modules (six 1.17, Python 3)
SIX_MODULES = {
    "builtins": "builtins",
    "configparser": "configparser",
    "collections_abc": "collections.abc",
    "copyreg": "copyreg",
    "dbm_gnu": "dbm.gnu",
    "dbm_ndbm": "dbm.ndbm",
    "_dummy_thread": "_thread",
    "http_cookiejar": "http.cookiejar",
    "http_cookies": "http.cookies",
    "html_entities": "html.entities",
    "html_parser": "html.parser",
    "http_client": "http.client",
    "email_mime_base": "email.mime.base",
    "email_mime_image": "email.mime.image",
    "email_mime_multipart": "email.mime.multipart",
    "email_mime_nonmultipart": "email.mime.nonmultipart",
    "email_mime_text": "email.mime.text",
    "BaseHTTPServer": "http.server",
    "CGIHTTPServer": "http.server",
    "SimpleHTTPServer": "http.server",
    "cPickle": "pickle",
    "queue": "queue",
    "reprlib": "reprlib",
    "socketserver": "socketserver",
    "_thread": "_thread",
    "tkinter": "tkinter",
    "tkinter_dialog": "tkinter.dialog",
    "tkinter_filedialog": "tkinter.filedialog",
    "tkinter_scrolledtext": "tkinter.scrolledtext",
    "tkinter_simpledialog": "tkinter.simpledialog",
    "tkinter_tix": "tkinter.tix",
    "tkinter_ttk": "tkinter.ttk",
    "tkinter_constants": "tkinter.constants",
    "tkinter_dnd": "tkinter.dnd",
    "tkinter_colorchooser": "tkinter.colorchooser",
    "tkinter_commondialog": "tkinter.commondialog",
    "tkinter_tkfiledialog": "tkinter.filedialog",
    "tkinter_font": "tkinter.font",
    "tkinter_messagebox": "tkinter.messagebox",
    "tkinter_tksimpledialog": "tkinter.simpledialog",
    "urllib": "urllib",
    "urllib_parse": "urllib.parse",
    "urllib_error": "urllib.error",
    "urllib_request": "urllib.request",
    "urllib_response": "urllib.response",
    "urllib_robotparser": "urllib.robotparser",
    "urllib.parse": "urllib.parse",
    "urllib.error": "urllib.error",
    "urllib.request": "urllib.request",
    "urllib.response": "urllib.response",
    "urllib.robotparser": "urllib.robotparser",
    "winreg": "winreg",
    "xmlrpc_client": "xmlrpc.client",
    "xmlrpc_server": "xmlrpc.server",
}

# Names in six.moves that are not modules
SIX_ATTRIBUTES = {
    "cStringIO": "io",
    "filter": "builtins",
    "filterfalse": "itertools",
    "input": "builtins",
    "intern": "sys",
    "map": "builtins",
    "getcwd": "os",
    "getcwdb": "os",
    "getoutput": "subprocess",
    "range": "builtins",
    "reload_module": "importlib",
    "reduce": "functools",
    "shlex_quote": "shlex",
    "StringIO": "io",
    "UserDict": "collections",
    "UserList": "collections",
    "UserString": "collections",
    "xrange": "builtins",
    "zip": "builtins",
    "zip_longest": "itertools",
}


class _SixMetaPathImporter:
    """Not a subclass of any ABC, just like the real one"""

    def __init__(self, six_name):
        self.name = six_name
        self.prefix = six_name + ".moves"

    def knows(self, fullname):
        if fullname == self.prefix:
            return True
        if not fullname.startswith(self.prefix + "."):
            return False
        return fullname[len(self.prefix) + 1 :] in SIX_MODULES

    def is_package(self, fullname):
        return fullname == self.prefix or fullname == self.prefix + ".urllib"

    def find_spec(self, fullname, path=None, target=None):
        if not self.knows(fullname):
            return None
        return importlib.machinery.ModuleSpec(
            fullname, self, is_package=self.is_package(fullname)
        )

    def get_code(self, fullname):
        return None

    get_source = get_code

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        pass


class VendorImporter:
    def __init__(self, root_name, vendored_names, vendor_pkg):
        self.root_name = root_name
        self.vendored_names = list(vendored_names)
        self.vendor_pkg = vendor_pkg

    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith(self.root_name + "."):
            return None
        name = fullname[len(self.root_name) + 1 :]
        for n in self.vendored_names:
            if name == n:
                return importlib.machinery.ModuleSpec(fullname, self, is_package=False)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        pass


VendorImporter.__module__ = "setuptools.extern"


def make(spec):
    """Finder for an entry of the "finders" of a scenario"""
    if spec[0] == "six":
        return _SixMetaPathImporter(spec[1])
    return VendorImporter(*spec[1:])
