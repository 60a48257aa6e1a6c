"""How the process was before anything of the library ran in it."""
import os

ENV = dict(os.environ)
CWD = os.getcwd()
UMASK = os.umask(0o22)
os.umask(UMASK)
