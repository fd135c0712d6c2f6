"""Property id -> module."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
MODULES = {f[:-3].upper(): "pbt.props." + f[:-3] for f in sorted(os.listdir(HERE)) if re.match(r"^[a-z][0-9]{2}\.py$", f)}
