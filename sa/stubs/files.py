"""What files do, as far as what is written to them is what is later read from them (whole, in the pieces written).
Interpreted abstractly by the analysis (never imported by it)."""

FILES = {}


class File(object):
    def __init__(self, name, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        mode = mode.replace("b", "").replace("t", "")
        if mode in ("r", "r+") and name not in FILES:
            raise FileNotFoundError("No such file or directory")
        if mode in ("w", "w+") or name not in FILES:
            if "refused" in name:
                raise PermissionError("Permission denied")
            FILES[name] = []
        self.name = name
        self.mode = mode
        self.closed = False
        self.done = False

    def read(self, size=-1):
        if self.mode not in ("r", "r+", "w+", "a+"):
            raise OSError("not readable")
        parts = FILES[self.name]
        if self.done or len(parts) == 0:
            return ""
        self.done = True
        if len(parts) == 1:
            return parts[0]
        return "".join(parts)

    def write(self, text):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.mode == "r":
            raise OSError("not writable")
        FILES[self.name] = FILES[self.name] + [text]

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        pass

    def close(self):
        self.closed = True
