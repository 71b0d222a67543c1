"""Python name of a YANG identifier, as the generator's documentation gives it: '-' and '.' become '_', a reserved name gets '_' appended."""

import keyword

# documented in pyangbind.lib.yangtypes.reserved_name
RESERVED = set(keyword.kwlist) | {"list", "str", "int", "global", "decimal", "float", "as", "if", "else", "elif", "async", "map", "set", "class", "from", "import", "pass", "return", "is", "exec", "pop", "insert", "remove", "add", "delete", "local", "get", "default", "yang_name", "def", "print", "del", "break", "continue", "raise", "in", "assert", "while", "for", "try", "finally", "with", "except", "lambda", "or", "and", "not", "yield", "property", "min", "max"}


def python_name(n):
    n = n.replace("-", "_").replace(".", "_")
    return n + "_" if n in RESERVED else n
