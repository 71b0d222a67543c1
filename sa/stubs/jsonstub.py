"""What the json module does with a tree, except that the document is kept as a tree rather than written out as text.
Interpreted abstractly by the analysis (never imported by it)."""


class JSONEncoder(object):
    def __init__(self, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, sort_keys=False, indent=None, separators=None, default=None):
        if default is not None:
            self.default = default

    def default(self, o):
        raise TypeError("Object is not JSON serializable")

    def encode(self, o):
        return self._tree(o)

    def iterencode(self, o, _one_shot=False):
        return [self._tree(o)]

    def _tree(self, o):
        if o is None or o is True or o is False:
            return o
        if isinstance(o, str):
            return str(o)
        if isinstance(o, int):
            return int(o)
        if isinstance(o, float):
            return float(o)
        if isinstance(o, dict):
            d = {}
            for k, v in o.items():
                d[_key(k)] = self._tree(v)
            return d
        if isinstance(o, (list, tuple)):
            return [self._tree(i) for i in o]
        return self._tree(self.default(o))


def _key(k):
    if k is None:
        return "null"
    if k is True:
        return "true"
    if k is False:
        return "false"
    if isinstance(k, str):
        return str(k)
    if isinstance(k, int):
        return str(int(k))
    if isinstance(k, float):
        return str(k)
    raise TypeError("keys must be str, int, float, bool or None")


def dumps(obj, cls=None, indent=None, sort_keys=False, separators=None, ensure_ascii=True, default=None):
    e = (JSONEncoder if cls is None else cls)(indent=indent, default=default)
    return e.encode(obj)


def loads(s, object_pairs_hook=None, object_hook=None, cls=None):
    return s


def load(fp, object_pairs_hook=None, object_hook=None, cls=None):
    return loads(fp.read(), object_pairs_hook=object_pairs_hook, object_hook=object_hook, cls=cls)


def dump(obj, fp, cls=None, indent=None, sort_keys=False, separators=None, ensure_ascii=True, default=None):
    fp.write(dumps(obj, cls=cls, indent=indent, sort_keys=sort_keys, separators=separators, ensure_ascii=ensure_ascii, default=default))
