"""The part of lxml.etree the library uses, written out so that the analysis can follow calls through it.
Interpreted abstractly by the analysis (never imported by it)."""


class Element(object):
    def __init__(self, _tag, attrib=None, nsmap=None, **extra):
        self.tag = _tag
        self.nsmap = {} if nsmap is None else nsmap
        self.attrib = {}
        if attrib is not None:
            for k in attrib:
                self.attrib[k] = attrib[k]
        for k in extra:
            self.attrib[k] = extra[k]
        self.text = None
        self.tail = None
        self._kids = []
        self._up = None

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def keys(self):
        return list(self.attrib.keys())

    def items(self):
        return list(self.attrib.items())

    def getparent(self):
        return self._up

    def append(self, child):
        if child._up is not None:
            child._up.remove(child)
        child._up = self
        self._kids.append(child)

    def extend(self, children):
        for c in list(children):
            self.append(c)

    def insert(self, index, child):
        if child._up is not None:
            child._up.remove(child)
        child._up = self
        self._kids.insert(index, child)

    def remove(self, child):
        if child._up is not self:
            raise ValueError("Element is not a child of this node.")
        child._up = None
        self._kids = [c for c in self._kids if c is not child]

    def clear(self):
        for c in self._kids:
            c._up = None
        self._kids = []
        self.attrib.clear()
        self.text = None

    def replace(self, old, new):
        at = self.index(old)
        if new._up is not None:
            new._up.remove(new)
        old._up = None
        new._up = self
        self._kids[at] = new

    def index(self, child, start=None, stop=None):
        at = 0
        for c in self._kids:
            if c is child:
                return at
            at = at + 1
        raise ValueError("Element is not a child of this node.")

    def values(self):
        return list(self.attrib.values())

    def getnext(self):
        if self._up is None:
            return None
        found = False
        for c in self._up._kids:
            if found:
                return c
            if c is self:
                found = True
        return None

    def getprevious(self):
        if self._up is None:
            return None
        last = None
        for c in self._up._kids:
            if c is self:
                return last
            last = c
        return None

    def getroottree(self):
        top = self
        while top._up is not None:
            top = top._up
        return _Tree(top)

    def __contains__(self, child):
        for c in self._kids:
            if c is child:
                return True
        return False

    def __getitem__(self, key):
        return self._kids[key]

    def __setitem__(self, key, value):
        if isinstance(key, slice):
            for c in self._kids[key]:
                self.remove(c)
            for c in list(value):
                self.append(c)
        else:
            self.replace(self._kids[key], value)

    def __delitem__(self, key):
        if isinstance(key, slice):
            for c in self._kids[key]:
                self.remove(c)
        else:
            self.remove(self._kids[key])

    def getchildren(self):
        return list(self._kids)

    def __iter__(self):
        return iter(list(self._kids))

    def __len__(self):
        return len(self._kids)

    def iter(self, tag=None):
        out = []
        if tag is None or tag == "*" or tag == self.tag:
            out.append(self)
        for c in self._kids:
            for x in c.iter(tag):
                out.append(x)
        return out

    def iterdescendants(self, tag=None):
        out = []
        for c in self._kids:
            for x in c.iter(tag):
                out.append(x)
        return out

    def iterchildren(self, tag=None):
        return [c for c in self._kids if tag is None or tag == "*" or c.tag == tag]

    def iterancestors(self):
        out = []
        c = self._up
        while c is not None:
            out.append(c)
            c = c._up
        return out

    def find(self, path):
        for c in self.xpath(path):
            return c
        return None

    def findtext(self, path, default=None):
        for c in self.xpath(path):
            return "" if c.text is None else c.text
        return default

    def iterfind(self, path):
        return self.xpath(path)

    def findall(self, path):
        return self.xpath(path)

    def xpath(self, expr):
        steps = _steps(expr)
        if steps[0]:
            top = self
            while top._up is not None:
                top = top._up
            cur = [_Doc(top)]
        else:
            cur = [self]
        for tag, tests in steps[1]:
            nxt = []
            for e in cur:
                if tag == ".":
                    cand = [e]
                elif tag == "..":
                    cand = [e._up] if e._up is not None else []
                else:
                    cand = [c for c in e._kids if tag == "*" or c.tag == tag]
                for t in tests:
                    if isinstance(t, int):
                        cand = cand[t - 1:t] if t > 0 else []
                    else:
                        cand = [c for c in cand if _holds(c, t)]
                for c in cand:
                    seen = False
                    for x in nxt:
                        if x is c:
                            seen = True
                    if not seen:
                        nxt.append(c)
            cur = nxt
        # lxml leaves the document itself out of the answer
        return [c for c in cur if not isinstance(c, _Doc)]


def _string(e):
    r = "" if e.text is None else e.text
    for k in e._kids:
        r = r + _string(k)
    return r


def _holds(e, group):
    for attribute, name, value in group:
        if attribute:
            if name not in e.attrib or value is not None and e.attrib[name] != value:
                return False
        else:
            found = False
            for k in e._kids:
                if k.tag == name and (value is None or _string(k) == value):
                    found = True
            if not found:
                return False
    return True


class _Doc(object):
    def __init__(self, top):
        self._kids = [top]
        self._up = None
        self.attrib = {}
        self.text = None
        self.tag = ""


class _Tree(object):
    def __init__(self, top):
        self._top = top

    def getroot(self):
        return self._top


def SubElement(_parent, _tag, attrib=None, nsmap=None, **extra):
    e = Element(_tag, attrib, nsmap, **extra)
    _parent.append(e)
    return e


def _steps(expr):
    raise NotImplementedError
