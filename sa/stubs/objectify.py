"""The part of lxml.objectify and lxml.etree the XML encoder and decoder use, written out so that the analysis can
follow calls through it.  Interpreted abstractly by the analysis (never imported by it)."""


class ElementMaker(object):
    def __init__(self, namespace=None, nsmap=None, annotate=True, makeelement=None):
        self._namespace = namespace
        self._nsmap = nsmap

    def __call__(self, tag, *children, **attrib):
        t = tag if self._namespace is None or tag[:1] == "{" else "{%s}%s" % (self._namespace, tag)
        e = ObjectifiedElement(t, self._nsmap)
        for c in children:
            if c is None:
                continue
            if isinstance(c, ObjectifiedElement):
                e.append(c)
            elif isinstance(c, str):
                e.text = str(c) if e.text is None else e.text + str(c)
            elif isinstance(c, bool):
                e.text = "true" if c else "false"
            elif isinstance(c, (int, float)):
                e.text = str(c)
            else:
                raise TypeError("bad argument type")
        for k in attrib:
            e.attrib[k] = attrib[k]
        return e


class ObjectifiedElement(object):
    def __init__(self, tag, nsmap=None):
        self.tag = tag
        self.nsmap = {} if nsmap is None else nsmap
        self.attrib = {}
        self.text = None
        self._kids = []
        self._up = None

    def append(self, child):
        if child._up is not None:
            child._up._kids.remove(child)
        child._up = self
        self._kids.append(child)

    def getparent(self):
        return self._up

    def getchildren(self):
        return list(self._kids)

    def iterchildren(self):
        return iter(list(self._kids))

    def countchildren(self):
        return len(self._kids)

    def __len__(self):
        # the number of siblings of the same name
        if self._up is None:
            return 1
        return len([k for k in self._up._kids if k.tag == self.tag])

    def __bool__(self):
        if self._kids:
            return True
        return bool(self.pyval)

    def __getitem__(self, key):
        if isinstance(key, int):
            return [k for k in self._up._kids if k.tag == self.tag][key]
        return self._child(key)

    def __getattr__(self, name):
        return self._child(name)

    def _child(self, name):
        t = name if name[:1] == "{" else _ns(self.tag) + name
        for k in self._kids:
            if k.tag == t:
                return k
        raise AttributeError("no such child: " + t)

    @property
    def pyval(self):
        return _pyval(self.text)

    def __str__(self):
        t = self.pyval
        return str(t)

    def __int__(self):
        return int(self.pyval)

    def __index__(self):
        return int(self.pyval)

    def __float__(self):
        return float(self.pyval)

    def __hash__(self):
        return hash(self.pyval)

    def __eq__(self, other):
        return self.pyval == (other.pyval if isinstance(other, ObjectifiedElement) else other)

    def __ne__(self, other):
        return not self == other


def _ns(tag):
    if tag[:1] == "{":
        return tag[: tag.index("}") + 1]
    return ""


def _pyval(text):
    """What objectify takes the text of an element without children for."""
    if text is None:
        return ""
    t = text.strip()
    d = t[1:] if t[:1] in ("+", "-") else t
    if d.isdigit():
        return int(t)
    if "." in d and d.replace(".", "", 1).isdigit():
        return float(t)
    if d in ("inf", "nan", "Infinity", "NaN", "INF"):
        return float(t)
    if text == "true":
        return True
    if text == "false":
        return False
    return text


class QName(object):
    def __init__(self, element):
        t = element if isinstance(element, str) else element.tag
        if t[:1] == "{":
            i = t.index("}")
            self.namespace = t[1:i]
            self.localname = t[i + 1 :]
        else:
            self.namespace = None
            self.localname = t
        self.text = t


class XMLParser(object):
    pass


def makeparser(**kw):
    return XMLParser()


def fromstring(xml, parser=None):
    return xml


def tostring(doc, **kw):
    return doc
