"""Mix-in methods of collections.abc, written out so that the analysis can follow calls through them.
Interpreted abstractly by the analysis (never imported by it)."""


class MutableSequence(object):
    def __iter__(self):
        i = 0
        n = len(self)
        while i < n:
            yield self[i]
            i += 1

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        return [self[i] for i in range(len(self) - 1, -1, -1)]

    def index(self, value):
        i = 0
        for v in self:
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return len([v for v in self if v is value or v == value])

    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        while len(self):
            self.pop()

    def reverse(self):
        raise NotImplementedError

    def extend(self, values):
        for v in values:
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self


class Sequence(MutableSequence):
    pass
