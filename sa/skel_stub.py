"""Stand-ins for pyang's statement tree.  Interpreted abstractly by the analysis (never imported by it)."""


class Stmt(object):
    def search_one(self, keyword, arg=None, children=None):
        for s in self.substmts if children is None else children:
            if s.keyword == keyword and (arg is None or s.arg == arg):
                return s
        return None

    def search(self, keyword, children=None, arg=None):
        return [s for s in (self.substmts if children is None else children) if s.keyword == keyword and (arg is None or s.arg == arg)]

    def main_module(self):
        return self.i_main


class Opts(object):
    pass


class Ctx(object):
    def get_module(self, name, revision=None):
        return self.mods.get(name)

    def search_module(self, pos, name, revision=None, primary_module=False):
        return self.mods.get(name)


class Fd(object):
    def write(self, s):
        self.out.append(s)

    def flush(self):
        return None

    def fileno(self):
        return 1

    def close(self):
        return None


def prefix_to_module(module, prefix, pos, errors):
    if prefix == "":
        return module
    for s in module.substmts:
        if s.keyword == "prefix" and s.arg == prefix:
            return module
        if s.keyword == "belongs-to":
            for p in s.substmts:
                if p.keyword == "prefix" and p.arg == prefix:
                    return module
        if s.keyword == "import":
            for p in s.substmts:
                if p.keyword == "prefix" and p.arg == prefix:
                    return module.i_ctx.mods.get(s.arg)
    return None
