"""Stub of the meshcat visualizer: keeps the tree of named objects that a real
viewer would show, and a log of the commands.  (No viewer exists offline.)"""
from . import patch, sched


class FakeVis:
    def __init__(self, root=None, path=(), **kw):
        self._root = root or self
        self._path = path
        if root is None:
            self.tree = {}          # path tuple -> dict(object=, transform=)
            self.cmds = []
            self.ncmd = 0
            w = patch.world()
            if w is not None and patch.CHILD is None:
                w.__dict__.setdefault("visualizers", []).append(self)

    def _cmd(self, name, *args):
        r = self._root
        r.ncmd += 1
        w = patch.world()
        if w is not None:
            w.point("viewer." + name)
            for cb in getattr(w, "on_viewer", ()) if patch.CHILD is None else ():
                cb(r, name, r.ncmd)
        r.cmds.append((name, self._path) + args)

    def __getitem__(self, p):
        return FakeVis(self._root, self._path + tuple(x for x in p.split("/") if x))

    def set_object(self, obj, material=None):
        self._cmd("set_object", obj, material)
        self._root.tree[self._path] = dict(object=obj, material=material, transform=None)

    def set_transform(self, m):
        self._cmd("set_transform", m)
        if self._path in self._root.tree:
            self._root.tree[self._path]["transform"] = m

    def set_property(self, *a):
        self._cmd("set_property")

    def delete(self):
        self._cmd("delete")
        n = len(self._path)
        for p in [p for p in self._root.tree if p[:n] == self._path]:
            del self._root.tree[p]

    def open(self):
        self._cmd("open")
        return self

    def url(self):
        return "http://sim"

    def close(self):
        pass

    def wait(self):
        pass

    def __repr__(self):
        return "<FakeVis %s>" % "/".join(self._path)


def install():
    import meshcat
    meshcat.Visualizer = FakeVis
