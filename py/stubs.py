"""Stand-ins for third-party packages that are not installed, and for the outside world."""
import copy
import enum
import json
import pathlib
import sys
import types
import typing


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if "." in name:
        parent, _, leaf = name.rpartition(".")
        setattr(sys.modules[parent], leaf, m)
    return m


# ---- pydantic ----------------------------------------------------------------
_MISSING = object()


class FieldInfo:
    def __init__(self, default=_MISSING, default_factory=None, **kw):
        self.default = default
        self.default_factory = default_factory

    def value(self):
        if self.default_factory is not None:
            return self.default_factory()
        return copy.deepcopy(self.default)


def Field(default=_MISSING, **kw):
    return FieldInfo(default, **kw)


def _coerce(tp, v):
    if isinstance(tp, type):
        if issubclass(tp, BaseModel) and isinstance(v, dict):
            return tp(**v)
        if issubclass(tp, enum.Enum) and not isinstance(v, tp):
            return tp(v)
        if issubclass(tp, pathlib.PurePath) and isinstance(v, str):
            return tp(v)
    args = typing.get_args(tp)
    if typing.get_origin(tp) is list and args and isinstance(v, list):
        return [_coerce(args[0], x) for x in v]
    if typing.get_origin(tp) is typing.Union and v is not None:
        for a in args:
            if a is pathlib.Path and isinstance(v, str):
                return pathlib.Path(v)
    return v


def _plain(v):
    if isinstance(v, BaseModel):
        return {k: _plain(x) for k, x in v.__dict__.items()}
    if isinstance(v, enum.Enum):
        return v.value
    if isinstance(v, pathlib.PurePath):
        return str(v)
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return v


class BaseModel:
    def __init_subclass__(cls, **kw):
        super().__init_subclass__()

    @classmethod
    def _fields(cls):
        out = {}
        for c in reversed(cls.__mro__):
            for k in getattr(c, "__annotations__", {}):
                if k.startswith("_"):
                    continue
                out[k] = c.__dict__.get(k, _MISSING)
        return out

    def __init__(self, **data):
        fields = type(self)._fields()
        for k in data:
            if k not in fields:
                raise ValueError("unexpected field " + k)
        hints = type(self).__dict__.get("_hints")
        if hints is None:
            hints = typing.get_type_hints(type(self))
            type(self)._hints = hints
        for k, d in fields.items():
            if k in data:
                v = _coerce(hints.get(k), data[k])
            elif isinstance(d, FieldInfo):
                v = d.value()
            elif d is _MISSING:
                raise ValueError("missing field " + k)
            else:
                v = copy.deepcopy(d)
            self.__dict__[k] = v

    def model_dump(self, **kw):
        return {k: (v.model_dump() if isinstance(v, BaseModel) else copy.deepcopy(v))
                for k, v in self.__dict__.items()}

    def model_dump_json(self, indent=None, **kw):
        return json.dumps(_plain(self), indent=indent)

    def model_copy(self, update=None, deep=False):
        r = copy.deepcopy(self) if deep else copy.copy(self)
        r.__dict__.update(update or {})
        return r

    copy = model_copy

    @classmethod
    def model_validate(cls, data):
        return data if isinstance(data, cls) else cls(**data)

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.__dict__)


# ---- igraph ------------------------------------------------------------------
class Vertex:
    def __init__(self, g, i):
        self.graph, self.index = g, i

    def __getitem__(self, k):
        return self.graph._attrs[self.index][k]

    def attributes(self):
        return dict(self.graph._attrs[self.index])

    def degree(self, mode="all"):
        return len(self.graph.neighbors(self.index, mode))

    def predecessors(self):
        return [Vertex(self.graph, i) for i in self.graph.predecessors(self.index)]

    def successors(self):
        return [Vertex(self.graph, i) for i in self.graph.successors(self.index)]


class VertexSeq:
    def __init__(self, g, idx=None):
        self.graph = g
        self.idx = idx

    def _list(self):
        return list(range(len(self.graph._attrs))) if self.idx is None else self.idx

    @property
    def indices(self):
        return list(self._list())

    def __len__(self):
        return len(self._list())

    def __iter__(self):
        return (Vertex(self.graph, i) for i in self._list())

    def __getitem__(self, k):
        if isinstance(k, str):
            return [self.graph._attrs[i][k] for i in self._list()]
        if isinstance(k, int):
            return Vertex(self.graph, self._list()[k])
        if isinstance(k, slice):
            return VertexSeq(self.graph, self._list()[k])
        base = self._list()
        return VertexSeq(self.graph, [base[i] for i in k])

    def find(self, arg=None, **kw):
        for v in self:
            if arg is not None and (v["name"] == arg if isinstance(arg, str) else v.index == arg):
                return v
            if kw and all(v[k.removesuffix("_eq")] == x for k, x in kw.items()):
                return v
        raise ValueError("no such vertex: %s" % (kw or arg))

    def select(self, arg=None, **kw):
        if arg is not None:
            return self[list(arg)]
        out = []
        for v in self:
            ok = True
            for k, x in kw.items():
                if k.endswith("_in"):
                    ok = ok and v[k[:-3]] in x
                else:
                    ok = ok and v[k.removesuffix("_eq")] == x
            if ok:
                out.append(v.index)
        return VertexSeq(self.graph, out)


class Graph:
    order_rng = None  # seeded per run: which of the valid orders the library returns

    def __init__(self, n=0, edges=None, directed=False, **kw):
        self._attrs = [{} for _ in range(n)]
        self._edges = list(edges or [])

    def _ix(self, v):
        if isinstance(v, Vertex):
            return v.index
        return v if isinstance(v, int) else self.vs.find(name=v).index

    @property
    def vs(self):
        return VertexSeq(self)

    def vcount(self):
        return len(self._attrs)

    def ecount(self):
        return len(self._edges)

    def add_vertex(self, name=None, **kw):
        if name is not None:
            kw["name"] = name
        self._attrs.append(kw)
        return Vertex(self, len(self._attrs) - 1)

    def add_edge(self, a, b, **kw):
        self._edges.append((self._ix(a), self._ix(b)))

    def add_edges(self, es):
        for a, b in es:
            self.add_edge(a, b)

    def get_edgelist(self):
        return list(self._edges)

    def predecessors(self, v):
        v = self._ix(v)
        return [a for a, b in self._edges if b == v]

    def successors(self, v):
        v = self._ix(v)
        return [b for a, b in self._edges if a == v]

    def neighbors(self, v, mode="all"):
        mode = str(mode).lower()
        if mode == "in":
            return self.predecessors(v)
        if mode == "out":
            return self.successors(v)
        return self.predecessors(v) + self.successors(v)

    def subcomponent(self, v, mode="all"):
        mode = str(mode).lower()
        seen, todo = [], [self._ix(v)]
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.append(x)
            todo += self.neighbors(x, mode)
        return seen

    def induced_subgraph(self, vertices, implementation="auto"):
        ids = sorted(set(self._ix(v) for v in vertices))
        g = Graph(directed=True)
        g._attrs = [dict(self._attrs[i]) for i in ids]
        new = {o: i for i, o in enumerate(ids)}
        g._edges = [(new[a], new[b]) for a, b in self._edges if a in new and b in new]
        return g

    subgraph = induced_subgraph

    def is_dag(self):
        try:
            self.topological_sorting()
            return True
        except Exception:
            return False

    def topological_sorting(self, mode="out"):
        back = str(mode).lower() == "in"
        edges = [(b, a) for a, b in self._edges] if back else list(self._edges)
        indeg = [0] * len(self._attrs)
        for a, b in edges:
            indeg[b] += 1
        ready = [i for i, d in enumerate(indeg) if d == 0]
        out = []
        while ready:
            k = Graph.order_rng.randrange(len(ready)) if Graph.order_rng else 0
            x = ready.pop(k)
            out.append(x)
            for a, b in edges:
                if a == x:
                    indeg[b] -= 1
                    if indeg[b] == 0:
                        ready.append(b)
        if len(out) != len(self._attrs):
            raise RuntimeError("graph has a cycle")
        return out


# ---- plumbum -----------------------------------------------------------------
class CommandNotFound(AttributeError):
    def __init__(self, program, path):
        super().__init__(program, path)
        self.program = program
        self.path = path


class ProcessExecutionError(EnvironmentError):
    def __init__(self, argv, retcode, stdout, stderr):
        super().__init__(argv, retcode, stdout, stderr)
        self.argv, self.retcode, self.stdout, self.stderr = argv, retcode, stdout, stderr


class World:
    """Simulated programs; `execute(argv, env, cwd)` returns (code, stdout, stderr)."""
    programs = {}
    execute = None


class Command:
    def __init__(self, name, args=(), env=None, cwd=None):
        self.name, self.args, self.env_, self.cwd_ = name, list(args), dict(env or {}), cwd

    def __getitem__(self, args):
        args = list(args) if isinstance(args, (tuple, list)) else [args]
        return Command(self.name, self.args + args, self.env_, self.cwd_)

    def with_env(self, **env):
        return Command(self.name, self.args, {**self.env_, **env}, self.cwd_)

    def with_cwd(self, cwd):
        return Command(self.name, self.args, self.env_, cwd)

    def run(self, args=(), retcode=0, **kw):
        code, out, err = World.execute([self.name] + self.args + [str(a) for a in args],
                                       self.env_, self.cwd_)
        ok = retcode is None or code == retcode or (
            isinstance(retcode, (list, tuple, set)) and code in retcode)
        if not ok:
            raise ProcessExecutionError([self.name] + self.args, code, out, err)
        return code, out, err

    def __call__(self, *args, **kw):
        return self.run(args, **kw)[1]

    def __and__(self, mod):
        return mod.__rand__(self)


class TEE:
    def __init__(self, retcode=0, buffered=True, timeout=None):
        self.retcode = retcode

    def __rand__(self, cmd):
        return cmd.run((), retcode=self.retcode)


class FG(TEE):
    def __rand__(self, cmd):
        cmd.run((), retcode=self.retcode)


class Local:
    def __getitem__(self, name):
        name = str(name)
        if name not in World.programs:
            raise CommandNotFound(name, ["/usr/bin"])
        return Command(name)

    def which(self, name):
        self[name]
        return name

    env = {}


def install():
    module("pydantic", BaseModel=BaseModel, Field=Field)
    module("igraph", Graph=Graph)
    docker = module("docker")
    module("docker.models")
    module("docker.models.containers", Container=type("Container", (), {}))
    docker.from_env = lambda: None
    local = Local()
    module("plumbum", local=local, CommandNotFound=CommandNotFound, TEE=TEE, FG=FG,
           ProcessExecutionError=ProcessExecutionError)
    module("psutil", Process=type("Process", (), {}), process_iter=lambda *a, **k: [],
           NoSuchProcess=type("NoSuchProcess", (Exception,), {}),
           AccessDenied=type("AccessDenied", (Exception,), {}))
