"""A second device in software: tensors carry a device label, operations run on the CPU and are judged as on real hardware.

``with Fake() as f:`` every torch call is observed: factories with ``device=`` and ``.to()`` set the label, results inherit the label
of their inputs, and an operation on tensors of different devices raises what torch raises (``Mixed``), as does ``numpy()`` of a tensor
that is not on the CPU.
"""
import torch
from torch.overrides import TorchFunctionMode, resolve_name
from torch.utils._pytree import tree_flatten

CPU, GPU = torch.device("cpu"), torch.device("cuda:0")


class Mixed(RuntimeError):
    pass


def label(t):
    return getattr(t, "_fake_dev", CPU)


def put(t, d):
    t._fake_dev = d
    return t


def put_module(m, d):
    """What ``m.to(d)`` does: parameters and buffers move, plain attributes stay."""
    for t in list(m.parameters()) + list(m.buffers()):
        t._fake_dev = d
    return m


def _name(func):
    return (resolve_name(func) or getattr(func, "__qualname__", None) or getattr(func, "__name__", "?")).split(".")[-1]


FREE = {"to", "cpu", "cuda", "copy_", "type_as", "sparse_coo_tensor", "tensor", "as_tensor", "set_", "_has_compatible_shallow_copy_type", "Generator", "assert_close"}
INDEX = {"__getitem__", "__setitem__", "index_put_", "index_put"}
HOST = {"numpy", "__array__"}
SILENT = {"__get__", "__set__", "__repr__", "__str__", "__format__"}


class Fake(TorchFunctionMode):
    def __init__(self, ops=None):
        super().__init__()
        self.ops, self.moves = 0, 0
        self.seen = set()

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        if func == torch.Tensor.device.__get__:
            return label(args[0])
        if func == torch.Tensor.is_cuda.__get__:
            return label(args[0]).type == "cuda"
        if func == torch.Tensor.is_cpu.__get__:
            return label(args[0]).type == "cpu"
        if func == torch.Tensor.data.__set__:
            args[0]._fake_dev = label(args[1])          # what Module.to does with a parameter
            return func(*args, **kwargs)
        if func == torch.Tensor.grad.__get__:
            g = func(*args, **kwargs)
            return g if g is None else put(g, label(args[0]))
        name = _name(func)
        if name == "__reduce_ex__":                          # pickling: the label is not part of the tensor
            d = args[0].__dict__.pop("_fake_dev", None)
            try:
                return func(*args, **kwargs)
            finally:
                if d is not None:
                    args[0]._fake_dev = d
        if name == "get_device":
            return -1 if label(args[0]).type == "cpu" else 0
        flat = [x for x in tree_flatten((args, kwargs))[0] if isinstance(x, torch.Tensor)]
        if name == "__deepcopy__":
            flat = [args[0]]
        if name in HOST and flat and label(flat[0]).type != "cpu":
            raise TypeError("can't convert cuda:0 device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first.")
        want = None
        if kwargs.get("device") is not None:
            want = torch.device(kwargs["device"])
            kwargs["device"] = CPU
        if name == "cpu":
            want = CPU
            if label(args[0]) != CPU:
                func, args, kwargs = torch.Tensor.clone, args[:1], {}
        elif name == "cuda":
            want = GPU
            func, args, kwargs = torch.Tensor.clone, args[:1], {}
        elif name == "to":
            rest = []
            for a in args[1:]:
                if isinstance(a, torch.device) or (isinstance(a, str) and a):
                    want = torch.device(a)
                    rest.append(CPU)
                elif isinstance(a, torch.Tensor):
                    want = label(a)
                    rest.append(a)
                else:
                    rest.append(a)
            other = kwargs.get("other")
            if isinstance(other, torch.Tensor):
                want = label(other)
            args = (args[0],) + tuple(rest)
            if want is not None and want != label(args[0]):
                self.moves += 1
                kwargs["copy"] = True
        if want is not None and want.type == "cuda":
            want = GPU
        if name not in FREE and name not in SILENT:
            check = flat[:1] if name in INDEX else flat
            if name in INDEX:
                # the indices may be anywhere a gather allows: on the tensor's device or the CPU; the values go with the tensor
                own = label(flat[0]) if flat else CPU
                idx = [x for x in tree_flatten(args[1:2])[0] if isinstance(x, torch.Tensor)]
                for x in idx:
                    if x.dim() and label(x) not in (own, CPU):
                        raise Mixed("indices should be either on cpu or on the same device as the indexed tensor (%s)" % own)
                check = [flat[0]] + [x for x in tree_flatten(args[2:])[0] if isinstance(x, torch.Tensor)] if flat else []
            devs = {label(x) for x in check if x.dim()}
            # a CPU scalar may take part anywhere, a scalar elsewhere may not
            devs |= {label(x) for x in check if not x.dim() and label(x) != CPU}
            if len(devs) > 1:
                raise Mixed("Expected all tensors to be on the same device, but found at least two devices, %s! (%s)" % (sorted(map(str, devs)), name))
        if name == "sparse_coo_tensor" and want is None and flat and len({label(x) for x in flat}) > 1:
            raise Mixed("sparse_coo_tensor: indices and values on different devices")
        out = func(*args, **kwargs)
        self.ops += 1
        if want is None:
            devs = [label(x) for x in flat if x.dim()] or [label(x) for x in flat]
            if name in ("tensor", "as_tensor"):
                devs = [label(args[0])] if args and isinstance(args[0], torch.Tensor) else []
            elif name in INDEX:
                devs = [label(flat[0])] if flat else []
            want = devs[0] if devs else CPU
        if want != CPU:
            self.seen.add(name)
        if name not in ("__set__",):
            for x in tree_flatten(out)[0]:
                if isinstance(x, torch.Tensor) and not (flat and any(x is y for y in flat)):
                    x._fake_dev = want
                elif isinstance(x, torch.Tensor) and name == "to":
                    x._fake_dev = want
        return out


class Off:
    """The real device again, for the judging side: ``with Fake(): ... with Off(): ...``."""

    def __enter__(self):
        self.g = torch._C.DisableTorchFunction()
        self.g.__enter__()

    def __exit__(self, *a):
        self.g.__exit__(*a)
