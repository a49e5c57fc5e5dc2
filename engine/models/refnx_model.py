"""Reference source for the parts of refnx that refellips builds on.

Transcribed from the documented behaviour of refnx 0.1.67; analysed (never
executed) together with the repository so that inherited behaviour is resolved
like the repository's own.
"""
import vspec
import numpy as np
import operator as op
from contextlib import contextmanager


def flatten(seq):
    return vspec.flatten(seq)


def unique(seq, idfun=id):
    return vspec.uniq(seq)


@contextmanager
def possibly_open_file(f, mode="r"):
    if vspec.isfile(f) or f is None:
        yield f
    else:
        yield vspec.openfile(f)


class UserList:
    def __init__(self, initlist=None):
        self.data = []
        if initlist is not None:
            self.data = list(initlist)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]

    def __setitem__(self, i, item):
        self.data[i] = item

    def __contains__(self, item):
        return item in self.data

    def append(self, item):
        self.data.append(item)

    def extend(self, other):
        self.data.extend(other)

    def insert(self, i, item):
        self.data.insert(i, item)

    def pop(self, i=-1):
        return self.data.pop(i)

    def index(self, item):
        return self.data.index(item)

    def clear(self):
        self.data.clear()

    def reverse(self):
        self.data.reverse()


class BaseParameter:
    def __init__(self):
        self._vary = False
        self._value = 0.0
        self.name = None

    def __float__(self):
        return float(self.value)

    def __array__(self, dtype=None, copy=None):
        return float(self.value)

    def __or__(self, other):
        if not (is_parameter(other) or is_parameters(other)):
            raise ValueError("Can only concatenate")
        p = Parameters()
        p.append(self)
        p.append(other)
        return p

    def __bool__(self):
        return True

    @property
    def vary(self):
        return self._vary

    @vary.setter
    def vary(self, v):
        self._vary = v


def param_or(a, other):
    if not (is_parameter(other) or is_parameters(other)):
        raise ValueError("Can only concatenate")
    p = Parameters()
    p.append(a)
    p.append(other)
    return p


class Parameter(BaseParameter):
    def __init__(self, value=0.0, name=None, bounds=None, vary=False, constraint=None, units=None):
        self.name = name
        self.bounds = bounds
        self.value = np.float64(value)
        self._vary = vary
        self.constraint = constraint
        self.units = units
        self.chain = None
        self.stderr = None
        self._deps = []

    def logp(self, pval=None):
        val = self.value
        if pval is not None:
            val = pval
        return vspec.UF("bounds_logp", "real", self.bounds, val)

    def setp(self, value=None, vary=None, bounds=None, constraint=None):
        if value is not None:
            self.value = np.float64(value)
        if vary is not None:
            self.vary = vary
        if bounds is not None:
            self.bounds = bounds
        if constraint is not None:
            self.constraint = constraint


def is_parameter(x):
    return vspec.isparam(x)


def is_parameters(x):
    return vspec.isparams(x)


def possibly_create_parameter(value, name="", bounds=None, vary=False, constraint=None, units=None):
    if is_parameter(value):
        return value
    return Parameter(value, name=name, bounds=bounds, vary=vary, constraint=constraint, units=units)


def sequence_to_parameters(seq):
    return Parameters([possibly_create_parameter(p) for p in flatten(seq)])


class Parameters(UserList):
    def __init__(self, data=(), name=None):
        self.data = []
        self.name = name
        self.data.extend(data)

    def __ior__(self, other):
        if not (is_parameter(other) or is_parameters(other)):
            raise ValueError("Can only concatenate")
        self.append(other)
        return self

    def __or__(self, other):
        if not (is_parameter(other) or is_parameters(other)):
            raise ValueError("Can only concatenate")
        c = Parameters(self.data, self.name)
        c.append(other)
        return c

    def logp(self):
        return np.sum([param.logp() for param in unique(flatten(self.data)) if param.vary])

    def __array__(self, dtype=None, copy=None):
        return vspec.vals(self.data)

    @property
    def pvals(self):
        return vspec.vals(self.data)

    @pvals.setter
    def pvals(self, pvals):
        varying = [param for param in unique(flatten(self.data)) if param.vary]
        if np.size(pvals) == len(varying):
            for i, param in enumerate(varying):
                param.value = pvals[i]
            return
        flattened_parameters = list(flatten(self.data))
        if np.size(pvals) == len(flattened_parameters):
            for i, param in enumerate(flattened_parameters):
                param.value = pvals[i]
            return
        else:
            raise ValueError("wrong number of values")

    @property
    def parameters(self):
        return self

    @property
    def nparam(self):
        return len(self.flattened())

    def flattened(self, unique=False):
        if unique:
            return list(vspec.uniq(flatten(self.data)))
        else:
            return list(flatten(self.data))

    def names(self):
        return [param.name for param in flatten(self.data)]

    def nvary(self):
        return len([1 for param in unique(flatten(self.data)) if param.vary])

    def varying_parameters(self):
        # constrained parameters are outside the modelled inputs
        return Parameters(unique([p for p in flatten(self.data) if p.vary]))

    def pgen(self, ngen=1000, nburn=0, nthin=1, random_state=None):
        return vspec.UF("pgen", "arr2", self.data, ngen, nburn, nthin, random_state)


class Interface:
    def __init__(self):
        pass


class Scatterer:
    def __init__(self, name=""):
        self.name = name
        self.dispersive = False

    def __complex__(self):
        raise NotImplementedError

    def complex(self, wavelength):
        return complex(self)

    @property
    def parameters(self):
        raise NotImplementedError

    def __call__(self, thick=0, rough=0, vfsolv=0):
        return vspec.UF("refnx_Slab", "object", thick, rough, vfsolv)

    def __or__(self, other):
        slab = self()
        return slab | other


class SLD(Scatterer):
    def __init__(self, value, name=""):
        self.name = name
        self.dispersive = False
        self.value = value

    def __complex__(self):
        return complex(self.value)

    @property
    def parameters(self):
        return Parameters()


class Component:
    def __init__(self, name=""):
        self.name = name
        self._interfaces = None

    @property
    def is_magnetic(self):
        return False

    def __or__(self, other):
        p = Structure()
        p |= self
        p |= other
        return p

    def __mul__(self, n):
        n = op.index(n)
        if n < 1:
            return Structure()
        elif n == 1:
            return self
        else:
            s = Structure()
            s.extend([self] * n)
            return s

    @property
    def parameters(self):
        raise NotImplementedError("override")

    @property
    def interfaces(self):
        return self._interfaces

    @interfaces.setter
    def interfaces(self, interfaces):
        if interfaces is None:
            self._interfaces = None
            return
        if isinstance(interfaces, Interface):
            self._interfaces = interfaces
            return
        _interfaces = [i for i in interfaces if isinstance(i, Interface)]
        if len(_interfaces) == 1:
            self._interfaces = _interfaces[0]
            return
        n_slabs = len(self.slabs())
        if len(_interfaces) == n_slabs:
            self._interfaces = _interfaces
        else:
            raise ValueError("interfaces")

    def slabs(self, structure=None):
        raise NotImplementedError("override")

    def logp(self):
        return 0


class Structure(UserList):
    def __init__(self, components=(), name="", solvent=None, reverse_structure=False, contract=0, wavelength=None):
        self.data = []
        self._name = name
        self._solvent = solvent
        self._reverse_structure = bool(reverse_structure)
        self.contract = contract
        self.wavelength = wavelength
        self.data = [c for c in components if isinstance(c, Component)]

    def __copy__(self):
        s = Structure(name=self.name, solvent=self._solvent)
        s.data = self.data.copy()
        return s

    def append(self, item):
        if isinstance(item, Scatterer):
            self.append(item())
            return
        if not isinstance(item, Component):
            raise ValueError("You can only add Component objects to a structure")
        self.data.append(item)

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, name):
        self._name = name

    @property
    def solvent(self):
        if self._solvent is None:
            if not self.reverse_structure:
                solv_slab = self[-1].slabs(self)
            else:
                solv_slab = self[0].slabs(self)
            return SLD(complex(solv_slab[-1, 1], solv_slab[-1, 2]))
        else:
            return self._solvent

    @solvent.setter
    def solvent(self, sld):
        if sld is None:
            self._solvent = None
        elif isinstance(sld, Scatterer):
            self._solvent = sld
        else:
            self._solvent = SLD(sld)

    @property
    def reverse_structure(self):
        return bool(self._reverse_structure)

    @reverse_structure.setter
    def reverse_structure(self, reverse_structure):
        self._reverse_structure = reverse_structure

    @property
    def interfaces(self):
        return [c.interfaces for c in self.components]

    @property
    def is_magnetic(self):
        return any([c.is_magnetic for c in self.components])

    def _micro_slabs(self, slice_size=0.5):
        sl = [c.slabs(structure=self) for c in self.components]
        total_slabs = np.concatenate(sl)
        total_slabs[1:-1] = self.overall_sld(total_slabs[1:-1], self.solvent)
        return vspec.UF("micro_slice", "arr2", total_slabs, slice_size)

    def overall_sld(self, slabs, solvent):
        solv = solvent
        if isinstance(solvent, Scatterer):
            solv = solvent.complex(self.wavelength)
        return vspec.UF("refnx_overall_sld", "arr2", slabs, solv)

    def __ior__(self, other):
        if isinstance(other, Component):
            self.append(other)
        elif isinstance(other, Structure):
            self.extend(other.data)
        elif isinstance(other, Scatterer):
            slab = other(0, 0)
            self.append(slab)
        else:
            raise ValueError()
        return self

    def __or__(self, other):
        p = Structure()
        p |= self
        p |= other
        return p

    @property
    def components(self):
        return self.data

    @property
    def parameters(self):
        p = Parameters(name="Structure")
        p.extend([component.parameters for component in self.components])
        if self._solvent is not None:
            p.append(self.solvent.parameters)
        return p

    def logp(self):
        logp = 0
        for component in self.components:
            logp += component.logp()
        return logp


class BaseObjective:
    def __init__(self, p, logl, logp=None, fcn_args=(), fcn_kwds=None, name=None, weighted=True):
        self.name = name
        self.parameters = p
        self.nvary = len(p)
        self._logl = logl
        self._logp = logp
        self.fcn_args = fcn_args
        self.fcn_kwds = {}
        self.weighted = weighted
        if fcn_kwds is not None:
            self.fcn_kwds = fcn_kwds

    def nll(self, pvals=None):
        vals = self.parameters
        if pvals is not None:
            vals = pvals
        return -self.logl(vals)

    def logpost(self, pvals=None):
        vals = self.parameters
        if pvals is not None:
            vals = pvals
        logpost = self.logp(vals)
        if not np.isfinite(logpost):
            return -np.inf
        logpost += self.logl(vals)
        return logpost

    def nlpost(self, pvals=None):
        return -self.logpost(pvals)
