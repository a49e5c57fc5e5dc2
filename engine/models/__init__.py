import os

M = "refnx_model"
_here = os.path.dirname(os.path.abspath(__file__))
FILES = {M: os.path.join(_here, "refnx_model.py")}
_names = {
    "flatten": ["refnx._lib.flatten", "refnx._lib.util.flatten"],
    "unique": ["refnx._lib.unique", "refnx._lib.util.unique"],
    "possibly_open_file": ["refnx._lib.possibly_open_file", "refnx._lib.util.possibly_open_file"],
    "UserList": ["collections.UserList"],
}
for _n in ("Parameter", "Parameters", "possibly_create_parameter", "sequence_to_parameters", "is_parameter", "is_parameters",
           "BaseParameter"):
    _names[_n] = ["refnx.analysis." + _n, "refnx.analysis.parameter." + _n]
for _n in ("Structure", "Component", "Scatterer", "Interface", "SLD"):
    _names[_n] = ["refnx.reflect." + _n, "refnx.reflect.structure." + _n]
_names["Interface"].append("refnx.reflect.interface.Interface")
_names["BaseObjective"] = ["refnx.analysis.objective.BaseObjective", "refnx.analysis.BaseObjective"]
MODELS = {full: (M, n) for n, fs in _names.items() for full in fs}
