"""The registry of checks: property id -> module that builds it."""
import importlib

WHERE = {}
for _mod, _ids in {
    "lists": "L01 L02 L03 L04 L05 L06",
    "skip": "L07",
    "containers": "Q01 Q02 Q03 Q04",
    "heap": "H01 H02",
    "nodes": "T01 T02",
    "kin": "N01 N02",
    "interplay": "I01 I02",
    "failing": "I03",
    "conv": "I04",
    "tries": "W01 W02",
    "pictures": "V01 V02",
    "suffix": "X01 X02 X03 X04 X05",
    "search": "B01 B02 A01 A02 R01 R02 S01 S02 P01 P02",
}.items():
    for _i in _ids.split():
        WHERE[_i] = _mod


def load(pid):
    return importlib.import_module("checks." + WHERE[pid]).build(pid)
