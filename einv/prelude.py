"""Names available to program sources."""
import dataclasses
from dataclasses import dataclass
from typing import Any

import numpy


@dataclass
class Pt:
    x: Any
    y: Any


@dataclass
class Seg:
    start: Any
    end: Any


@dataclass
class Swap:
    # field order differs from the alphabetical and from Pt's
    y: Any
    x: Any


@dataclass
class Pt3(Pt):
    # two of the fields are inherited
    z: Any


@dataclass
class Tagged(Swap):
    # an inherited field keeps its position when it is declared again
    x: Any
    w: Any = 0.0


@dataclass(frozen=True, slots=True)
class Frozen:
    im: Any
    re: Any


@dataclass(kw_only=True)
class Named:
    b: Any
    a: Any


@dataclass
class One:
    v: Any


def _ro(a):
    a.flags.writeable = False
    return a


CONST3 = _ro(numpy.array([1.5, -2.0, 0.25]))
CONST23 = _ro(numpy.array([[1.5, -2.0, 0.25], [3.0, 5.0, -7.0]]))

K6 = _ro(numpy.arange(6.0))
K23 = _ro(numpy.arange(6.0).reshape(2, 3))
K32 = _ro(numpy.arange(6.0).reshape(3, 2))
KI3 = _ro(numpy.array([1, 2, 3]))
KF3 = _ro(numpy.array([1.0, 2.0, 3.0]))
KI32 = _ro(numpy.array([1, 2, 3], dtype=numpy.int32))
KB3 = _ro(numpy.array([False, True, True]))
KI01 = _ro(numpy.array([0, 1, 1]))
KZ = _ro(numpy.array([0.0, 1.0]))
KNZ = _ro(numpy.array([-2.0, 1.0]))
KN1 = _ro(numpy.array([1.0, 2.0, 4.0]))
KN1c = _ro(numpy.array([1.0, 2.0, 4.0]))
KN2 = _ro(numpy.array([1.0, 2.0, 5.0]))
KE0 = _ro(numpy.zeros((0,)))
KE03 = _ro(numpy.zeros((0, 3)))
KR0 = _ro(numpy.array(2.5))
KR1 = _ro(numpy.array([2.5]))


def __getattr__(name):
    if name == "SCF":
        from ein.phi.type_system import Scalar

        return Scalar(float)
    raise AttributeError(name)
