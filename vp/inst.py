"""Pure-data problem instances and the construction of the library's objects from them.

An instance is plain JSON-able data.  Oracles read *only* this data (and the observable plan), never the attributes of
the library's model objects, so a defect in those attributes cannot hide from them.
"""
from dataclasses import dataclass, field, asdict
from typing import Dict, List, Optional

INF = float("inf")


@dataclass
class S:
    """A service: where, when, how long."""

    x: float
    y: float
    e: float = 0.0
    l: float = INF
    d: float = 0.0

    @property
    def pos(self):
        return (self.x, self.y)


@dataclass
class T:
    id: str
    o: S
    d: S
    cap: float = 1
    timeout: float = INF
    bonus: float = 0.0


@dataclass
class V:
    id: str
    o: S
    d: Optional[S] = None
    cap: float = 1.0
    timeout: float = INF

    @property
    def end(self):
        return self.o if self.d is None else self.d


@dataclass
class Inst:
    metric: str
    vehicles: List[V]
    trips: List[T]
    objective: str = "DialARide"
    tags: List[str] = field(default_factory=list)

    def v(self) -> Dict[str, V]:
        return {v.id: v for v in self.vehicles}

    def t(self) -> Dict[str, T]:
        return {t.id: t for t in self.trips}

    def data(self):
        return asdict(self)


def dist(metric: str, a, b) -> float:
    if metric == "EUCLIDEAN":
        return sum((p - q) ** 2 for p, q in zip(a, b)) ** 0.5
    return float(sum(abs(p - q) for p, q in zip(a, b)))


OBJECTIVES = ("DialARide", "TaxiSharing", "HashCode")


class Built:
    """The library's objects for one instance."""

    def __init__(self, jit, inst: Inst):
        self.inst = inst
        self.jit = jit
        self.surface = jit.GeometricSurface(getattr(jit.DistanceMetric, inst.metric))
        pos = self.surface.get_or_create_position

        def svc(s):
            return jit.Service(pos([s.x, s.y]), earliest=s.e, latest=s.l, duration=s.d)

        self.vehicles = {}
        shared = {}
        for v in inst.vehicles:
            key = (v.o.x, v.o.y, v.o.e, v.o.l, v.o.d)
            origin = shared.setdefault(key, svc(v.o))
            self.vehicles[v.id] = jit.Vehicle(
                v.id, origin, None if v.d is None else svc(v.d), capacity=v.cap, timeout=v.timeout
            )
        self.trips = {
            t.id: jit.Trip(
                t.id, svc(t.o), svc(t.d), capacity=t.cap, on_time_bonus=t.bonus, timeout=t.timeout
            )
            for t in inst.trips
        }
        self.fleet = jit.Fleet(set(self.vehicles.values()))
        self.objective_cls = getattr(jit, inst.objective + "Objective")
        self.job = jit.Job(set(self.trips.values()), self.objective_cls)

    def result(self, routes, computation_time=0.0):
        jit = self.jit
        return jit.Result(jit.NaiveAlgorithm(self.fleet, self.job), jit.Planning(set(routes)), computation_time)

    def pos(self, xy):
        return self.surface.get_or_create_position(list(xy))
