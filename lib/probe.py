"""A small parametric generator for the sensitivity checks."""

from hypervehicle import Vehicle
from hypervehicle.components import CompositeComponent, RevolvedComponent, SweptComponent
from hypervehicle.components.polygon import Cube
from hypervehicle.generator import Generator
from hypervehicle.geometry import Line, Polyline, Vector3

import build

V = Vector3
CALLS = []  # keyword arguments of every construction


class Probe(Generator):
    def __init__(self, **kwargs):
        self.length = 2.0
        self.width = 0.5
        self.height = 0.4
        self.angle = 20.0
        self.layout = "bn"  # body, nose, pods, ghost, wedge
        self.analysis = False
        self.props = False
        self.res = 1
        CALLS.append(dict(kwargs))
        super().__init__(**kwargs)

    def create_instance(self) -> Vehicle:
        L, w, h = self.length, self.width, self.height
        v = Vehicle()
        v.configure("probe", verbosity=0)
        dens = {}
        for k in self.layout:
            if k == "b":
                sec = lambda x: build.quad([(x, -w, 0), (x, w, 0), (x, w, h), (x, -w, h)])
                c = SweptComponent([sec(L), sec(0.5 * L), sec(0.0)], stl_resolution=self.res, verbosity=0)
                v.add_component(c, name="body")
                dens["body"] = 2.0
            elif k == "n":
                line = Polyline([Line(V(0.0, 0.0), V(h, w)), Line(V(h, w), V(h, 0.0))])
                c = RevolvedComponent(line, stl_resolution=self.res + 1, verbosity=0)
                v.add_component(c, transformations=[("translate", V(L, 0.0, 0.3))])
                dens["revolved_1"] = 0.5
            elif k == "p":
                c = CompositeComponent(stl_resolution=self.res, verbosity=0, name="pods")
                c.add_component(Cube(w / 4, V(0.0, 0.0, h), verbosity=0))
                # touches the first one in the nominal geometry only
                c.add_component(Cube(0.125, V(0.25, 0.0, 0.4), verbosity=0))
                v.add_component(c, reflection_axis="y")
                dens["pods"] = 1.0
            elif k == "g":
                sec = lambda x: build.quad([(x, 0.1, 0), (x, 0.1 + h, 0), (x, 0.1, L)])
                c = SweptComponent([sec(0.0), sec(1.0)], close_ends=False, stl_resolution=self.res, verbosity=0)
                v.add_component(c, ghost=True, name="ghost")
                dens["ghost"] = 1.5
            elif k == "w":
                sec = lambda x: build.quad([(x, 0.0, 0), (x, 1.0, 0), (x, 1.0, 1.0), (x, 0.0, 1.0)])
                c = SweptComponent([sec(2.0), sec(0.0)], stl_resolution=self.res, verbosity=0)
                v.add_component(c)  # independent of every parameter but the angle
                n = sum(1 for x in v.components if x.componenttype == c.componenttype)
                dens[f"{c.componenttype}_{n}"] = 3.0
        v.add_vehicle_transformations([("rotate", self.angle, "z")])
        if self.analysis:
            v.analyse_after_generating(dens)
        if self.props:
            v.add_property("span", 2 * w)
            v.add_property("slender", L * L / w)
            v.add_property("excess", w - 0.5)  # zero in the nominal geometry
        return v
