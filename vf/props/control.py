from vf.control import ControlProp

BASE = {}


class C01(ControlProp):
    id = "C01"
    weights = {"wind": 14, "callcc": 7, "reenter": 8, "throw": 4, "catch": 5, "tstep": 3, "map": 2, "guardact": 3}
    interesting = ("wind-in", "wind-out", "throw")


class C02(ControlProp):
    id = "C02"
    weights = {"callcc": 12, "reenter": 12, "map": 5, "apply": 4, "let": 6, "letrec": 2, "loop": 4, "wind": 1, "catch": 2, "throw": 1, "tstep": 1, "values": 2, "guardact": 1}
    interesting = ("cont-invoke",)


class C03(ControlProp):
    id = "C03"
    weights = {"catch": 14, "throw": 8, "tstep": 8, "err": 3, "wind": 4, "callcc": 4, "reenter": 3, "guardact": 2}
    interesting = ("throw", "io-throw")


class C05(ControlProp):
    id = "C05"
    weights = {"promise": 9, "force": 14, "callcc": 5, "reenter": 5, "throw": 2, "catch": 4, "tstep": 3}
    nprom = 3
    any = .5
    interesting = ("force", "force-lost")


PROPS = [C01(), C02(), C03(), C05()]
