"""Statement trees that the scenarios are run on."""


def dl(s):
    return ("dl", s)


def bad(s):
    return ("dl!", s)


PLAIN = [
    dl("x"), dl("x y"), dl("x x"), dl("x y x"),
    ("and", dl("x"), dl("y")), ("and", dl("x y"), dl("y x")), ("and", dl("x"), dl("y"), dl("x")),
    ("and", ("and", dl("x"), dl("y")), dl("x z")),
    ("or", dl("x"), dl("y")), ("or", dl("x"), bad("y")), ("or", bad("x"), dl("x y")),
    ("or", bad("x"), dl("x"), bad("y z")),
    ("or", ("and", dl("x"), dl("x y")), bad("z")), ("or", bad("z"), ("and", dl("x"), dl("x y"))),
    ("and", ("or", dl("x"), bad("y")), dl("z")), ("and", dl("z"), ("or", bad("x"), dl("y")), dl("z")),
    ("or", ("or", bad("x"), dl("y")), dl("z")), ("or", bad("x"), ("or", bad("y"), dl("z"))),
    ("and", ("or", dl("x"), bad("y")), ("or", bad("u"), dl("v"))),
    ("or", ("and", ("or", dl("x"), bad("y")), dl("z")), bad("w")),
]
OTHER = [("dl@415", "x y"), ("dl#g1", "x y"), ("dl#g2", "x"), ("dl#gt", "x y"),
         ("and", ("dl@415", "x"), ("dl", "y")), ("or", ("dl#gt", "x"), ("dl#g1!", "y"))]
NE = [("ne", "x", False), ("ne", "x", True), ("and", ("ne", "x", True), dl("x")),
      ("and", dl("x y"), ("ne", "x", True), ("ne", "y", True)),
      ("or", ("ne", "x", False), bad("y")), ("or", dl("y"), ("ne!", "x", True)),
      ("or", ("ne!", "x", True), ("ne", "x", True)),
      ("and", ("or", ("ne", "x", True), bad("y")), dl("z"))]
P2 = [("p2", 1, "x", 0), ("p2", 1, "x", 1), ("p2", 2, "x", 1), ("p2", 2, "x", 2), ("p2", 3, "x", 5)]
RANGE = [("range", 0, 1, "x", 0), ("range", 0, 2, "x", 1), ("range", 0, 3, "x", 2), ("range", -2, 2, "x", -1),
         ("range", 5, 10, "x", 5), ("range", 5, 10, "x", 9),
         ("or", ("range", 0, 3, "x", 1), bad("y")), ("or", bad("y"), ("range", 0, 2, "x", 1)),
         ("and", ("range", 0, 2, "x", 0), dl("x"))]
BBS = [("bbs", 1, True), ("bbs", 1, False), ("bbs", 3, True), ("or", ("bbs", 1, True), ("dl#g1!", "z")),
       ("or", ("dl#g1", "z"), ("bbs", 2, False)), ("and", ("bbs", 1, True), ("dl#g1", "t.0_m0 z"))]
EXT = [("ext", dl("x y")), ("ext", ("and", dl("x"), dl("y"))), ("ext", ("or", dl("x"), bad("y"))),
       ("and", ("ext", dl("x")), ("ext", dl("x y"))), ("and", dl("x"), ("ext", dl("x"))),
       ("or", ("ext", dl("x")), bad("y")), ("or", dl("y"), ("ext", dl("x")), ("ext", bad("z"))),
       ("ext0", dl("x y")), ("and", dl("x"), ("ext0", dl("x y"))), ("and", ("ext", dl("x")), ("ext0", ("and", dl("x"), dl("x y")))),
       ("or", ("ext0", dl("x x")), bad("y")), ("or", ("and", ("ext0", dl("x")), dl("x")), ("ext0", bad("x")))]

ALL = PLAIN + OTHER + NE + P2 + RANGE + BBS + EXT
# one of each kind
SOME = [PLAIN[2], PLAIN[5], PLAIN[9], PLAIN[12], PLAIN[14], PLAIN[17], PLAIN[19], NE[1], NE[4], P2[2], RANGE[3],
        BBS[0], EXT[0], EXT[5]]
ORS = [s for s in PLAIN if "or" in repr(s)] + NE[4:] + [P2[2]] + BBS[3:5] + EXT[5:]


def many(k, kind="and", leaf=dl):
    return (kind,) + tuple(leaf("x%d" % i) for i in range(k))


def nested(k):
    s = dl("x0")
    for i in range(1, k):
        s = ("and" if i % 2 else "or", s, dl("x%d" % i) if i % 2 else bad("x%d" % i))
    return s


BIG = [dl(" ".join("x%d" % i for i in range(9))), dl("x x x x y y x"), many(7), many(6, "or"), nested(6),
       ("or",) + tuple(bad("y%d" % i) for i in range(5)) + (dl("x"),),
       ("and",) + tuple(("or", dl("x%d" % i), bad("y%d" % i)) for i in range(4)),
       ("or",) + tuple(("and", dl("x%d" % i), dl("y%d x%d" % (i, i))) for i in range(4)),
       many(5, "or", bad) + (("ne", "z", True),), ("and",) + tuple(("ne", "x%d" % i, i % 2 == 0) for i in range(4)),
       dl(" ".join("x%d" % i for i in range(40))), dl(" ".join("x%d" % (i * 7 % 20) for i in range(40))), many(34), many(20, "or"), nested(12),
       ("and",) + tuple(dl("x%d y%d x%d" % (i, i, i + 1)) for i in range(17)),
       ("and", many(18), ("or", dl(" ".join("y%d" % i for i in range(18))), bad("u")), ("ne", "x3", True))]
