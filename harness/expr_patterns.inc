// Shapes of expressions that simplification is expected to recognize: x, y, ... stand for any expression, c0, c1, ... for
// constants, maybe(p) for p or nothing.
"min(x, INTMAX)",
"min(x, PINF)",
"min(x, INTMIN)",
"min(x, NINF)",
"min(x, x + maybe(c0))",
"min(x, y)",
"min(max(x, c0)/maybe(c1), c2)",
"min(min(y, max(x, c0)/maybe(c1)), c2)",
"min(min(x, y), min(x, z))",
"min(min(x, y), min(z, w))",
"min(x, min(x, y))",
"min(x, min(y, min(x, z)))",
"min(x, min(y, min(z, min(x, w))))",
"min(x, min(y, min(z, min(w, min(x, u)))))",
"min(x, min(y, min(z, min(w, min(u, min(x, v))))))",
"min(max(y, x + maybe(c0)) + maybe(c1), max(z, x + maybe(c2)))",
"min(x, min(y, x + maybe(c0)) + maybe(c1))",
"min(x + maybe(c0), max(y, min(x, z) + maybe(c1)))",
"min(max(x, min(y, c0)), c1)",
"min(min(x, y), max(x, z))",
"min(x, min(y, max(x, z)))",
"min(x, max(y, min(x, z)))",
"min(min(y, max(x, z)), max(w, z))",
"min(x, max(x, y) + maybe(c1))",
"min(x, max(y, x + maybe(c0)))",
"min(x + maybe(z), min(y, x + maybe(w)))",
"min(x + maybe(y), x + z)",
"min(x + maybe(y), x - z)",
"min(y - x, z - x)",
"min(x - y, x - z)",
"min(x, -x)",
"min(x, select(y, max(z, min(x, u)), w))",
"min(x, select(y, z, max(w, min(x, u))))",
"min(x, select(y, min(x, z), w))",
"min(x, select(y, z, min(x, w)))",
"min(x, select(y, max(x, z), w))",
"min(x, select(y, z, max(x, w)))",
"min(y, select(x, y, w))",
"min(z, select(x, w, z))",
"min(maybe(w) + select(x, y, z), select(x, u, v))",
"min(min(v, select(x, y, z)), select(x, w, u))",
"min(max(v, select(x, y, z)), select(x, w, u))",
"min(w - select(x, y, z), select(x, u, v))",
"min(select(x, y, z) - w, select(x, u, v))",
"min(select(x, y, select(z, w, u)), select(z, v, t))",
"min(select(x, select(z, w, u), y), select(z, v, t))",
"min(x + maybe(c2), select(c0 < x, y, c1))",
"min(x + maybe(c2), select(c0 < x, c1, y))",
"min(x + maybe(c2), select(x < c0, y, c1))",
"min(x + maybe(c2), select(x < c0, c1, y))",
"min(min(x, c0), c1)",
"min(x, min(y, c0))",
"min(x + c0, (y + c1)/c2)",
"min(x + c0, y + c1)",
"min(x + c0, c1 - maybe(y))",
"min(c0 - x, c1 - maybe(y))",
"min(min(x, c0) + maybe(c1), min(y, c2))",
"min(max(x, c0) + maybe(c1), max(y, c2))",
"min(x + c0, select(y, maybe(z) + c1, maybe(w) + c2))",
"min(select(y, c1, c2), c0)",
"min(x*c0, c1)",
"min(x*c0, y*c1)",
"min(y*c0 + c1, x*c0)",
"min(y/c0 + maybe(c1), x/c0)",
"min(x/c0, c1)",
"min(staircase(x, c0, c1, c2), staircase(x, c3, c4, c5) + maybe(c6))",
"min(x, abs(x))",
"max(x, INTMIN)",
"max(x, NINF)",
"max(x, INTMAX)",
"max(x, PINF)",
"max(x, x + maybe(c0))",
"max(x, y)",
"max(max(x, y), max(x, z))",
"max(max(x, y), max(z, w))",
"max(x, max(x, y))",
"max(x, max(y, max(x, z)))",
"max(x, max(y, max(z, max(x, w))))",
"max(x, max(y, max(z, max(w, max(x, u)))))",
"max(x, max(y, max(z, max(w, max(u, max(x, v))))))",
"max(min(y, x + maybe(c0)) + maybe(c1), min(z, x + maybe(c2)))",
"max(x, max(y, x + maybe(c0)) + maybe(c1))",
"max(x + maybe(c0), min(y, max(x, z) + maybe(c1)))",
"max(min(x, max(y, c0)), c1)",
"max(min(x, y), max(x, z))",
"max(x, max(y, min(x, z)))",
"max(x, min(y, max(x, z)))",
"max(min(w, z), max(y, min(x, z)))",
"max(x, min(y, x + maybe(c0)))",
"max(x, min(x, y) + maybe(c1))",
"max(x + maybe(z), max(y, x + maybe(w)))",
"max(x + maybe(y), x + z)",
"max(x + maybe(y), x - z)",
"max(y - x, z - x)",
"max(x - y, x - z)",
"max(x, -x)",
"max(x, select(y, max(z, min(x, u)), w))",
"max(x, select(y, z, max(w, min(x, u))))",
"max(x, select(y, max(x, z), w))",
"max(x, select(y, z, max(x, w)))",
"max(x, select(y, min(x, z), w))",
"max(x, select(y, z, min(x, w)))",
"max(y, select(x, y, w))",
"max(z, select(x, w, z))",
"max(maybe(w) + select(x, y, z), select(x, u, v))",
"max(max(v, select(x, y, z)), select(x, w, u))",
"max(min(v, select(x, y, z)), select(x, w, u))",
"max(w - select(x, y, z), select(x, u, v))",
"max(select(x, y, z) - w, select(x, u, v))",
"max(select(x, y, select(z, w, u)), select(z, v, t))",
"max(select(x, select(z, w, u), y), select(z, v, t))",
"max(x + maybe(c2), select(c0 < x, y, c1))",
"max(x + maybe(c2), select(c0 < x, c1, y))",
"max(x + maybe(c2), select(x < c0, y, c1))",
"max(x + maybe(c2), select(x < c0, c1, y))",
"max(max(x, c0), c1)",
"max(x, max(y, c0))",
"max(x + c0, (y + c1)/c2)",
"max(x + c0, y + c1)",
"max(x + c0, c1 - maybe(y))",
"max(c0 - x, c1 - maybe(y))",
"max(max(x, c0) + maybe(c1), max(y, c2))",
"max(min(x, c0) + maybe(c1), min(y, c2))",
"max(x + c0, select(y, maybe(z) + c1, maybe(w) + c2))",
"max(select(y, c1, c2), c0)",
"max(x*c0, c1)",
"max(x*c0, y*c1)",
"max(y*c0 + c1, x*c0)",
"max(y/c0 + maybe(c1), x/c0)",
"max(x/c0, c1)",
"max(staircase(x, c0, c1, c2), staircase(x, c3, c4, c5) + maybe(c6))",
"max(x, abs(x))",
"x + PINF",
"x + NINF",
"x*maybe(c0) + x*maybe(c1)",
"x + 0",
"x + (x - y)",
"x + (y - x)",
"x + x*y",
"x*y + x*z",
"(x + maybe(y)) + (x + maybe(z))",
"(x + y) + (x - z)",
"(x + y) + (z - x)",
"(x - y) + (z - x)",
"(x - y) + (x - z)",
"(y - x) + (z - x)",
"x + (c0 - y)",
"(x + maybe(c0)) + (y + maybe(c1))",
"staircase(x, c0, c1, c2) + c3",
"staircase(x, 0, c0, c0) + x%c0",
"min(x, y + c1) + c2",
"max(x, y + c1) + c2",
"z + min(x, y - (z + maybe(w)))",
"z + max(x, y - (z + maybe(w)))",
"z + min(x, y - (z - w))",
"z + max(x, y - (z - w))",
"w + select(x, y, z - w)",
"w + select(x, y - w, z)",
"x - PINF",
"x - NINF",
"x - 0",
"x*maybe(c0) - x*maybe(c1)",
"x - y*c0",
"x - y/c0",
"x - (c0 - y)",
"c0 - (x - y)",
"(c0 - x) - (y - z)",
"(c0 - x) - y",
"(x + maybe(y)) - x",
"(x + maybe(y)) - (x + z)",
"(x - y) - (z - y)",
"(x - y) - (x - maybe(z))",
"(x + maybe(c0)) - (y + maybe(c1))",
"(x + y)/c0 - (x + maybe(c1))/c0",
"(x + maybe(c1))/c0 - (x + y)/c0",
"(x - y)/c0 - (x + maybe(c1))/c0",
"(x + maybe(c1))/c0 - (x - y)/c0",
"x - (x/c0)*c0",
"(x/c0)*c0 - x",
"c2 - min(x + c0, y + c1)",
"c2 - max(x + c0, y + c1)",
"c2 - min(x + c0, c1 - y)",
"c2 - max(x + c0, c1 - y)",
"z - min(x, z - y)",
"z - max(x, z - y)",
"min(x, y + z) - z",
"max(x, y + z) - z",
"min(x, y) - x",
"max(x, y) - x",
"x - min(x, y)",
"x - max(x, y)",
"c2 - select(x, maybe(y) + c0, maybe(z) + c1)",
"c2 - select(x, maybe(y) + c0, c1 - z)",
"c2 - select(x, c0 - y, maybe(z) + c1)",
"c2 - select(x, c0 - y, c1 - z)",
"max(x, y)/c0 - min(x, y)/c0",
"min(x, y)/c0 - max(x, y)/c0",
"max(x, y) - min(x, y)",
"min(x, y) - max(x, y)",
"select(x, y, z) - select(x, w, u)",
"select(x, y, maybe(z) + w) - w",
"select(x, maybe(y) + w, z) - w",
"select(x, y, w - z) - w",
"select(x, w - y, z) - w",
"w - select(x, y, maybe(z) + w)",
"w - select(x, maybe(y) + w, z)",
"w - select(x, y, w - z)",
"w - select(x, w - y, z)",
"PINF*c0",
"NINF*c0",
"x*0",
"x*1",
"(x*c0)*c1",
"(x + c0)*c1",
"(c0 - x)*c1",
"y*(x*c0)",
"select(x, c0, c1)*c2",
"select(x, y, c1)*c2",
"select(x, c0, y)*c2",
"x/PINF",
"x/NINF",
"PINF/c0",
"NINF/c0",
"x/0",
"0/x",
"x/1",
"x/-1",
"x/x",
"(y + x/c0)/c1",
"(y - x/c0)/c1",
"(x*c0)/(y*c1)",
"(x*c0)/c1",
"c0/(y*c1)",
"(x/c0)/c1",
"(x*y)/x",
"(x + maybe(y)*c0)/c1",
"(maybe(y)*c0 - x)/c1",
"min(y, maybe(z) + x*c0)/c1",
"max(y, maybe(z) + x*c0)/c1",
"min(y, x*c0 - z)/c1",
"max(y, x*c0 - z)/c1",
"select(x, c0, c1)/c2",
"select(x, y, c1)/c2",
"select(x, c0, y)/c2",
"((x%2) + c0)/2",
"x%1",
"x%0",
"x%x",
"(x + c0)%c1",
"select(x, c0, c1)%c2",
"select(x, y, c1)%c2",
"select(x, c0, y)%c2",
"PINF < x",
"NINF < x",
"x < PINF",
"x < NINF",
"x < x",
"x < y + 1",
"x + -1 < y",
"maybe(u) + (maybe(z) + (x - y)) < w",
"w < maybe(u) + (maybe(z) + (x - y))",
"maybe(w) + (x + maybe(y)) < maybe(u) + (x + maybe(z))",
"x + c0 < maybe(y) + c1",
"x + c0 < y",
"c0 < x + c1",
"maybe(w) + staircase(x, c0, c1, c1) < x + maybe(z)",
"x + maybe(z) < maybe(w) + staircase(x, c0, c1, c1)",
"staircase(x, c0, c1, c1) < x",
"x < staircase(x, c0, c1, c1)",
"x%c0 < c1",
"c0 < x%c1",
"staircase(x, c0, c1, c2) < staircase(x, c3, c4, c5) + maybe(c6)",
"x*c0 < y*c0",
"x/c0 < c1",
"c0 < x/c1",
"(max(x, c0)/maybe(c3)) < max(x, c1)/maybe(c3) + c2",
"(min(x, c0)/maybe(c3)) < min(x, c1)/maybe(c3) + c2",
"min(y, x + maybe(c0)) < x + maybe(c1)",
"max(y, x + maybe(c0)) < x + maybe(c1)",
"x < min(y, x + maybe(c0)) + maybe(c1)",
"x < max(y, x + maybe(c0)) + maybe(c1)",
"min(y, c0) < c1",
"max(y, c0) < c1",
"c1 < min(y, c0)",
"c1 < max(y, c0)",
"min(z, y) < min(x, y)",
"min(z, y) < min(x, y + c0)",
"min(z, y + c0) < min(x, y)",
"max(z, y) < max(x, y)",
"max(z, y) < max(x, y + c0)",
"max(z, y + c0) < max(x, y)",
"min(x, min(y, z)) < y",
"min(x, y) < max(x, y)",
"max(x, y) < min(x, y)",
"min(x, y + maybe(c0)) < max(z, y + maybe(c1))",
"maybe(z) + min(y, x + maybe(u)) < x + maybe(w)",
"maybe(z) + max(y, x + maybe(u)) < x + maybe(w)",
"maybe(z) + min(y, x - u) < x + maybe(w)",
"maybe(z) + max(y, x - u) < x + maybe(w)",
"x + maybe(z) < maybe(w) + min(y, x + maybe(u))",
"x + maybe(z) < maybe(w) + max(y, x + maybe(u))",
"x + maybe(z) < maybe(w) + min(y, x - u)",
"x + maybe(z) < maybe(w) + max(y, x - u)",
"select(x, c0, y) < c1",
"select(x, y, c0) < c1",
"c1 < select(x, c0, y)",
"c1 < select(x, y, c0)",
"select(x, y, z) < y",
"select(x, y, z) < z",
"y < select(x, y, w)",
"w < select(x, y, w)",
"maybe(t) + select(x, y, z) < maybe(v) + select(x, w, u)",
"x < y",
"x < 1",
"0 < x",
"x == x",
"x*y == x*z",
"x == x*y",
"w == maybe(u) + (maybe(z) + (x - y))",
"maybe(w) + (x + maybe(y)) == maybe(u) + (x + maybe(z))",
"x*c0 == y*c1",
"x*c0 == c1",
"x + c0 == maybe(y) + c1",
"maybe(x) + c0 == c1 - y",
"x == 0",
"x == 1",
"x + maybe(y) == maybe(z) + (x/c0)*c0",
"x%c0 == c1",
"maybe(v) + select(x, y, z) == select(x, w, u)",
"select(x, c0, y) == c1",
"select(x, y, c0) == c1",
"y == select(x == y, x, z)",
"y == select(x == y, z, x)",
"y == select(x, y, z)",
"z == select(x, y, z)",
"y == max(x, y)",
"y == min(x, y)",
"max(x, c0)/c1 == c2",
"min(x, c0)/c1 == c2",
"max(x, c0) == max(x, c1)",
"min(x, c0) == min(x, c1)",
"max(x, c0) == c1",
"min(x, c0) == c1",
"x && c0",
"x && x",
"(x && y) && (z && w)",
"x && (maybe(y) && (maybe(z) && (maybe(w) && x)))",
"x && (x || y)",
"x && (y || (x && z))",
"x && (y && (x || z))",
"(x || y) && (x || z)",
"x && !x",
"x == y && x != y",
"x == y && x < y",
"x == y && x <= y",
"x == y && (z && x != y)",
"x != y && x < y",
"x != y && x <= y",
"x != y && (z && x == y)",
"x == c1 && x != c0",
"x == c0 && x == c1",
"c0 <= x && x <= c1",
"c0 <= x && c1 <= x",
"c0 < x && x < c1",
"c0 < x && x <= c1",
"c0 < x && c1 < x",
"x < c1 && c0 <= x",
"x < c0 && x < c1",
"x <= c0 && x <= c1",
"x <= y && y <= x",
"x + maybe(c0) <= y && y + maybe(c1) <= x",
"x < y + maybe(c0) && y + maybe(c1) <= x",
"x < y + maybe(c0) && y < x + maybe(c1)",
"x != c0 && x <= c1",
"x != c0 && x < c1",
"x == c0 && x <= c1",
"x == c0 && x < c1",
"x != c0 && c1 <= x",
"x != c0 && c1 < x",
"x == c0 && c1 <= x",
"x == c0 && c1 < x",
"x || c0",
"x || x",
"(x || y) || (z || w)",
"x || (maybe(y) || (maybe(z) || (maybe(w) || x)))",
"x || (x && y)",
"x || (y && (x || z))",
"x || (y || (x && z))",
"(x && y) || (x && z)",
"x || !x",
"x == y || x != y",
"x == y || x < y",
"x == y || x <= y",
"x == y || (z || x != y)",
"x != y || (z || x == y)",
"x == c1 || x != c0",
"x <= c0 || c1 <= x",
"x <= c0 || x <= c1",
"x < c0 || x < c1",
"x < c0 || c1 <= x",
"x < c0 || c1 < x",
"c0 < x || c1 < x",
"c0 <= x || c1 <= x",
"c1 < x || x <= c0",
"x + maybe(c0) <= y || y + maybe(c1) <= x",
"x < y + maybe(c0) || y + maybe(c1) <= x",
"x < y + maybe(c0) || y < x + maybe(c1)",
"x < y || y < x",
"x != c0 || x <= c1",
"x != c0 || x < c1",
"x == c0 || x <= c1",
"x == c0 || x < c1",
"x != c0 || c1 <= x",
"x != c0 || c1 < x",
"x == c0 || c1 <= x",
"x == c0 || c1 < x",
"y || x < y",
"y || y < x",
"!!x",
"!(x == y)",
"!(x != y)",
"!(x < y)",
"!(x <= y)",
"!(x && !y)",
"!(x || !y)",
"!select(x, y, c0)",
"!select(x, c0, z)",
"select(x, y, y)",
"select(!x, y, z)",
"select(x, y + maybe(z), y + maybe(w))",
"select(x, z - y, w - y)",
"select(x, w - y, w - z)",
"select(x, max(y, w), max(z, w))",
"select(x, min(y, w), min(z, w))",
"select(x, y + c0, c1)",
"select(x, c0, y + c1)",
"select(x, select(y, z, w), select(y, u, w + maybe(c0)) + maybe(c1))",
"select(x, select(y, z, w), select(y, z + maybe(c0), u) + maybe(c1))",
"select(x, select(y, z, w + maybe(c0)) + maybe(c1), select(y, u, w))",
"select(x, select(y, z + maybe(c0), w) + maybe(c1), select(y, z, u))",
"select(x, select(y, z, w), w)",
"select(x, select(y, z, w), z)",
"select(x, z, select(y, z, w))",
"select(x, w, select(y, z, w))",
"select(x, 0, 1)",
"select(x, 1, 0)",
"select(x, y, 1)",
"select(x, y, 0)",
"select(x, 1, y)",
"select(x, 0, y)",
"select(x < y, min(x, y), z)",
"select(x < y, max(x, y), z)",
"select(x < y, z, min(x, y))",
"select(x < y, z, max(x, y))",
"select(x <= y, min(x, y), z)",
"select(x <= y, max(x, y), z)",
"select(x <= y, z, min(x, y))",
"select(x <= y, z, max(x, y))",
"select(x <= y, x, y)",
"select(x <= y, y, x)",
"select(x < y, x, y)",
"select(x < y, y, x)",
"select(x < c0, c1, x)",
"select(x < c0, x, c1)",
"select(c0 < x, x, c1)",
"select(c0 < x, c1, x)",
"and_then(x, c0)",
"and_then(c0, x)",
"and_then(0, x)",
"or_else(x, 0)",
"or_else(c0, x)",
"or_else(0, x)",
"abs(x*c0)",
"abs(c0 - x)",
"abs(select(x, y, c1))",
"abs(select(x, c0, y))",
