"""Writes decks/bigmesh/bigmesh.nas: big enough for libhdf5 to write mesh data in the middle of the conversion, not only at the end."""
n, L = 13, ["SOL 101", "CEND", "SPC = 1", "LOAD = 2", "BEGIN BULK"]
m = n + 1
num = lambda i, j, k: 1 + i + m * (j + m * k)
for k in range(m):
    for j in range(m):
        for i in range(m):
            L.append("GRID,%d,,%d.,%d.,%d." % (num(i, j, k), i, j, k))
e = 0
for k in range(n):
    for j in range(n):
        for i in range(n):
            e += 1
            a = [num(i, j, k), num(i + 1, j, k), num(i + 1, j + 1, k), num(i, j + 1, k)]
            L += ["CHEXA,%d,1,%s" % (e, ",".join(map(str, a + [x + m * m for x in a[:2]]))), ",%d,%d" % (a[2] + m * m, a[3] + m * m)]
for i in range(n):
    e += 1
    L.append("CTRIA3,%d,2,%d,%d,%d" % (e, num(i, 0, 0), num(i + 1, 0, 0), num(i + 1, 1, 0)))
L += ["PSOLID,1,1", "PSHELL,2,1,.1", "MAT1,1,2.+11,,.3", "SPC1,1,123,1,THRU,%d" % m, "FORCE,2,%d,,1.,0.,0.,1." % m ** 3, "ENDDATA"]
open(__file__.rsplit("/", 2)[0] + "/decks/bigmesh/bigmesh.nas", "w").write("\n".join(L) + "\n")
