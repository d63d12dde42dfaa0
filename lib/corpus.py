"""Study corpus: vega's own testdata decks plus the decks written for this framework (/verif/decks)."""
import os, re

REPO = os.environ.get("VEGA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Deck:
    def __init__(self, name, fmt, main, files, test=None, heavy=False):
        self.name, self.fmt, self.main, self.files, self.test, self.heavy = name, fmt, main, files, test, heavy

    def size(self):
        return sum(len(d) for d in self.files.values())

    def includes(self):
        return [f for f in self.files if f != self.main and f != self.test]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _closure(dirpath, main):
    """main plus every file its INCLUDE lines name (relative to the same directory)."""
    files, todo = {}, [main]
    while todo:
        m = todo.pop()
        p = os.path.join(dirpath, m)
        if m in files or not os.path.isfile(p):
            continue
        files[m] = _read(p)
        for mm in re.finditer(rb"(?im)^\s*include\s+'?\"?([^'\"\r\n]+)", files[m]):
            todo.append(mm.group(1).decode("latin-1").strip())
    return files


def load(maxsize=200000):
    decks = []
    td = os.path.join(REPO, "testdata")
    for root, dirs, fs in sorted(os.walk(td)):
        dirs.sort()
        for f in sorted(fs):
            stem, ext = os.path.splitext(f)
            e = ext.lower()
            if e not in (".nas", ".bdf", ".dat", ".fem", ".inp"):
                continue
            p = os.path.join(root, f)
            fmt = "OPTISTRUCT" if "/optistruct" in root else "NASTRAN"
            files = _closure(root, f)
            if sum(map(len, files.values())) > maxsize:
                continue
            test = None
            for te in (".f06", ".csv"):
                if os.path.isfile(os.path.join(root, stem + te)):
                    test = stem + te
                    break
            if test and os.path.getsize(os.path.join(root, test)) <= maxsize:
                files[test] = _read(os.path.join(root, test))
            else:
                test = None
            name = os.path.relpath(p, td).replace("/", ".")
            decks.append(Deck(name, fmt, f, files, test))
    own = os.path.join(VERIF, "decks")
    for d in sorted(os.listdir(own)) if os.path.isdir(own) else []:
        dp = os.path.join(own, d)
        if os.path.isdir(dp):
            for f in sorted(os.listdir(dp)):
                stem, ext = os.path.splitext(f)
                if ext in (".nas", ".fem"):
                    fmt = "OPTISTRUCT" if ext == ".fem" else "NASTRAN"
                    files = _closure(dp, f)
                    test = None
                    for te in (".f06", ".csv"):
                        if os.path.isfile(os.path.join(dp, stem + te)):
                            test = stem + te
                            files[test] = _read(os.path.join(dp, test))
                            break
                    decks.append(Deck("own.%s.%s" % (d, f), fmt, f, files, test))
    return decks


WRITERS = ["ASTER", "SYSTUS", "NASTRAN"]


def edited(data, rng):
    """another version of a study: the cards of one or two kinds (or some of them) are gone"""
    lines = data.split(b"\n")
    begin = next((i for i, l in enumerate(lines) if l.upper().lstrip().startswith(b"BEGIN")), -1)
    cards = []                                         # (keyword, first line, last line + 1)
    for i in range(begin + 1, len(lines)):
        l = lines[i].upper()
        m = re.match(rb"([A-Z][A-Z0-9]*)", l)
        if m and not l.startswith((b"ENDDATA", b"INCLUDE")):
            cards.append([m.group(1), i, i + 1])
        elif cards and (not l.strip() or l[:1] in b"+*, $"):
            cards[-1][2] = i + 1
        elif m:
            cards.append([b"", i, i + 1])
    kinds = sorted({c[0] for c in cards} - {b"", b"GRID"})
    if not kinds:
        return data
    drop = set(rng.sample(kinds, min(len(kinds), rng.choice([1, 1, 2, 3]))))
    share = rng.choice([1, 1, 0.5])
    gone = {i for c in cards if c[0] in drop and rng.random() < share for i in range(c[1], c[2])}
    return b"\n".join(l for i, l in enumerate(lines) if i not in gone)


def blanked(data, rng):
    """another version of a study: one field of some cards of one kind is empty, so that its default applies"""
    lines = data.split(b"\n")
    begin = next((i for i, l in enumerate(lines) if l.upper().lstrip().startswith(b"BEGIN")), -1)
    kinds = {}
    for i in range(begin + 1, len(lines)):
        m = re.match(rb"([A-Za-z][A-Za-z0-9]*)(\*?)", lines[i])
        if m and not lines[i].upper().startswith((b"ENDDATA", b"INCLUDE")):
            kinds.setdefault(m.group(1).upper(), []).append(i)
    for k in rng.sample(sorted(kinds), min(len(kinds), rng.choice([1, 2, 4]))):
        f = rng.randrange(2, 9)
        some = rng.random() < 0.3
        for i in kinds[k]:
            if some and rng.random() < 0.5:
                continue
            l = lines[i].rstrip(b"\r")
            if b"," in l:
                c = l.split(b",")
                if f < len(c):
                    c[f] = b""
                    l = b",".join(c)
            else:
                a, b = (8 + 16 * (f - 2), 24 + 16 * (f - 2)) if b"*" in l[:8] else (8 * f, 8 * f + 8)
                if a < len(l):
                    l = (l[:a] + b" " * min(b - a, len(l) - a) + l[b:])
            lines[i] = l
    return b"\n".join(lines)


def variant(d, rng):
    """the study in another version"""
    b = d.files[d.main]
    r = rng.random()
    if r < 0.7:
        b = blanked(b, rng)
    if r > 0.5:
        b = edited(b, rng)
    return Deck(d.name, d.fmt, d.main, dict(d.files, **{d.main: b}), d.test, d.heavy)
