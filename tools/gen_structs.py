#!/usr/bin/env python3
"""Writes the structs P10 looks at: every number of members from 1 to 64 and random mixes of declarations.

  gen_structs.py SEED PART PARTS
"""
import random
import sys

CHEAP = ["int", "std::string", "double", "bool", "unsigned long", "long long"]
RICH = CHEAP + ["std::vector<int>", "std::map<std::string, int>", "std::optional<std::string>", "types::Color", "types::Point", "types::Foreign", "std::shared_ptr<int>",
                "std::tuple<int, std::string>", "std::variant<bool, std::string, std::vector<int>>", "json::value", "std::vector<types::Foreign>", "std::map<std::string, types::Point>",
                "std::array<int, 2>", "std::pair<std::string, bool>", "std::optional<types::Point>", "Moved", "std::vector<Moved>", "json::array", "json::object", "float", "std::list<std::string>"]
KEYS = ["the key", "", "a\\\"b", "\\n", "\\xc3\\xa9", "key", "K", "delete", "0", "a.b", "x" * 40, "\\\\", "{", "null"]


def struct(name, members, split=False):
    """members: (type, name, optional, key or None)"""
    out = ["struct %s\n{\n" % name]
    for t, n, o, k in members:
        out.append("    %s %s {};\n" % (t, n))
    args = ", ".join(("MEO_OPT " if o == 1 else "") + ('MEO_KEY("%s") ' % k if k is not None else "") + ("MEO_OPT " if o == 2 else "") + n for t, n, o, k in members)
    if split:
        out.append("    MEO_TOJSON(%s)\n    MEO_CHECKJSON(%s)\n    MEO_FROMJSON(%s)\n" % (args, args, args))
    else:
        out.append("    MEO_JSONIZATION(%s);\n" % args)
    out.append("};\ntemplate <>\nstruct Meta<%s>\n{\n    static auto members()\n    {\n        return std::make_tuple(" % name)
    out.append(", ".join('member("%s", %s, &%s::%s)' % (k if k is not None else n, "true" if o else "false", name, n) for t, n, o, k in members))
    out.append(");\n    }\n};\n")
    return "".join(out)


def weight(members):
    return sum(1 + (1 if o else 0) + (1 if k is not None else 0) for t, n, o, k in members)


def main():
    seed, part, parts = (int(x) for x in sys.argv[1:4])
    names = []
    text = []
    for a in range(1, 65):
        if a % parts != part:
            continue
        # member names in no particular order
        r = random.Random(a)
        order = list(range(a))
        r.shuffle(order)
        ms = [(CHEAP[(a + i) % len(CHEAP)], "m%d" % n, 0, None) for i, n in enumerate(order)]
        text.append(struct("A%d" % a, ms))
        names.append("A%d" % a)
    r = random.Random(seed * 1000003 + part)
    # all of the 64 arguments used by declarations with options and keys
    full = []
    while True:
        m = (CHEAP[len(full) % len(CHEAP)], "f%d" % len(full), r.randrange(3), ("K%d" % (99 - len(full))) if r.random() < 0.5 else None)
        if weight(full + [m]) > 64:
            break
        full.append(m)
    while weight(full) < 64:
        full.append(("int", "f%d" % len(full), 0, None))
    text.append(struct("F%d" % part, full, split=part % 2 == 1))
    names.append("F%d" % part)
    prev = []
    for i in range(7):
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        ms, used = [], set()
        while len(ms) < n:
            t = r.choice(RICH + prev + ["std::vector<%s>" % p for p in prev[-1:]])
            nm = r.choice(["a", "b", "key", "value", "x", "in", "out", "error_key", "result", "rest", "var", "state"]) + r.choice(["", "", "_", "2"])
            o = r.choice([0, 0, 1, 2])
            k = r.choice(KEYS) if r.random() < 0.3 else None
            # sometimes the name of another member
            if ms and r.random() < 0.15:
                k = nm + "_other"
            if nm in used or (k if k is not None else nm) in used:
                continue
            used.add(nm)
            used.add(k if k is not None else nm)
            ms.append((t, nm, o, k))
        # two members with each other's name as key
        if n >= 2 and r.random() < 0.3 and ms[0][3] is None and ms[1][3] is None:
            a, b = ms[0], ms[1]
            ms[0], ms[1] = (a[0], a[1], a[2], b[1]), (b[0], b[1], b[2], a[1])
        if weight(ms) > 64:
            continue
        name = "R%d_%d" % (part, i)
        text.append(struct(name, ms, split=r.random() < 0.2))
        names.append(name)
        prev.append(name)
    print("".join(text))
    for n in names:
        print("STRUCT(%s)" % n)


main()
