#!/usr/bin/env python3
"""Writes the enums P11 looks at.  gen_enums.py SEED PART PARTS"""
import random
import sys

TYPES = {"signed char": (-128, 127), "unsigned char": (0, 255), "char": (-128, 127), "short": (-32768, 32767), "unsigned short": (0, 65535), "int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1),
         "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1), "bool": (0, 1), "std::int8_t": (-128, 127), "std::uint64_t": (0, 2**64 - 1)}
WORDS = ["Red", "green", "BLUE", "a", "B", "_", "_x", "V", "E", "value", "Null", "True", "kOne", "Two2", "x0", "LongNameWithManyLetters_0123456789", "min", "Max", "zz", "Unknown", "None", "Z9", "a_b", "Ab", "aB"]


def lit(v, t):
    if v == -2**63:
        return "(-9223372036854775807LL - 1)"
    return str(v) + ("ULL" if v > 2**63 - 1 else "LL" if abs(v) > 2**31 - 1 else "")


def main():
    seed, part, parts = (int(x) for x in sys.argv[1:4])
    r = random.Random(seed * 7919 + part)
    out, regs = [], []
    # value(char) is deleted, so that an enum of char cannot become a number
    kinds = [t for t in TYPES if t != "char" or "--no-char" not in sys.argv]
    for i in range(12):
        name = "E%d_%d" % (part, i)
        t = kinds[(part * 12 + i) % len(kinds)]
        lo, hi = TYPES[t]
        rng = None  # default -128..128
        k = r.random()
        if t != "bool" and k < 0.45:
            a = r.choice([0, -1, -5, -128, -300, 1, 100, 200, 1000])
            a = max(a, lo)
            a = min(a, hi - 1)
            rng = (a, min(hi, a + r.choice([0, 1, 2, 10, 127, 128, 255, 256, 600])))
        low, high = rng or (-128, 128)
        low, high = max(low, lo), min(high, hi)
        es, names, lowered = [], set(), {}
        for _ in range(r.choice([1, 2, 3, 4, 6, 10])):
            w = r.choice(WORDS)
            if r.random() < 0.25 and es:  # differs by case only
                w = es[-1][0].swapcase()
            if r.random() < 0.2:
                w += str(r.randrange(100))
            if w in names or w in ("int", "_"):
                continue
            q = r.random()
            if es and q < 0.12:
                v = es[-1][1]  # alias
            elif q < 0.55:
                v = r.choice([low, high, low + 1, high - 1, 0, 1, -1, 5, 127, 128, 129, 255, 256, -127, -128, -129, 300])
            elif q < 0.8:
                v = r.randint(low, high)
            elif q < 0.9:
                v = r.choice([lo, hi, lo + 1, hi - 1, 2**31, 2**32 - 3, 2**32 + 1, -2**31 - 1, -2**32 + 1, 2**40, 70000])
            else:
                v = r.randint(lo, hi)
            v = min(max(v, lo), hi)
            if any(n.lower() == w.lower() and x == v for n, x in es) or any(x == v and lowered.get(n.lower(), 0) > 1 for n, x in es):
                continue
            es.append((w, v))
            names.add(w)
            lowered[w.lower()] = lowered.get(w.lower(), 0) + 1
        # a name that differs from another only by case must not be an alias: only one name per value is known
        es = [(n, v) for j, (n, v) in enumerate(es) if not (lowered[n.lower()] > 1 and any(x == v for m, x in es[:j]))]
        if not es:
            es = [("Only", min(max(low, 0), high))]
        scoped = r.random() < 0.7
        body = ", ".join("%s = %s" % (n, lit(v, t)) for n, v in es)
        if rng:
            body += ", MEOJSON_ENUM_RANGE(%s, %s)" % (lit(rng[0], t), lit(rng[1], t))
        under = " : %s" % t if not (t == "int" and scoped and r.random() < 0.5) else ""
        decl = "enum %s%s%s { %s };" % ("class " if scoped else "", name, under, body)
        place = r.randrange(4)
        # unscoped enumerators leak into their scope: always give them one of their own
        if place == 0 and scoped:
            out.append(decl)
            q = name
        elif place == 1:
            out.append("namespace ns_%s { namespace V { %s } }" % (name, decl))
            q = "ns_%s::V::%s" % (name, name)
        elif place == 2:
            out.append("struct Holder_%s { %s };" % (name, decl))
            q = "Holder_%s::%s" % (name, name)
        else:
            out.append("template <typename Tp, int N> struct Tpl_%s { %s };" % (name, decl))
            q = "Tpl_%s<std::vector<int[3]>, 2>::%s" % (name, name)
        out.append("using Q%s = %s;" % (name, q))
        rows = ", ".join('{ Q%s::%s, "%s" }' % (name, n, n) for n, v in es)
        lo_s, hi_s = rng or (-128, 128)
        out.append("template <> struct Table<Q%s> { static constexpr long long lo = %s, hi = %s; static constexpr bool marked = %s; static std::vector<std::pair<Q%s, std::string>> list() { return { %s }; } };"
                   % (name, lit(lo_s, t), lit(hi_s, t), "true" if rng else "false", name, rows))
        regs.append("ENUM(Q%s)" % name)
    print("\n".join(out + regs))


main()
