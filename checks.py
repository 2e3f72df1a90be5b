import os
V = os.path.dirname(os.path.abspath(__file__))
COMMON_ASSUMPTIONS = ["the C library behaves as modelled in libc/vplibc.c and the engine's string and formatting primitives"]
RICH = V + "/corpus/rich.ort"; MINI = V + "/corpus/mini.ort"
def J(name, h, t=60, **k):
    p = {x: y for x, y in k.items() if x not in ("defs", "q", "samples", "nodomain", "maxinstr")}
    j = {"name": name, "h": h, "t": t, "params": p}
    j.update({x: k[x] for x in ("defs", "q", "samples", "nodomain", "maxinstr") if x in k})
    return j
def size(f): return os.path.getsize(f)

def spans(n, step):
    return [(p, min(step, n - p)) for p in range(0, n, step)]
CTXN = [34, 34, 27, 27, 27, 27, 21, 21, 19, 8, 17, 14, 11, 27, 27]
def c01(tier):
    q = tier == "quick"
    js = [J(f"any-{n}", "total", mode=0, n=n, t=100 if q else 600) for n in ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 7))]
    R, M = size(RICH), size(MINI)
    js += [J(f"replace1-rich@{p}", "total", mode=1, n=1, pos=p, span=s, file=RICH, samples=1) for p, s in spans(R, 60)]
    js += [J(f"cut-rich@{p}", "total", mode=2, n=s, pos=p, file=RICH, samples=1) for p, s in spans(R, 400)]
    js += [J(f"cut-mini@{p}", "total", mode=2, n=s, pos=p, file=MINI, samples=1) for p, s in spans(M, 400)]
    js += [J(f"long-mini@{p}", "total", mode=5, n=1100, pos=p, span=s, file=MINI, samples=1) for p, s in spans(M, 64)]
    js += [J(f"long-rich@{p}", "total", mode=5, n=1100, pos=p, span=s, file=RICH, samples=1) for p, s in spans(R, 64)]
    js += [J(f"gen-mini@{p}", "total", mode=1, n=1, pos=p, span=s, file=MINI, gen=1023, samples=1) for p, s in spans(M, 8)]
    js += [J(f"insert2-mini@{p}", "total", mode=3, n=2, pos=p, span=s, file=MINI, samples=1) for p, s in spans(M, 16)]
    for c, voc in enumerate(CTXN):
        if q:
            js.append(J(f"tokens3-ctx{c}", "total", mode=4, ctx=c, n=3, gen=1023, t=60))
        else:
            js += [J(f"tokens5-ctx{c}-{f}", "total", mode=4, ctx=c, n=5, first=f, gen=1023, t=300) for f in range(voc)]
    if not q:
        js += [J(f"replace2-rich@{p}", "total", mode=1, n=2, pos=p, span=s, file=RICH, samples=1, t=300) for p, s in spans(R, 20)]
        js += [J(f"insert2-rich@{p}", "total", mode=3, n=2, pos=p, span=s, file=RICH, samples=1, t=300) for p, s in spans(R, 20)]
        js += [J(f"insert4-mini@{p}", "total", mode=3, n=4, pos=p, span=s, file=MINI, samples=1, t=300) for p, s in spans(M, 4)]
    return js
def c03(tier):
    q = tier == "quick"
    js = [J(f"tpl{k}", "roundtrip", tpl=k, t=100 if q else 900) for k in range(31)]
    js += [J(f"real{d}-{l}", "roundtrip", digits=d, lim=l) for d in ((17, 330) if q else (16, 17, 18, 40, 308, 330, 1100)) for l in (0, 1)]
    js += [J("rich", "roundtrip", file=RICH), J("mini", "roundtrip", file=MINI)]
    for c, voc in enumerate(CTXN):
        if q:
            js.append(J(f"tokens3-ctx{c}", "roundtrip", ctx=c, n=3, t=100))
        else:
            js += [J(f"tokens5-ctx{c}-{f}", "roundtrip", ctx=c, n=5, first=f, t=300) for f in range(voc)]
    return js
CHECKS = {
 "C01": dict(jobs=c01, reach=["rejected", "accepted"],
  bounds="any byte string of up to 5 (thorough 7) bytes; the 200-line corpus/rich.ort with any single byte (thorough: any two adjacent) replaced by any value, or cut anywhere, or with an identifier, number, literal, or comment of 1101 bytes inserted anywhere; corpus/mini.ort with any byte replaced (and all ten generators run on what is accepted), any 2 (4) bytes inserted anywhere, or cut anywhere; any sequence of 3 (5) tokens in 15 contexts (fields, references, queries, updates, deletes, roles, uniques, enumerations, bitfields)",
  outside="longer unstructured inputs; inputs larger than the corpus files"),
 "C03": dict(jobs=c03, reach=["rejected", "accepted"],
  bounds="31 templates with symbolic digits, letters, literal bytes (any value, up to 3 in a row), numbers of up to 19 digits and signs; reals of 19 and 332 digits (thorough: up to 1102) with the point in four places; 15 contexts with any 3 (5) tokens; both corpus files",
  outside="configurations combining more constructs than the corpus files; most digits of long real constants are fixed"),
}
def c02(tier):
    q = tier == "quick"
    R, M = size(RICH), size(MINI)
    js = [J("case-mini", "lex", mode="case", file=MINI, t=120)] + [J(f"case-rich@{p}", "lex", mode="case", file=RICH, pos=p, span=300) for p in range(0, R, 300)]
    js += [J(f"{m}-{n}", "lex", mode=m, file=f) for m in ("eol", "squeeze") for n, f in (("rich", RICH), ("mini", MINI))]
    js += [J(f"gap-mini@{p}", "lex", mode="gap", file=MINI, pos=p, span=s, n=2 if q else 3, t=100 if q else 600, samples=1) for p, s in spans(M, 40)]
    if not q: js += [J(f"gap-rich@{p}", "lex", mode="gap", file=RICH, pos=p, span=s, n=2, t=600, samples=1) for p, s in spans(R, 100)]
    js += [J(f"ident{n}{'t' if tl else ''}-{w}", "lex", mode="ident", where=w, n=n, tail=tl) for w in range(10) for tl in (0, 1) for n in ([2] if q else [1, 2, 3, 4])]
    js += [J(f"string{n}", "lex", mode="string", n=n, t=120 if q else 600) for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5))]
    return js
CHECKS["C02"] = dict(jobs=c02, reach=["case", "gap", "eol", "squeeze", "ident-rejected", "ident-accepted", "string-kept", "string-rejected"],
  bounds="every letter of corpus/mini.ort, and of any 300-byte window of rich.ort, outside literals in either case, all at once; between any two tokens of corpus/mini.ort (thorough: also rich.ort) any 2 (3) white-space bytes, or a comment with any 2 (3) bytes; identifiers with any 2 (1 to 4) bytes before or after a fixed stem in ten places; literals of any 1 to 3 (5) bytes",
  outside="identifiers and literals longer than this; bytes above 127 in identifiers are covered, locales other than C are not")
def c04(tier):
    q = tier == "quick"
    js = [J(f"{m}-num{k}", "numbers", mode=m, num=k) for m in ("default", "limit", "epoch") for k in range(8)]
    js += [J("length", "numbers", mode="length"), J("query", "numbers", mode="query")]
    js += [J(f"enum{n}-form{f}", "numbers", mode="enum", n=n, form=f, t=150 if q else 900) for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5)) for f in (0, 1)]
    js += [J(f"bits{n}", "numbers", mode="bits", n=n) for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5))]
    js += [J(f"date{k}", "numbers", mode="date", num=k, wide=0 if q else 1, t=100 if q else 900) for k in range(11)]
    return js
CHECKS["C04"] = dict(jobs=c04, reach=["accepted", "rejected"], bounds='integers written as any of eight templates of up to 21 digits (every symbolic digit and sign), as default, limit, date and row limits; lengths up to 99; enumerations of 1 to 3 (thorough 5) items each explicit (two digits or at the 64-bit edge) or automatic; bitfields of 1 to 3 (5) items with any index up to 99; dates of eleven years with any month up to 19 (99) and day up to 39 (99)',
  outside='days 29 to 31 of shorter months may roll over or be refused (not stated); years other than the eleven')
def c05(tier):
    q = tier == "quick"
    js = [J(f"scope{k}", "names", mode="scope", k=k) for k in range(17)] + [J(f"apart{k}", "names", mode="apart", k=k) for k in range(7)]
    js += [J(f"word{k}-{f}", "names", mode="word", k=k, to=f + 30, **{"from": f}) for k in range(10) for f in (0, 30, 60)]
    js += [J(f"scope{k}-long{l}", "names", mode="scope", k=k, long=l) for k in range(17) for l in ((k % 3,) if q else (0, 1, 2))]
    js += [J(f"extra{k}", "names", mode="scope", k=k, extra=1) for k in range(16)]
    js += [J(f"near{n}-{k}-{f}", "names", mode="word", k=k, near=n, to=f + 30, **{"from": f}) for k in range(10) for f in (0, 30, 60) for n in ((1 + (k + f // 30) % 2,) if q else (1, 2))]
    js += [J("role", "names", mode="role"), J("once", "names", mode="once")]
    return js
CHECKS["C05"] = dict(jobs=c05, reach=["accepted", "rejected"], bounds='three names zq?? (a letter of either case, then a letter or digit; all 936^3 combinations) in 17 scopes where they must differ and 7 where they need not, also with one of them a letter longer, and in 16 scopes with documentation, parameters and other statements between; 91 reserved words in every mix of case, and each with a letter more or less, in ten places; all pairs of eleven statements of a structure',
  outside='names of other lengths; four or more clashing names')
def c06(tier):
    q = tier == "quick"
    js = [J(m, "link", mode=m, t=150) for m in ("ref", "type", "source", "action", "attr")]
    js += [J("graph3", "link", mode="graph", n=3, e=2, t=150), J("graph2x3", "link", mode="graph", n=2, e=3), J("graph4x1", "link", mode="graph", n=4, e=1)]
    if not q: js += [J("graph4", "link", mode="graph", n=4, e=2, t=800), J("graph5x1", "link", mode="graph", n=5, e=1, t=800)]
    return js
CHECKS["C06"] = dict(jobs=c06, reach=["accepted", "rejected"], bounds='references: 4 targets x 5 fields x 12 source types x 11 target types x 4 attributes, in any case of names; named types and default items: 3x5x5; eight sources of a nested structure; all nesting graphs of 3 structures with 2 edges each, 2 with 3, 4 with 1 (thorough: 4 with 2, 5 with 1); 2x6x4x2 reference actions; 12 types x 9 defaults and limits',
  outside='whether a limit on a bitfield is accepted (documentation and code differ)')
def c07(tier):
    q = tier == "quick"
    return [J(f"perm-{k}", "order", first=k, split=0 if q else 1, t=120 if q else 900, samples=1) for k in range(6)] + ([J("split", "order", first=3, split=1, t=100, samples=1)] if q else [])
CHECKS["C07"] = dict(jobs=c07, reach=["reordered"], bounds='all 720 orders of six mutually dependent objects (structures, enumeration, bitfield, roles), and all 7 divisions into two files of 120 (thorough: all) of these orders',
  outside='configurations with other objects')
def c08(tier):
    q = tier == "quick"
    js = [J(f"op{'2' if x else ''}", "query", mode="op", second=x, t=150) for x in (0, 1)]
    js += [J(f"chain{w}", "query", mode="chain", where=w, max=3 if q else 4, t=150 if q else 800) for w in range(6)]
    js += [J("params", "query", mode="params", n=3 if q else 4, t=150 if q else 800), J("group", "query", mode="group")]
    js += [J(f"unique{k}", "query", mode="unique", kind=k, n=2 if q else 3, t=150 if q else 800) for k in range(4)]
    return js
CHECKS["C08"] = dict(jobs=c08, reach=["accepted", "rejected"], bounds='one query of each of the four kinds over a structure with a field of every type and two nested structures: every (field, operator) pair, alone and after another; every path of up to 3 (thorough 4) names from a pool of existing, nested, non-structure and missing names in each of six clauses (terms, order, distinct, group row, aggregate, ...); every sequence of 3 (4) clauses; all pairs of group row and aggregate paths; uniqueness of results for 2 (3) terms of 27 sorts',
  outside='queries of more clauses or terms; whether a search over a nested unique field counts as unique')
def c09(tier):
    q = tier == "quick"
    return [J("modifiers", "update", mode="one", mod=1), J("constraints", "update", mode="one"), J("deletes", "update", mode="one", **{"del": 1}),
            J("shape", "update", mode="shape", t=150), J("empty", "update", mode="empty"), J("unique", "update", mode="unique", w=5, n2=2 if q else 3, t=150 if q else 800)]
CHECKS["C09"] = dict(jobs=c09, reach=["accepted", "rejected"], bounds='17 sorts of field (every type, null, nested, missing, row identifier) with each of 14 operators and 6 modifiers; up to 3 modifiers and 3 constraints in any sequence, with and without name and comment; structures with every subset of 3 fields and a row identifier; two unique statements of up to 3 fields each (the second up to 2; thorough 3) out of six',
  outside='modification of the row identifier, a field twice in a unique statement (not stated); more fields per statement')
def c10(tier):
    q = tier == "quick"
    js = [J(f"assign2-{f}", "roles", mode="assign", stmts=2, ents=1, first=f) for f in range(9)] + [J(f"assign1x{2 if q else 3}", "roles", mode="assign", stmts=1, ents=2 if q else 3, order=1, t=100 if q else 800)]
    js += [J(f"tree{n}", "roles", mode="tree", n=n) for n in ((4,) if q else (4, 5))]
    return js
CHECKS["C10"] = dict(jobs=c10, reach=["accepted", "rejected"], bounds='two role statements of one entry each, and one of two (thorough three) entries before the roles are defined: nine sets of roles (nested, reserved, several, unknown, any case) and 18 entries (each kind of operation, all, noexport, missing ones); all trees of 4 (5) roles',
  outside='more statements per structure; deeper trees')
def c11(tier):
    q = tier == "quick"
    return [J(f"audit-{w}-{f}", "roles", mode="audit", who=w, full=f, t=100 if q else 800) for w in range(6) for f in ((0,) if q else (1, 2))]
CHECKS["C11"] = dict(jobs=c11, reach=["accepted", "rejected"], bounds='each of six roles audited over three nested structures: five roles x eight operations allowed (thorough: twice), five roles x three noexports at the outermost and (thorough: five roles) x three at inner structures, noexport on nested fields',
  outside='whether a structure all of whose fields are noexport counts as exported when nested; deeper nesting; the text printed by ort-audit')
def c12(tier):
    q = tier == "quick"
    js = []
    for s in range(11):
        js += [J(f"slot{s}-{f}", "diff", slot=s, to=f + 12, t=100, **{"from": f}) for f in range(0, (16, 12, 11, 5, 59, 6, 35, 28, 9, 11, 17)[s], 13)]
        js += [J(f"slots{s}-{o}", "diff", slot=s, other=o, full=0, a0=1 if q else 0, t=100 if q else 400) for o in range(11) if o > s]
    return js
CHECKS["C12"] = dict(jobs=c12, reach=["differ", "equal"], bounds='pairs of configurations varying in one of eleven places (enumeration, bitfield, other objects, comment, field, field order, query, update or delete, unique and insert, roles, role assignments; 5 to 59 variants each, every pair of variants), or in two places at once (any variant of both against the usual; thorough: any pair of variants of the first), both ways',
  outside='which of several identical nameless queries or updates is matched; changes in three or more places')
def c13(tier):
    q = tier == "quick"
    js = [J(f"type{k}", "schema", mode="field", type=k, t=150) for k in range(11)]
    js += [J("refs", "schema", mode="ref", n=1, t=100), J("unique", "schema", mode="unique", n=3 if q else 4, t=100 if q else 600), J("names", "schema", mode="names")]
    js += [J(f"comment{w}-{k}", "schema", mode="comment", where=w, k=k) for w in range(3) for k in range(5)]
    js += [J(f"file-{n}", "schema", mode="file", file=f) for n, f in (("rich", RICH), ("mini", MINI))]
    for c in (0, 1, 9, 10):
        if q: js.append(J(f"tokens3-ctx{c}", "schema", mode="ctx", ctx=c, n=3 if c in (1, 9) else 2, t=100))
        else: js += [J(f"tokens5-ctx{c}-{f}", "schema", mode="ctx", ctx=c, n=4, first=f, t=300) for f in range(CTXN[c])]
    if not q: js.append(J("refs2", "schema", mode="ref", n=2, t=900))
    return js
CHECKS["C13"] = dict(jobs=c13, reach=["accepted", "rejected"], bounds='one field of any type with any flags and a default of any kind (numbers of symbolic digits, text of any 3 bytes, dates, items), one (two) references with any actions and nullness, up to 3 (4) unique statements over any fields, comments of templates with any bytes in fields, structures and elsewhere, names of any reserved kind; any sequence of 3 (4) tokens in 4 contexts; both corpus files', outside='the database engine itself (the SQL is read by an independent parser of the grammar SQLite documents, not by SQLite)')
def c14(tier):
    q = tier == "quick"
    js = []
    for d in (0, 1):
        js += [J(f"places{p}-{d}", "sqldiff", mode="places", place=p, d=d, t=150) for p in range(4)]
        js += [J(f"slots{s}-{d}", "sqldiff", mode="slots", slot=s, d=d, t=150) for s in range(11)]
        js += [J(f"places{p}+{o}-{d}", "sqldiff", mode="places", place=p, other=o, d=d, t=200 if q else 900) for p, o in ((1, 2),) + (() if q else ((1, 3), (2, 3)))]
        if not q: js += [J(f"places0+{o}-{d}-{a}", "sqldiff", mode="places", place=0, other=o, a0=a, d=d, t=600) for o in (1, 2, 3) for a in range(31)]
    return js
CHECKS["C14"] = dict(jobs=c14, reach=["accepted", "rejected"], bounds='pairs of variants of any one of 15 places (structures, fields, types, flags, defaults, references, actions, uniques, enumerations, queries), and of places in pairs, with and without destruction (thorough: all pairs of variants of any two places)', outside='data conversion of existing rows; three or more places changed at once')
def c15(tier):
    q = tier == "quick"
    T = 150 if q else 900
    js = [J(f"file-{n}-{l}", "stmts", mode="file", file=f, lang=l) for n, f in (("rich", RICH), ("mini", MINI)) for l in range(3)]
    if q:
        js += [J(f"params-{k}", "stmts", mode="params", kind=k, lang=l, tm=2 if k < 3 else 1, t=T) for k, l in enumerate((0, 1, 2, 0))]
        js += [J(f"terms-{k}", "stmts", mode="terms", kind=k, lang=l, t=T) for k, l in enumerate((0, 1, 2))]
        js += [J(f"deletes-{l}", "stmts", mode="updates", lang=l, t=T, **{"del": 1}) for l in (1,)] + [J("constraints-0", "stmts", mode="updates", lang=0, con=1, t=T)]
    else:
        js += [J(f"params-{k}-{l}", "stmts", mode="params", kind=k, lang=l, t=T) for k in range(4) for l in range(3)]
        js += [J(f"terms{n}-{k}-{l}", "stmts", mode="terms", kind=k, lang=l, n=n, t=T) for n in (1, 2) for k in range(4) for l in range(3)]
        js += [J(f"deletes-{l}", "stmts", mode="updates", lang=l, t=T, **{"del": 1}) for l in range(3)] + [J(f"constraints-{l}", "stmts", mode="updates", lang=l, con=1, t=T) for l in range(3)]
    js += [J(f"updates-{l}", "stmts", mode="updates", lang=l, t=T) for l in range(3)]
    js += [J(f"insert{n}-{l}", "stmts", mode="insert", n=n, lang=l, t=T) for l in range(3) for n in (({0: (0,), 1: (1,), 2: (4,)}[l]) if q else range(0, 10))]
    js += [J(f"nest-{l}", "stmts", mode="nest", lang=l, t=T) for l in range(3) if not q] if not q else [J("nest-0", "stmts", mode="nest", lang=0, t=T)]
    if not q: js += [J(f"nest-all-{l}", "stmts", mode="nest", lang=l, all=1, t=T) for l in range(3)]
    return js
CHECKS["C15"] = dict(jobs=c15, reach=["accepted", "rejected"], bounds='one term (thorough: two) over 16 fields on 6 paths with 12 operators for 4 kinds of query; two clauses of 13 with 2 (5) sets of terms, limits and offsets symbolic; updates of 1 or 2 of 16 fields with 6 modifiers; updates and deletes with 1 or 2 constraints of 16 fields with 12 operators; inserts of 0 to 9 fields with names of any length to 38; nested structures with 16 (64) combinations of nullness and names of any length to 31; both corpus files', outside='statements over deeper nesting than two, or with more clauses than two (beyond the corpus files)')

# ---- generated C: specifications in corpus/gen, read again by gencc.py ----
GSPECS = ["roles", "ops", "deep", "refs", "mix", "mix2", "empty"]
def gname(s): return "gen:" + s
def gcfg(s):
    import gencc
    return gencc.parse(open(f"{V}/corpus/gen/{s.split(':')[0]}.ort").read())
def gops(s): return sum(len(x.ops) + bool(x.insert) for x in gcfg(s).structs)
def gvals(s):
    import gencc
    return sum(len(gencc.native(x)) for x in gcfg(s).structs)
def c16(tier):
    q = tier == "quick"; T = 60 if q else 800
    js = [J(f"access-{s}-op{o}", gname(s), mode="access", op=o, steps=2 if q else 3, t=T) for s in (("roles", "tree", "tree2", "empty") if q else ("roles", "roles:-s", "tree", "tree2", "empty")) for o in range(gops(s))]
    return js
def c17(tier):
    q = tier == "quick"; T = 60 if q else 800; js = []
    for s in GSPECS + ([] if q else ["roles:-s", "ops:-s", "deep:-s", "refs:-s"]):
        if q or s in ("roles", "ops", "deep", "refs"): js += [J(f"bind-{s}-op{o}", gname(s), mode="bind", op=o, t=T) for o in range(gops(s))]
        else: js += [J(f"bind-{s}-op{o}", gname(s), mode="bind", op=o, rows=3 if s != "refs" else 2, t=T) for o in range(gops(s))]
        js += [J(f"fault-{s}-op{o}", gname(s), mode="fault", op=o, max=30 if q else 200, t=T) for o in range(gops(s))]
        js += [J(f"{m}-{s}", gname(s), mode=m, t=T) for m in ("misc", "open")]
    if q: js += [J(f"bind-roles:-s-op{o}", "gen:roles:-s", mode="bind", op=o, rows=1, t=T) for o in range(gops("roles"))]
    return js
def c18(tier):
    q = tier == "quick"
    return [J(f"valid-{s}-{k}", gname(s), mode="valid", field=k) for s in (["roles", "ops", "vals"] if q else ["vals", "vals:-s", "deep", "refs", "roles", "ops"]) for k in range(gvals(s))]
def c19(tier):
    q = tier == "quick"; T = 60 if q else 800
    return [J(f"json-{s}-op{o}", gname(s), mode="bind", op=o, json=1, rows=2 if q or s == "refs" else 3, t=T) for s in GSPECS + ([] if q else ["roles:-s", "ops:-s"]) for o in range(gops(s))]
def gimp(s):	# structures: (number of fields, nested included; indexes of its own fields)
    def cnt(x): return sum(1 + (cnt(f.target) if f.type == "struct" else 0) for f in x.fields if not f.noexport)
    out = []
    for x in gcfg(s).structs:
        own = []; k = 0
        for f in x.fields:
            if f.noexport: continue
            own.append(k); k += 1 + (cnt(f.target) if f.type == "struct" else 0)
        out.append((cnt(x), own))
    return out
def c20(tier):
    q = tier == "quick"; js = []; T = 60 if q else 800
    for s in ("roles",) if q else ("roles", "deep", "vals", "roles:-s", "refs", "mix", "mix2"):
        for k, (n, own) in enumerate(gimp(s)):
            js += [J(f"import-{s}-{k}-{f}", gname(s), mode="import", struct=k, focus=f, t=T) for f in (range(n) if n < 60 else own)]
            js += [J(f"array-{s}-{k}", gname(s), mode="array", struct=k, t=T)]
            if n > 60: continue
            js += [J(f"damage-{s}-{k}@{p}", gname(s), mode="damage", struct=k, pos=p, span=40, t=T) for p in range(0, 40 + 16 * n, 40)]
            js += [J(f"cut-{s}-{k}@{p}", gname(s), mode="damage", struct=k, pos=p, span=200, cut=1, t=T) for p in range(0, 40 + 16 * n, 200)]
            js += [J(f"damage-array-{s}-{k}@{p}", gname(s), mode="damage", arr=1, struct=k, pos=p, span=40, t=T) for p in range(0, 40 + 32 * n, 40)]
            if not q: js += [J(f"damage2-{s}-{k}@{p}", gname(s), mode="damage", n=2, struct=k, pos=p, span=20, t=T) for p in range(0, 40 + 16 * n, 20)]
    if q:
        for s, k in (("deep", 2), ("refs", 1)): js += [J(f"import-{s}-{k}-{f}", gname(s), mode="import", struct=k, focus=f, order=f & 1, t=T) for f in gimp(s)[k][1]]
    return js
CHECKS["C16"] = dict(jobs=c16, reach=["completed"], bounds='four specifications (roles nested three deep, default, all, several roles or none for an operation, an empty roles block; operations of every kind): every sequence of 2 (3) roles entered, every operation, 0 to 2 rows; arguments, rows and results symbolic', outside='sqlbox itself, which is modelled by its manual (statements and transitions permitted to each role are checked as generated); other specifications')
CHECKS["C17"] = dict(jobs=c17, reach=["completed", "left", "misc", "opened", "open-failed"], bounds='seven specifications (thorough: also with safe types) with operations of every kind over every type; arguments and columns of rows symbolic, text of up to 2 bytes, blobs of up to 2; 0 to 2 (3) rows; any columns null when a row has at most 4 that may be, otherwise none, all, each alone and all but each; the database or allocator failing at any one of the first 30 (200) calls, or anywhere while opening', outside='sqlbox, kcgi and the hashing of passwords are models of their manuals; several failures; other specifications')
CHECKS["C18"] = dict(jobs=c18, reach=["validated"], bounds='every field of three (six) specifications with limits of each operator over each type, at the extremes of the types; any 64-bit integer, any real but NaN, any size up to 2^48', outside='the parsing of input by kcgi; limits on blobs')
CHECKS["C19"] = dict(jobs=c19, reach=["completed"], bounds='objects fetched as in C17 for every operation giving objects, by each role which may, exported under any later role', outside='the escaping of text, which is kcgijson\'s; escaping of non-finite numbers')
CHECKS["C20"] = dict(jobs=c20, reach=["imported", "import-refused", "import-failed", "import-overflow", "unreadable"], bounds='documents of each structure with one field in each of 20 forms (null, missing, twice, unknown neighbour, wrong type, numbers with symbolic digits to the limits, any text of three bytes, each escape, any pair of code units, blobs of 0 to 4 bytes, malformed ones), both orders of fields; arrays of 0 to 3 with an allocation failing at each of 60 places; one (two adjacent) bytes changed to any value anywhere; documents cut anywhere; two specifications (five)', outside='what half a surrogate pair or NUL in text becomes; documents nested beyond the structures; more than one damaged place')

# ---- generated TypeScript ----
def tname(s): return "ts:" + s
def c28(tier):
    q = tier == "quick"; T = 60 if q else 800
    return [J(f"access-{s}-op{o}", tname(s), mode="access", op=o, steps=2 if q else 3, t=T) for s in ("roles", "tree", "tree2", "empty") for o in range(gops(s))]
def c29(tier):
    q = tier == "quick"; T = 60 if q else 800
    js = [J(f"bind-{s}-op{o}", tname(s), mode="bind", op=o, rows=3, t=T) for s in GSPECS + ([] if q else ["tree"]) for o in range(gops(s))]
    return js + [J(f"misc-{s}", tname(s), mode="misc", t=T) for s in GSPECS]
def c30(tier):
    q = tier == "quick"
    return [J(f"valid-{s}-{k}", tname(s), mode="valid", field=k) for s in (["roles", "ops", "vals"] if q else ["vals", "deep", "refs", "roles", "ops", "tree"]) for k in range(gvals(s))]
CHECKS["C28"] = dict(jobs=c28, reach=["completed"], bounds='four specifications (roles nested three deep, default, all, several roles or none for an operation, an empty roles block; operations of every kind): every sequence of 2 (3) roles entered, every operation, arguments and rows symbolic', outside='better-sqlite3 and node, which are models; the translation of the generated TypeScript to C (gen/ts2c.js), which refuses syntax it does not know; other specifications')
CHECKS["C29"] = dict(jobs=c29, reach=["completed", "misc", "database-error"], bounds='seven specifications (thorough: eight) with operations of every kind over every type; arguments and columns of rows symbolic, text of up to 2 bytes, blobs of up to 2; 0 to 3 rows; database error or failed constraint at any statement', outside='better-sqlite3, bcrypt and node, which are models; the translation to C (gen/ts2c.js); several failures; other specifications')
CHECKS["C30"] = dict(jobs=c30, reach=["accepted", "refused"], bounds='every field of three (six) specifications with limits of each operator over each type, at the extremes of the types; input missing, of another type, or any text of the stated forms with symbolic digits or bytes', outside='the validator package, which is a model of its documentation; text normalised by it; the translation to C (gen/ts2c.js)')

# ---- faults ----
def c24(tier):
    q = tier == "quick"; T = 60 if q else 800
    js = [J(f"parse-rich@{k}", "fault", mode="parse", file=RICH, span=200, t=T, samples=1, **{"from": k}) for k in range(0, 1000, 200)] + [J("parse-mini", "fault", mode="parse", file=MINI, t=T)]
    js += [J(f"write-{n}", "fault", mode="alloc", what=0, file=f, t=T) for n, f in (("mini", MINI), ("rich", RICH))]
    js += [J(f"audit-{o}", "fault", mode="alloc", what=1, opt=o, file=RICH, t=T) for o in range(6)]
    js += [J(f"diff-{n}", "fault", mode="alloc", what=2, file=f, file2=f[:-4] + "2.ort", t=T) for n, f in (("mini", MINI), ("rich", RICH))]
    js += [J(f"sqldiff-{n}-{o}", "fault", mode="alloc", what=3, opt=o, file=f, file2=f[:-4] + "3.ort", t=T) for n, f in (("mini", MINI), ("rich", RICH)) for o in (0, 1)]
    js += [J(f"gen{g}-{n}@{k}", "fault", mode="alloc", what=4, gen=g, file=f, span=300, t=T, samples=1, **{"from": k}) for n, f, top in (("mini", MINI, 300), ("rich", RICH, 900)) for g in range(1, 10) for k in range(0, top, 300)]
    return js
CHECKS["C24"] = dict(jobs=c24, reach=["refused", "failed", "succeeded"], bounds='one failing allocation, any of the first 1000 of parsing, writing, auditing (6 roles), comparing and migrating (both ways), and of every generator, on two specifications using every statement', outside='more than one failing allocation; allocations of stdio itself; other specifications; the code of the programs around the library')
def c25(tier):
    q = tier == "quick"; T = 60 if q else 800
    js = [J(f"read-{n}@{k}", "fault", mode="read", file=f, span=700, t=T, samples=1, **{"from": k}) for n, f in (("mini", MINI), ("rich", RICH)) for k in range(0, size(f), 700)]
    js += [J(f"write-{n}", "fault", mode="write", what=0, file=f, t=T) for n, f in (("mini", MINI), ("rich", RICH))]
    js += [J(f"diff-{n}", "fault", mode="write", what=2, file=f, file2=f[:-4] + "2.ort", t=T) for n, f in (("mini", MINI), ("rich", RICH))]
    js += [J(f"sqldiff-{n}-{o}", "fault", mode="write", what=3, opt=o, file=f, file2=f[:-4] + "3.ort", t=T) for n, f in (("mini", MINI), ("rich", RICH)) for o in (0, 1)]
    js += [J(f"gen{g}-{n}@{k}", "fault", mode="write", what=4, gen=g, file=f, span=1000, t=T, samples=1, **{"from": k}) for n, f, top in (("mini", MINI, 1000), ("rich", RICH, 4000)) for g in range(1, 10) for k in range(0, top, 1000)]
    return js
CHECKS["C25"] = dict(jobs=c25, reach=["unreadable", "failed"], bounds='reading fails after any number of bytes of two specifications; one failing write, any of the first 4000 (the writer, the difference, the migration: 1000) calls, of the writer, difference, migration and every generator', outside='more than one failure; output still buffered when the program closes it; ort-audit-json; other specifications')

# ---- text of the difference ----
def c31(tier):
    q = tier == "quick"; js = []
    for s in range(11):
        js += [J(f"slot{s}-{f}", "diff", text=1, names=s % 2, slot=s, to=f + 12, a0=1 if q else 0, t=100, **{"from": f}) for f in range(0, 1 if q else (16, 12, 11, 5, 59, 6, 35, 28, 9, 11, 17)[s], 13)]
        js += [J(f"slots{s}-{o}", "diff", text=1, slot=s, other=o, full=0, a0=1, t=100 if q else 400) for o in range(11) if o > s]
    return js
CHECKS["C31"] = dict(jobs=c31, reach=["differ", "equal"], bounds='pairs of configurations varying in one of the eleven places of C12 (quick: each variant against the usual; thorough: every pair of variants) or in two places at once (each variant of both), both ways, with and without names of files', outside='the order of lines; the lines of unchanged objects; changes in three or more places')

# ---- the command line ----
TOOLS = ["ort", "sql", "json", "rust", "c-header", "c-source", "c-manpage", "nodejs", "javascript", "xliff", "audit", "audit-json", "diff", "sqldiff"]
def c26(tier):
    q = tier == "quick"; T = 100 if q else 600; js = []
    for t, n in enumerate(TOOLS):
        for sh in range(13) if t >= 12 else (0, 1, 2, 10, 11):
            for d in (0, 1) if sh in (1, 4, 7) else (0,):
                js.append(J(f"{n}-{sh}-{d}", "tools", tool=t, shape=sh, dashes=d, nopt=1 if q or sh else 2, t=T))
        if t == 9: js += [J(f"translate-{k}", "tools", tool=9, xl=1, shape=k, t=T) for k in range(16)]
        if q: js.append(J(f"{n}-options", "tools", tool=t, shape=0, nopt=2, t=T))
    return js
CHECKS["C26"] = dict(jobs=c26, reach=["failed", "succeeded"], bounds='all fourteen tools; each documented option, an unknown one and options without their argument, one (without operands: two) at a time; no, one or two files (ort-diff, ort-sqldiff: up to three, with and without -f), a file which is missing first or last, "--"; each file and the standard input holding any of six specifications, some with characters left open, some refused, one empty; valid and invalid names of roles; ort-xliff -j and -u on sixteen arrangements of files', outside='options after operands (other than -f and -x); three or more options; failing system calls other than opening; file names other than those used')

def c27(tier):
    q = tier == "quick"; T = 100 if q else 600; js = []
    for t in (10, 11):
        for p in range(8):
            for r in range(8):
                if q and (p + r) % 8 not in ((0, 3) if t == 10 else (0, 5)): continue
                js.append(J(f"{TOOLS[t]}-{p}-{r}", "tools", tool=t, shape=1, audit=1, pop=p, qop=r, nopt=2 if (p + r) % 8 == 0 else 1, t=T))
    js += [J(f"texts-{d}-{r}", "tools", tool=11, shape=1, audit=1, pop=5, qop=r, docs=d, nopt=1, t=T) for d in (1, 2) for r in (3,)]
    return js
CHECKS["C27"] = dict(jobs=c27, reach=["failed", "succeeded"], bounds='three structures with chains of references, sixteen queries, named and unnamed, of every kind, eight kinds of permission in two of them for any of four sets of roles, audited for any of five roles, the default, none or an unknown one; comments of up to two arbitrary characters; ort-audit with and without -v, ort-audit-json with and without -s', outside='whether the audit itself is right, which is C09; other structures; failing writes; the order of lines of JSON')

# ---- XLIFF ----
def c22(tier):
    q = tier == "quick"; T = 100 if q else 600; js = []
    one = lambda v: 0 if q and bin(v).count("1") > 1 else 1
    js += [J(f"extract-{v}", "xliff", mode=0, vary=v, sym=one(v), t=T) for v in (1, 2, 4, 8, 16, 32, 10, 36) + (() if q else (3, 56, 7))]
    for m, n in ((1, "join"), (2, "update")):
        js += [J(f"{n}-{v:x}", "xliff", mode=m, vary=v, sym=one(v), t=T) for v in (0x101, 0x404, 0x808, 0x1, 0x100, 0x4, 0x400, 0x800, 0x1000, 0x2020, 0x2, 0x300, 0x1404)]
        js += [J(f"{n}-own{o}-{l}", "xliff", mode=m, vary=0x200, own=o, lang=l, attrs=(o + l) % 2, t=T) for o in (-1, 0, 2, 3, 4, 5) for l in ((0, 1, 2, 3) if o in (-1, 0, 5) else (0, 2))]
        js += [J(f"{n}-lang{l}", "xliff", mode=m, vary=0, lang=l, t=T) for l in range(4, 7)]
        if m == 1: js += [J(f"join-two-{v:x}-{o}", "xliff", mode=1, two=1, vary=v, own=o, t=T) for v, o in ((0x100, -1), (0x1, 1), (0x400, 2), (0x2000, 5))]
        js += [J(f"{n}-any-{p}", "xliff", mode=m + 2, pre=p, n=2 if q else 3, t=T) for p in range(9)]
    return js
CHECKS["C22"] = dict(jobs=c22, reach=["refused", "accepted"], bounds='an enumeration and a bitfield with six labelled places, each label and translation any of several kinds of text with one arbitrary printable character, XML specials, quotes, backslashes, equal labels, missing, empty or absent translations, with and without -c, labels already there in the language, seven target languages, one or two XLIFF files; and any two (thorough: three) of 28 items of markup after any of nine beginnings of an XLIFF file', outside='labels with control characters, carriage returns or bytes above 127; comments and CDATA inside texts; numeric character references (passed through as documented); several units with the same source; configurations lacking default labels, beyond being refused or left alone; libexpat itself, for which a model written from the standard stands in (counterexamples are replayed with libexpat)')

# ---- JSON ----
def c23(tier):
    q = tier == "quick"; T = 100 if q else 600
    js = [J(f"file-{n}-{fr}", "json", mode="file", file=f, frag=fr, t=T) for n, f in (("rich", RICH), ("mini", MINI)) for fr in (0, 1)]
    js += [J(f"slot{s}", "json", mode="slots", slot=s, t=T) for s in range(11)]
    if not q: js += [J(f"slots{s}-{o}", "json", mode="slots", slot=s, other=o, t=T) for s in range(11) for o in range(s + 1, 11)]
    js += [J(f"text{w}-{k}", "json", mode="text", where=w, k=k, t=T) for w in range(17) for k in ((0, 1, 2, 3) if not q or w in (0, 2, 13) else (w % 4,))]
    js += [J(f"numbers{k}", "json", mode="numbers", k=k, t=T) for k in range(12)]
    js += [J(f"tokens-ctx{c}", "json", mode="ctx", ctx=c, n=3 if c in (1, 9) else 2, t=T) for c in (0, 1, 9, 10)]
    return js
CHECKS["C23"] = dict(jobs=c23, reach=["accepted", "rejected"], bounds='configurations: a rich and a small sample of the repository style; eleven places each with every variant (quick: one place at a time; thorough: every pair of places); every text of up to three arbitrary characters in every place text may be, with quotes, backslashes and control characters; integers, masks, reals and dates of two or three arbitrary digits, negative or not, in every place numbers may be; every sequence of 2-3 tokens in four contexts; whole and fragment output', outside='longer texts and numbers; more than one file; texts outside 7-bit characters other than as copied bytes; the order of members')
# ---- the JSON form read back by ort-json.ts ----
def c32(tier):
    q = tier == "quick"; T = 100 if q else 600
    js = [J(f"file-{n}", "ojson", mode="file", file=f, t=T) for n, f in (("rich", RICH), ("mini", MINI))]
    js += [J(f"slot{s}", "ojson", mode="slots", slot=s, t=T) for s in range(11)]
    if not q: js += [J(f"slots{s}-{o}", "ojson", mode="slots", slot=s, other=o, t=T) for s in range(11) for o in range(s + 1, 11)]
    js += [J(f"text{w}-{k}", "ojson", mode="text", where=w, k=k, t=T) for w in range(17) for k in ((0, 1, 2, 3) if not q or w in (0, 2, 13) else (w % 4,))]
    js += [J(f"numbers{k}", "ojson", mode="numbers", k=k, t=T) for k in range(12)]
    js += [J(f"tokens-ctx{c}", "ojson", mode="ctx", ctx=c, n=3 if c in (1, 9) else 2, t=T) for c in (0, 1, 9, 10)]
    return js
CHECKS["C32"] = dict(jobs=c32, reach=["accepted", "rejected"], bounds='as for C23: a rich and a small sample; eleven places each with every variant (quick: one place at a time; thorough: every pair of places); every text of up to three arbitrary characters in every place text may be; integers, masks, reals and dates of two or three arbitrary digits; every sequence of 2-3 tokens in four contexts. ort-json.ts is type-checked and translated to C, with the methods toString() needs', outside='longer texts and numbers; texts which are not UTF-8; dates beyond the year 275760; JSON of other origin than ort-json; order of operations with and without names among each other; the other methods of ort-json.ts')
# ---- syntax ----
GRAM = V + "/corpus/gram.ort"
def c33(tier):
    q = tier == "quick"; js = []
    for c, voc in enumerate(CTXN):
        if q: js.append(J(f"tokens3-ctx{c}", "grammar", mode="ctx", ctx=c, n=3, t=100))
        else: js += [J(f"tokens5-ctx{c}-{f}", "grammar", mode="ctx", ctx=c, n=5, first=f, t=300) for f in range(voc)]
    js += [J(f"free{k}", "grammar", mode="free", where=k, n=4 if q else 6, t=100 if q else 900) for k in range(9)]
    js += [J(f"edit-mini@{k}", "grammar", mode="edit", file=MINI, pos=k, span=6, t=100, samples=1) for k in range(0, 120, 6)]
    js += [J(f"edit-gram@{k}", "grammar", mode="edit", file=GRAM, pos=k, span=6, t=100, samples=1) for k in range(0, 294, 6)]
    if not q: js += [J(f"edit-rich@{k}", "grammar", mode="edit", file=RICH, pos=k, span=10, t=600, samples=1) for k in range(0, 760, 10)]
    return js
CHECKS["C33"] = dict(jobs=c33, reach=["accepted", "refused"], bounds="fifteen contexts with any 3 (thorough 5) tokens; nine places with any 4 (6) of 79 words; corpus/mini.ort and corpus/gram.ort (thorough: also rich.ort) with any one to three tokens dropped or repeated, any two exchanged, and any one replaced or preceded by any of the 79 words", outside="several edits at once; isnull and isunset given several times; what is refused though it has the syntax (C04 to C10)")
