#!/usr/bin/env python3
"""Derives a harness for generated C from a configuration, independently of the generator:
its own reading of the configuration (a subset of ort(5)) and of ort-c-header(1)'s calling conventions."""
import re, sys
GT = {"int": "GI", "bit": "GI", "bits": "GI", "date": "GI", "epoch": "GI", "enum": "GE", "real": "GR", "text": "GS", "email": "GS", "password": "GP", "blob": "GB"}
OPS = {"eq": "=", "neq": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<=", "like": "LIKE", "and": "&", "or": "|", "streq": "=", "strneq": "!=", "isnull": "ISNULL", "notnull": "NOTNULL"}
BASE = {"int": "int", "bit": "bit", "bits": "int", "date": "date", "epoch": "int", "enum": "int", "real": "double", "text": "string", "password": "string", "email": "email"}

class O(object):
    def __init__(self, **k): self.__dict__.update(k)

def toks(s):
    s = re.sub(r"#[^\n]*", "", s)
    return re.findall(r'"(?:\\.|[^"\\])*"|-?[0-9]+\.[0-9]*|-?[0-9]+|[A-Za-z][A-Za-z0-9]*|[{}:;,.]', s)

def parse(text):
    t = toks(text); i = 0
    cfg = O(structs=[], enums={}, bits={}, roles=[], hasroles=False)   # roles: (name, parent)
    def block(i):
        assert t[i] == "{", t[i - 2:i + 5]
        d = 1; j = i + 1
        while d: d += {"{": 1, "}": -1}.get(t[j], 0); j += 1
        return i + 1, j - 1, j + 1
    def stmts(a, b):
        out, cur, d = [], [], 0
        for x in t[a:b]:
            d += {"{": 1, "}": -1}.get(x, 0)
            if x == ";" and d == 0: out.append(cur); cur = []
            else: cur.append(x)
        return out
    def roles(st, parent):
        for s in st:
            assert s[0] == "role"; cfg.roles.append((s[1].lower(), parent))
            if "{" in s:
                sub, cur, d = [], [], 0
                for x in s[s.index("{") + 1:-1]:
                    d += {"{": 1, "}": -1}.get(x, 0)
                    if x == ";" and d == 0: sub.append(cur); cur = []
                    else: cur.append(x)
                roles(sub, s[1].lower())
    while i < len(t):
        k = t[i]
        if k == "roles":
            cfg.hasroles = True
            a, b, i = block(i + 1); roles(stmts(a, b), None)
        else:
            nm = t[i + 1].lower(); a, b, i = block(i + 2); st = stmts(a, b)
            if k in ("enum", "bits"):
                items, nxt = [], 0
                for s in st:
                    if s[0] == "item":
                        items.append((s[1].lower(), int(s[2]) if len(s) > 2 and re.match(r"-?\d", s[2]) else None))
                (cfg.enums if k == "enum" else cfg.bits)[nm] = items
            else:
                cfg.structs.append(struct(nm, st))
    for s in cfg.structs:
        for f in s.fields:
            f.tstruct = None
        for f in s.fields:
            if f.type == "struct":
                f.srcf = field(s, f.src); f.target = get(cfg, f.srcf.ref[0]); f.null = f.srcf.null
                f.srcf.sf = f
    return cfg

def struct(nm, st):
    s = O(name=nm, fields=[], ops=[], insert=None, roles={}, noexp=[])
    for x in st:
        x = [y if y.startswith('"') else y.lower() for y in x]
        if x[0] == "field": s.fields.append(fld(s, x[1:]))
        elif x[0] == "insert": s.insert = O(kind="insert", name=None, roles=set(), s=s, mods=[], cons=[])
        elif x[0] in ("search", "list", "iterate", "count"): s.ops.append(query(s, x))
        elif x[0] in ("update", "delete"): s.ops.append(update(s, x))
        elif x[0] == "roles":
            b = x.index("{"); who = [y for y in x[1:b] if y != ","]; cur = []; items = []
            for y in x[b + 1:-1]:
                if y == ";": items.append(cur); cur = []
                else: cur.append(y)
            for it in items:
                s.roles.setdefault("x", []).append((who, it))
    for who, it in s.roles.get("x", []):
        for o in s.ops + ([s.insert] if s.insert else []):
            if it == ["all"] or (it[0] == o.kind and (it[0] == "insert" or (len(it) > 1 and it[1] == o.name))): o.roles |= set(who)
        if it[0] == "noexport":
            for f in s.fields:
                if len(it) == 1 or it[1] == f.name: f.noexp |= set(who)
    return s

def fld(s, x):
    f = O(s=s, name=x[0], ref=None, null=False, unique=False, rowid=False, noexport=False, limits=[], noexp=set(), sf=None, src=None, target=None)
    i = 1
    if i < len(x) and x[i] == ":": f.ref = (x[i + 1], x[i + 3]); i += 4
    f.type = x[i] if i < len(x) else "int"; i += 1; f.arg = None
    if f.type in ("enum", "bits", "bitfield", "struct"): f.arg = x[i]; i += 1
    if f.type == "bitfield": f.type = "bits"
    if f.type == "struct": f.src = f.arg
    while i < len(x):
        w = x[i]
        if w in ("null", "unique", "rowid", "noexport"): setattr(f, w, True); i += 1
        elif w == "limit": f.limits.append((x[i + 1], x[i + 2])); i += 3
        elif w in ("default", "comment", "actup", "actdel"): i += 2
        else: raise Exception("field " + w)
    return f

def lists(x):
    parts, cur, segs = [], [], []
    return parts

def terms(x):
    out, cur = [], []
    for y in x + [","]:
        if y == ",":
            if cur:
                p = [cur[0]]; j = 1
                while j + 1 < len(cur) and cur[j] == ".": p.append(cur[j + 1]); j += 2
                out.append((p, cur[j] if j < len(cur) else None))
            cur = []
        else: cur.append(y)
    return out

def query(s, x):
    o = O(kind=x[0], s=s, terms=[], name=None, order=[], limit=None, offset=None, distinct=None, group=False, roles=set())
    a, b = (x[1:x.index(":")], x[x.index(":") + 1:]) if ":" in x else (x[1:], [])
    o.terms = [(p, op or "eq") for p, op in terms(a)]
    KW = {"name", "order", "limit", "distinct", "grouprow", "maxrow", "minrow", "comment"}
    i = 0
    while i < len(b):
        w = b[i]; j = i + 1
        while j < len(b) and not (b[j] in KW and b[j - 1] not in (".",)): j += 1
        v = b[i + 1:j]; i = j
        if w == "name": o.name = v[0]
        elif w == "order": o.order = terms(v)
        elif w == "limit": o.limit = v[0]; o.offset = v[2] if len(v) > 2 else None
        elif w == "distinct": o.distinct = [] if v == ["."] else [y for y in v if y != "."]
        elif w in ("grouprow", "maxrow", "minrow"): o.group = True
    return o

def update(s, x):
    o = O(kind=x[0], s=s, mods=[], cons=[], name=None, roles=set(), all=False)
    segs, cur = [], []
    for y in x[1:] + [":"]:
        if y == ":": segs.append(cur); cur = []
        else: cur.append(y)
    if x[0] == "update":
        m = terms(segs[0]); c = terms(segs[1]) if len(segs) > 1 else []; tail = segs[2] if len(segs) > 2 else []
        if not m: o.all = True; m = [([f.name], "set") for f in s.fields if f.type != "struct" and not f.rowid]
        o.mods = [(p, op or "set") for p, op in m]
    else:
        c = terms(segs[0]); tail = segs[1] if len(segs) > 1 else []
    o.cons = [(p, op or "eq") for p, op in c]
    if "name" in tail: o.name = tail[tail.index("name") + 1]
    return o

def get(cfg, n): return next(s for s in cfg.structs if s.name == n)
def field(s, n): return next(f for f in s.fields if f.name == n)
def resolve(cfg, s, path):
    for p in path[:-1]: s = field(s, p).target
    return field(s, path[-1])
def native(s): return [f for f in s.fields if f.type != "struct"]
def ctype(cfg, f):
    while f.ref: f = field(get(cfg, f.ref[0]), f.ref[1])
    if f.type == "enum": return "enum " + f.arg
    if GT[f.type] == "GI": return f"{f.s.name}_{f.name}"
    return {"GR": "double", "GS": "const char *", "GP": "const char *"}[GT[f.type]]

class Emit:
    def __init__(self, cfg): self.cfg = cfg; self.o = []; self.n = 0
    def __call__(self, s): self.o.append(s)

def ancestors(cfg, r):
    out = []; d = dict(cfg.roles)
    while r: out.append(r); r = d.get(r)
    return out
def allowed(cfg, r, who):
    if not cfg.hasroles: return True
    if r == "none": return False
    if r == "default": return "default" in who
    return "all" in who or any(a in who for a in ancestors(cfg, r))

def arg(e, f, k, null, deref, pw=None):
    """declare symbolic argument a<k>; returns (C arguments, value expression)"""
    cfg = e.cfg; g = GT[f.type]
    e(f"\tstruct gcv a{k}; gc_sym(&a{k}, \"a{k}\", {'GS' if g == 'GP' else g}, {1 + k % 2 if g != 'GB' else k % 3});")
    if null: e(f"\ta{k}.isnull = vp_range(\"a{k}.null\", 0, 1);")
    if g == "GB":
        if null: e(f"\tconst void *b{k} = a{k}.s;"); return f"a{k}.n, a{k}.isnull ? NULL : &b{k}"
        return f"a{k}.n, a{k}.s"
    if g in ("GS", "GP"):
        if null: e(f"\tconst char *b{k} = a{k}.s;"); return f"a{k}.isnull ? NULL : &b{k}"
        return f"a{k}.s"
    t = ctype(cfg, f)
    if g == "GI": e(f"\t{t} b{k}; ORT_SETV_{f.s.name}_{f.name}(&b{k}, a{k}.i);")
    elif g == "GE":
        e(f"\t{t} b{k} = ({t})a{k}.i;")
        e(f"\ta{k}.i = (int64_t)b{k};")
    else: e(f"\tdouble b{k} = a{k}.d;")
    return f"a{k}.isnull ? NULL : &b{k}" if null else f"b{k}"

def emit(cfg, ortfile):
    e = Emit(cfg)
    e('#include "gc.h"'); e('#include "g.h"')
    e("const struct gccol gc_cols[] = {")
    for s in cfg.structs:
        for f in native(s):
            e(f'\t{{ "{s.name}", "{f.name}", {GT[f.type]}, {int(f.null)}, {chr(34) + f.sf.name + chr(34) if f.sf and not f.null else "NULL"}, {chr(34) + f.ref[0] + chr(34) if f.ref else "NULL"} }},')
    e("\t{ NULL } };")
    roles = ["none", "default"] + [r for r, _ in cfg.roles] if cfg.hasroles else []
    e("enum { NROLES = %d };" % max(1, len(roles)))
    if roles:
        e("static const int rolev[] = { " + ", ".join("ROLE_" + r for r in roles) + " };")
        e("static const char *const rolen[] = { " + ", ".join(f'"{r}"' for r in roles) + " };")
        # transitions
        e("static int role_ok(int a, int b) { static const unsigned char t[NROLES][NROLES] = {")
        for a in roles:
            e("\t{ " + ", ".join(str(int(a == b or b == "none" or a == "default" or (a not in ("none", "default") and b in ancestors(cfg, a)))) for b in roles) + " },")
        e("\t}; return t[a][b]; }")
    for s in cfg.structs: e(f"static int eq_{s.name}(const struct {s.name} *p, struct gcq *q, int row, const char *pfx);"); e(f"static void jexp_{s.name}(const struct {s.name} *p, const char *jp, int role);")
    e("static int want_role;")
    for s in cfg.structs:
        n = s.name
        e(f"static int eq_{n}(const struct {n} *p, struct gcq *q, int row, const char *pfx) {{\n\tint ok = 1; struct gcv *v; char b[128];")
        for f in s.fields:
            if f.type == "struct":
                if not f.null:
                    e(f'\tsnprintf(b, sizeof b, "%s{f.name}.", pfx); {{ int r = eq_{f.target.name}(&p->{f.name}, q, row, b); ok &= r; }}')
                else:
                    sf = f.srcf
                    e(f'\tv = gc_at(q, row, pfx, "{sf.name}");')
                    e(f'\tif (v->isnull) CK(!p->has_{f.name}, "no-nested-{n}.{f.name}"); else {{ int i, any = 0, hard = gc_hard; CK(p->has_{f.name}, "nested-{n}.{f.name}"); gc_hard = 0;')
                    tt = sf.ref
                    e(f'\t\tfor (i = 0; i < gc_nqs; i++) if (gc_qs[i] != gc_main && gc_qs[i]->kind == \'S\' && !strcmp(gc_qs[i]->table, "{tt[0]}") && gc_qs[i]->nconj == 1 && !strcmp(gc_qs[i]->conj[0].text, "{tt[1]} = ?")) {{')
                    g = GT[sf.type]; w = "gc_qs[i]->conj[0].v"
                    c = {"GS": f"{w}.type == GS && {w}.n == v->n && gc_bytes({w}.s, v->s, v->n + 1)", "GR": f"{w}.type == GR && gc_bits({w}.d, v->d)", "GB": f"{w}.type == GB && {w}.n == v->n && gc_bytes({w}.s, v->s, v->n)"}
                    e(f'\t\t\tint m = {c.get("GS" if g == "GP" else g, f"{w}.type == GI && {w}.i == v->i")};')
                    e(f'\t\t\tm &= eq_{f.target.name}(&p->{f.name}, gc_qs[i], 0, ""); any |= m; }}')
                    e(f'\t\tgc_hard = hard; CK(any, "nested-object-{n}.{f.name}"); }}')
                continue
            g = GT[f.type]
            e(f'\tv = gc_at(q, row, pfx, "{f.name}");')
            ex = {"GI": f"(int64_t)ORT_GET_{n}_{f.name}(p) == v->i", "GR": f"gc_bits(p->{f.name}, v->d)", "GS": f"gc_str(v, p->{f.name})", "GP": f"gc_str(v, p->{f.name})",
                  "GE": f"p->{f.name} == (enum {f.arg})v->i", "GB": f"p->{f.name}_sz == v->n && gc_bytes(p->{f.name}, v->s, v->n)"}[g]
            if f.null: e(f'\tif (v->isnull) CK(p->has_{f.name} == 0, "null-{n}.{f.name}"); else CK(p->has_{f.name} != 0 && {ex}, "field-{n}.{f.name}");')
            else: e(f'\tCK({ex}, "field-{n}.{f.name}");')
        if roles: e('\tCK(db_role_stored(p->priv_store) == (enum ort_role)want_role, "role-stored");')
        e("\treturn ok;\n}")
        e(f"static void jexp_{n}(const struct {n} *p, const char *jp, int role) {{\n\tstruct gcv v; char b[200]; (void)b; (void)role;")
        for f in s.fields:
            if f.noexport or f.type == "password": continue
            mask = sum(1 << i for i, r in enumerate(roles) if allowed(cfg, r, f.noexp)) if roles else 0
            e(f"\tif (!((0x{mask:x}ul >> role) & 1)) {{ memset(&v, 0, sizeof v);")
            if f.type == "struct":
                body = f'gc_jwant(jp, "{f.name}", NULL, 100); snprintf(b, sizeof b, "%s{f.name}.", jp); jexp_{f.target.name}(&p->{f.name}, b, role);'
                e(f'\t\tif (p->has_{f.name}) {{ {body} }} else gc_jwant(jp, "{f.name}", NULL, 0);' if f.null else "\t\t" + body)
            else:
                g = GT[f.type]
                if f.null: e(f"\t\tv.isnull = !p->has_{f.name};")
                st = {"GI": f"v.i = (int64_t)ORT_GET_{n}_{f.name}(p);", "GE": f"v.i = (int64_t)p->{f.name};", "GR": f"v.d = p->{f.name};", "GS": f"v.n = strlen(p->{f.name}); memcpy(v.s, p->{f.name}, v.n + 1);", "GB": f"v.n = p->{f.name}_sz; memcpy(v.s, p->{f.name}, v.n);"}[g]
                e(f'\t\tv.type = {g}; if (!v.isnull) {{ {st} }} gc_jwant(jp, "{f.name}", &v, 0);')
            e("\t}")
        e("}")
    # import
    e("#define HAVE_IMPORT 1")
    e("static void jopen(void); static void jclose(void); static int jkey(const char *, int, int); static void jnum(int bit, int en), jreal(void), jstr(void), jblob(void); static struct jx *jnext(void); static int jorder;")
    for s in cfg.structs: e(f"static void jw_{s.name}(void); static void jc_{s.name}(const struct {s.name} *p);")
    for s in cfg.structs:
        n = s.name; fs = [f for f in s.fields if not f.noexport]
        e(f"static void jw_{n}(void) {{ int i; jopen(); for (i = 0; i < {len(fs)}; i++) switch (jorder ? {len(fs) - 1} - i : i) {{")
        for i, f in enumerate(fs):
            w = f"jw_{f.target.name}()" if f.type == "struct" else {"GI": f"jnum({int(f.type == 'bit')}, 0)", "GE": "jnum(0, 1)", "GR": "jreal()", "GS": "jstr()", "GP": "jstr()", "GB": "jblob()"}[GT[f.type]]
            e(f'\tcase {i}: if (jkey("{f.name}", {int(f.null)}, {"200" if f.type == "struct" else GT[f.type]})) {w}; break;')
        e(f"\t}} jclose(); }}\nstatic void jc_{n}(const struct {n} *p) {{ int i; struct jx *x; for (i = 0; i < {len(fs)}; i++) switch (jorder ? {len(fs) - 1} - i : i) {{")
        for i, f in enumerate(fs):
            e(f"\tcase {i}: x = jnext();")
            if f.null: e(f'\t\tvp_assert((p->has_{f.name} != 0) == (x->st == 0), "presence-of-{n}.{f.name}");')
            if f.type == "struct": ex = f"jc_{f.target.name}(&p->{f.name})"
            else:
                c = {"GI": f"(int64_t)ORT_GET_{n}_{f.name}(p) == x->v.i", "GR": f"gc_bits(p->{f.name}, x->v.d)", "GS": f"gc_str(&x->v, p->{f.name})", "GP": f"gc_str(&x->v, p->{f.name})", "GE": f"p->{f.name} == (enum {f.arg})x->v.i", "GB": f"p->{f.name}_sz == x->v.n && gc_bytes(p->{f.name}, x->v.s, x->v.n)"}[GT[f.type]]
                ex = f'vp_assert({c}, "import-{n}.{f.name}")'
            e(f"\t\tif (x->st == 0) {ex}; break;")
        e("\t} }")
        e(f"""static int ji_{n}(const char *b, jsmntok_t *t, size_t nt, int good, int nul) {{ struct {n} p; int rc; memset(&p, 0, sizeof p); rc = jsmn_{n}(&p, b, t, nt); if (good) {{ vp_assert(rc > 0 && (size_t)rc == nt, "imported"); jc_{n}(&p); }} jsmn_{n}_clear(&p); return rc; }}
static int ja_{n}(const char *b, jsmntok_t *t, size_t nt, int good, int cnt) {{ struct {n} *p = (struct {n} *)&p; size_t sz = 77, i; int rc = jsmn_{n}_array(&p, &sz, b, t, nt); if (good) {{ vp_assert(rc > 0 && (size_t)rc == nt && sz == (size_t)cnt, "imported"); for (i = 0; i < sz; i++) jc_{n}(&p[i]); }} jsmn_{n}_free_array(p, sz); return rc; }}
static void jn_{n}(void) {{ jsmn_{n}_clear(NULL); jsmn_{n}_free_array(NULL, 0); jsmn_{n}_free_array(NULL, 3); }}""")
    e("static const struct { const char *name; void (*write)(void); int (*one)(const char *, jsmntok_t *, size_t, int, int), (*arr)(const char *, jsmntok_t *, size_t, int, int); void (*nul)(void); } gc_imp[] = { " + ", ".join(f'{{ "{s.name}", jw_{s.name}, ji_{s.name}, ja_{s.name}, jn_{s.name} }}' for s in cfg.structs) + " };\nenum { NIMP = %d };" % len(cfg.structs))
    ops = []
    for s in cfg.structs:
        lst = s.ops + ([s.insert] if s.insert else [])
        for o in lst:
            ops.append(o); emit_op(e, cfg, s, o, len(ops) - 1, roles)
    e("enum { NOPS = %d };" % len(ops))
    e("static void (*const ops[])(struct ort *, int, int) = { " + ", ".join(f"op_{i}" for i in range(len(ops))) + " };")
    e("static const char *const opn[] = { " + ", ".join(f'"{o.s.name} {o.kind} {o.name or ""}"' for o in ops) + " };")
    e("static const unsigned char opjson[] = { " + ", ".join(str(int(o.kind in ("list", "search", "iterate"))) for o in ops) + " };")
    if roles:
        e("static int op_ok(int r, int o) { static const unsigned long m[NOPS] = { " + ", ".join(str(sum(1 << i for i, r in enumerate(roles) if allowed(cfg, r, o.roles))) for o in ops) + " }; return (int)((m[o] >> r) & 1); }")
        # role default with "all": what the documentation says is not settled
        e("static int op_open(int r, int o) { static const unsigned char a[NOPS] = { " + ", ".join(str(int("all" in o.roles and "default" not in o.roles)) for o in ops) + " }; return r == 1 && a[o]; }")
    e("#define HAVE_ROLES %d" % bool(roles))
    # validators
    vals = [(s, f) for s in cfg.structs for f in native(s)]
    e("struct gcval { int key; const char *name, *base; int type; int (*fn)(struct kpair *); int (*want)(struct kpair *); };")
    for s, f in vals:
        if f.type == "blob": continue
        conds = []
        g = GT[f.type]
        x = {"GI": "gc_kv.i", "GE": "gc_kv.i", "GR": "gc_kv.d"}.get(g, "(int64_t)k->valsz")
        for op, v in f.limits:
            lit = v
            if g == "GR": lit = v if "." in v else v + ".0"
            elif v == "-9223372036854775808": lit = "INT64_MIN"
            else: lit = f"INT64_C({v})"
            conds.append(f"{x} {OPS[op].replace('=', '==') if op == 'eq' else OPS[op]} {lit}")
        if f.type == "enum": conds.append("(" + " || ".join(f"gc_kv.i == {v}" for v in enumvals(cfg.enums[f.arg])) + ")")
        e(f"static int want_{s.name}_{f.name}(struct kpair *k) {{ (void)k; return {' && '.join(conds) or '1'}; }}")
    e("static const struct gcval gc_vals[] = {")
    for s, f in vals:
        if f.type == "blob": e(f'\t{{ VALID_{s.name.upper()}_{f.name.upper()}, "{s.name}-{f.name}", NULL, GB, NULL, NULL }},'); continue
        has = bool(f.limits) or f.type == "enum"
        e(f'\t{{ VALID_{s.name.upper()}_{f.name.upper()}, "{s.name}-{f.name}", "{BASE[f.type]}", {GT[f.type]}, {"valid_" + s.name + "_" + f.name if has else "NULL"}, want_{s.name}_{f.name} }},')
    e("};\nenum { NVALS = %d };" % len(vals))
    # releasing nothing
    e("static void frees_null(void) {")
    def rets(s, o):
        for p in o.distinct or []: s = field(s, p).target
        return s.name
    qs = {rets(s, o) for s in cfg.structs for o in s.ops if o.kind == "list"}
    for s in cfg.structs: e(f"\tdb_{s.name}_free(NULL);" + (f" db_{s.name}_freeq(NULL);" if s.name in qs else ""))
    e("}")
    e('#include "gcimp.h"'); e('#include "gcmain.h"')
    return "\n".join(e.o) + "\n"

def enumvals(items):
    # unnumbered items take the values after the greatest given so far
    out = []; nxt = 0
    mx = max([v for _, v in items if v is not None], default=None)
    nxt = 0 if mx is None or mx < 0 else mx + 1
    for n, v in items:
        if v is None: v = nxt; nxt += 1
        out.append(v)
    return out

def emit_op(e, cfg, s, o, idx, roles):
    n = s.name
    e(f"/* {o.kind} {o.name} */")
    if o.kind in ("search", "list", "iterate", "count"):
        ret = s
        if o.distinct: 
            for p in o.distinct: ret = field(ret, p).target
        rn = ret.name
        pfx = "".join(p + "." for p in (o.distinct or []))
        if o.kind == "iterate":
            e(f"struct it{idx} {{ int r; int json; struct kjsonreq j; }};\nstatic int itok{idx}(int r);")
            e(f"static void cb_{idx}(const struct {rn} *p, void *arg) {{ struct it{idx} *it = arg; while (it->r < gc_main->nrows && !itok{idx}(it->r)) it->r++; vp_assert(it->r < gc_main->nrows, \"a-call-for-each-row\"); gc_hard = 1; eq_{rn}(p, gc_main, it->r, \"{pfx}\"); gc_hard = 0; it->r++;")
            e(f"\tif (it->json) {{ json_{rn}_iterate(p, &it->j); jexp_{rn}(p, \"\", want_role_idx); gc_jdone(); }} }}")
            e(f"static struct gcv *itpw{idx}[4]; static const char *itpc{idx}[4]; static int itneg{idx}[4];")
            e(f"static int itok{idx}(int r) {{ int k; for (k = 0; k < 4; k++) if (itpw{idx}[k] && !gc_pwtest(itpw{idx}[k], gc_at(gc_main, r, \"\", itpc{idx}[k]), itneg{idx}[k])) return 0; return 1; }}")
        e(f"static void op_{idx}(struct ort *ctx, int rows, int json) {{\n\tgc_start('S', \"{n}\");")
        args, pws = [], []
        for k, (path, op) in enumerate(o.terms):
            f = resolve(cfg, s, path); txt = ".".join(path) + " " + OPS[op]
            if op in ("isnull", "notnull"): e(f'\tgc_expect("{txt}", NULL);'); continue
            a = arg(e, f, k, False, False); args.append(a)
            if f.type == "password" and op in ("eq", "neq"): pws.append((k, ".".join(path), op)); continue
            e(f'\tgc_expect("{txt} ?", &a{k});')
        if o.limit is None and o.kind == "search" and False: pass
        order = " , ".join(".".join(p) + (" DESC" if d == "desc" else " ASC") for p, d in o.order)
        if order: e(f'\tgc_want.order = "{order}";')
        if o.kind != "search" or o.limit:
            pass
        if o.limit and o.kind in ("list", "iterate"): e(f'\tgc_want.limit = "{o.limit}";')
        if o.offset: e(f'\tgc_want.offset = "{o.offset}";' + ('' if o.kind in ("list", "iterate") else f'\tgc_want.limit = "{1 if o.kind == "search" else o.limit}";'))
        e(f"\tgc_want.count = {int(o.kind == 'count')}; gc_want.distinct = {int(o.distinct is not None)}; gc_want.group = {int(o.group)}; gc_want.nrows = rows; gc_want.flags = {'SQLBOX_STMT_MULTI' if o.kind in ('list', 'iterate') else '0'};")
        name = f"db_{n}_{ {'search': 'get'}.get(o.kind, o.kind)}" + (f"_{o.name}" if o.name else "".join(["_by"] + ["_" + "_".join(p) + "_" + op for p, op in o.terms]) if o.terms else "")
        def pwc(row): return " && ".join(f"gc_pwtest(&a{k}, gc_at(gc_main, {row}, \"\", \"{c}\"), {int(op != 'eq')})" for k, c, op in pws) or "1"
        al = "".join(", " + a for a in args)
        chk = f"gc_hard = 1; eq_{rn}(p, gc_main, r, \"{pfx}\"); gc_hard = 0;"
        if o.kind == "search":
            e(f"\tif (gc_want.nrows > 1) gc_want.nrows = 1;")
            e(f"\tstruct {rn} *p = {name}(ctx{al}); int r = 0; struct kjsonreq j;")
            e(f"\tdone_call(); vp_assert((p != NULL) == (gc_main->nrows > 0 && {pwc(0)}), \"finds-iff-there-is-one\"); if (p) {{ {chk}")
            e(f"\t\tif (json) {{ role_late(ctx); json_{rn}_obj(&j, p); gc_jwant(\"\", \"{rn}\", NULL, 101 - 1); jexp_{rn}(p, \"{rn}.\", want_role_idx); gc_jdone(); json_{rn}_data(&j, p); jexp_{rn}(p, \"\", want_role_idx); gc_jdone(); }} db_{rn}_free(p); }}")
        elif o.kind == "list":
            e(f"\tstruct {rn}_q *q = {name}(ctx{al}); struct {rn} *p; int r = 0, c = 0; struct kjsonreq j; char b[64];")
            e(f"\tdone_call(); vp_assert(q != NULL, \"list-given\"); TAILQ_FOREACH(p, q, _entries) {{ while (r < gc_main->nrows && !({pwc('r')})) r++; vp_assert(r < gc_main->nrows, \"an-entry-for-each-row\"); {chk} r++; c++; }}")
            e(f"\twhile (r < gc_main->nrows && !({pwc('r')})) r++; vp_assert(r == gc_main->nrows, \"an-entry-for-each-row\");")
            arr = any(x.kind == "list" and (x.distinct is None or x.distinct == []) for x in ret.ops)
            if arr: e(f"\tif (json) {{ role_late(ctx); json_{rn}_array(&j, q); gc_jwant(\"\", \"{rn}_q\", NULL, 101); c = 0; TAILQ_FOREACH(p, q, _entries) {{ snprintf(b, sizeof b, \"{rn}_q[%d].\", c++); jexp_{rn}(p, b, want_role_idx); }} gc_jdone(); }}")
            e(f"\tdb_{rn}_freeq(q); (void)b; (void)c; (void)j;")
        elif o.kind == "iterate":
            e(f"\tstruct it{idx} it; memset(&it, 0, sizeof it); it.json = json; memset(itpw{idx}, 0, sizeof itpw{idx});")
            for z, (k, c, op) in enumerate(pws): e(f"\titpw{idx}[{z}] = &a{k}; itpc{idx}[{z}] = \"{c}\"; itneg{idx}[{z}] = {int(op != 'eq')};")
            e(f"\t{name}(ctx, cb_{idx}, &it{al}); done_call(); while (it.r < gc_main->nrows && !itok{idx}(it.r)) it.r++; vp_assert(it.r == gc_main->nrows, \"a-call-for-each-row\");")
        else:
            e(f"\tuint64_t c = {name}(ctx{al}); done_call(); vp_assert(c == (uint64_t)gc_main->cnt, \"count-returned\");")
        e("}")
        return
    kind = {"insert": "I", "update": "U", "delete": "D"}[o.kind]
    e(f"static void op_{idx}(struct ort *ctx, int rows, int json) {{\n\tgc_start('{kind}', \"{n}\"); gc_want.execrc = rows & 1;")
    args = []; k = 0
    if o.kind == "insert":
        for f in native(s):
            if f.rowid: continue
            args.append(arg(e, f, k, f.null, True)); e(f'\t{{ struct gcv v = a{k};')
            if f.type == "password": e("\tgc_hash(&v);")
            e(f'\tgc_expect("SET {f.name} = ?", &v); }}'); k += 1
        name = f"db_{n}_insert"
    else:
        for p, op in o.mods:
            f = field(s, p[0]); args.append(arg(e, f, k, f.null, True)); x = f.name
            e(f'\t{{ struct gcv v = a{k};')
            if f.type == "password" and op == "set": e("\tgc_hash(&v);")
            rhs = {"set": "?", "strset": "?", "inc": f"{x} + ?", "dec": f"{x} - ?", "concat": f"{x} || ?"}[op]
            if op == "concat" and f.null: rhs = f"{x} (or empty) || ?"
            e(f'\tgc_expect("SET {x} = {rhs}", &v); }}'); k += 1
        for p, op in o.cons:
            f = field(s, p[0])
            if op in ("isnull", "notnull"): e(f'\tgc_expect("{f.name} {OPS[op]}", NULL);'); continue
            args.append(arg(e, f, k, False, False)); e(f'\tgc_expect("{f.name} {OPS[op]} ?", &a{k});'); k += 1
        name = f"db_{n}_{o.kind}"
        if o.name: name += "_" + o.name
        else:
            if o.kind == "update" and not o.all: name += "".join(f"_{p[0]}_{op}" for p, op in o.mods)
            if o.cons: name += "_by" + "".join(f"_{p[0]}_{op}" for p, op in o.cons)
    al = "".join(", " + a for a in args)
    if o.kind == "insert":
        e(f"\tgc_want.flags = SQLBOX_STMT_CONSTRAINT; gc_want.lastid = vp_i64(\"lastid\");\n\tint64_t id = {name}(ctx{al}); done_call(); vp_assert(gc_want.execrc ? id == -1 : id == gc_want.lastid, \"identifier-returned\");")
    elif o.kind == "update":
        e(f"\tgc_want.flags = SQLBOX_STMT_CONSTRAINT;\n\tint rc = {name}(ctx{al}); done_call(); vp_assert(gc_want.execrc ? rc == 0 : rc != 0, \"result-of-update\");")
    else:
        e(f"\tgc_want.execrc = 0; {name}(ctx{al}); done_call();")
    e("}")

if __name__ == "__main__":
    sys.stdout.write(emit(parse(open(sys.argv[1]).read()), sys.argv[1]))
