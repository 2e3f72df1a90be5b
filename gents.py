#!/usr/bin/env python3
"""Derives a harness for generated TypeScript (translated by gen/ts2c.js) from a configuration, independently of the
generator: the reading of the configuration of gencc.py, and ort-nodejs(1)'s calling conventions."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gencc import *

def targ(e, f, k, null):
    g = GT[f.type]
    e(f"\tstruct gcv *a{k} = calloc(1, sizeof *a{k}); gc_sym(a{k}, \"a{k}\", {'GS' if g == 'GP' else g}, {1 + k % 2 if g != 'GB' else k % 3});")
    if null: e(f"\ta{k}->isnull = vp_range(\"a{k}.null\", 0, 1);")
    if f.type == "bits" : e(f"\tint u{k} = vp_range(\"a{k}.unsigned\", 0, 1);")
    v = f"jv_arg(a{k}, {'GS' if g == 'GP' else g})"
    if f.type == "bits": v = f"(a{k}->isnull || !u{k} ? {v} : jbig(0, (uint64_t)a{k}->i))"
    return v

def temit(cfg):
    e = Emit(cfg)
    e('#include "gc.h"\n#define HAVE_TS 1\n#include "ts.c"')
    e("const struct gccol gc_cols[] = {")
    for s in cfg.structs:
        for f in native(s):
            e(f'\t{{ "{s.name}", "{f.name}", {GT[f.type]}, {int(f.null)}, {chr(34) + f.sf.name + chr(34) if f.sf and not f.null else "NULL"}, {chr(34) + f.ref[0] + chr(34) if f.ref else "NULL"} }},')
    e("\t{ NULL } };")
    roles = ["none", "default"] + [r for r, _ in cfg.roles] if cfg.hasroles else []
    e("enum { NROLES = %d };" % max(1, len(roles)))
    if roles:
        e("static const char *const rolen[] = { " + ", ".join(f'"{r}"' for r in roles) + " };")
        e("static int role_ok(int a, int b) { static const unsigned char t[NROLES][NROLES] = {")
        for a in roles:
            e("\t{ " + ", ".join(str(int(a == b or (a != "none" and (b == "none" or a == "default" or b in ancestors(cfg, a) and a not in ("none", "default"))))) for b in roles) + " },")
        e("\t}; return t[a][b]; }")
    e("static void role_late_(jv ctx), ts_noexc(void), gc_start_ts(char, const char *), ts_export(jv, jv, void (*)(jv, jv, int)); static int jv_same(int, jv, jv); static jv ts_call(jv, const char *, int, jv *);")
    for s in cfg.structs: e(f"static int eq_{s.name}(jv o, struct gcq *q, int row, const char *pfx); static void jexp_{s.name}(jv o, jv x, int role);")
    e("#define FD(o, n) jfield(o, n)\nstatic jv jfield(jv o, const char *n) { jv *p = jslot(o, n); if (!p) { vp_log(n); vp_fail(\"field-present\"); } return *p; }")
    for s in cfg.structs:
        n = s.name
        e(f"static int eq_{n}(jv o, struct gcq *q, int row, const char *pfx) {{\n\tint ok = 1; struct gcv *v; char b[128]; (void)b; if (o.t != TO) {{ CK(0, \"object-{n}\"); return 0; }}")
        for f in s.fields:
            if f.type == "struct":
                if not f.null:
                    e(f'\tsnprintf(b, sizeof b, "%s{f.name}.", pfx); {{ int r = eq_{f.target.name}(FD(o, "{f.name}"), q, row, b); ok &= r; }}')
                else:
                    sf = f.srcf; tt = sf.ref
                    e(f'\tv = gc_at(q, row, pfx, "{sf.name}");')
                    e(f'\tif (v->isnull) CK(FD(o, "{f.name}").t == TN, "no-nested-{n}.{f.name}"); else {{ int i, any = 0, hard = gc_hard; CK(FD(o, "{f.name}").t == TO, "nested-{n}.{f.name}"); gc_hard = 0;')
                    e(f'\t\tif (FD(o, "{f.name}").t == TO) for (i = 0; i < gc_nqs; i++) if (gc_qs[i] != gc_main && gc_qs[i]->kind == \'S\' && !strcmp(gc_qs[i]->table, "{tt[0]}") && gc_qs[i]->nconj == 1 && !strcmp(gc_qs[i]->conj[0].text, "{tt[1]} = ?")) {{')
                    g = GT[sf.type]; w = "gc_qs[i]->conj[0].v"
                    c = {"GS": f"{w}.type == GS && {w}.n == v->n && gc_bytes({w}.s, v->s, v->n + 1)", "GR": f"{w}.type == GR && gc_bits({w}.d, v->d)", "GB": f"{w}.type == GB && {w}.n == v->n && gc_bytes({w}.s, v->s, v->n)"}
                    e(f'\t\t\tint m = {c.get("GS" if g == "GP" else g, f"{w}.type == GI && {w}.i == v->i")};')
                    e(f'\t\t\tm &= eq_{f.target.name}(FD(o, "{f.name}"), gc_qs[i], 0, ""); any |= m; }}')
                    e(f'\t\tgc_hard = hard; CK(any, "nested-object-{n}.{f.name}"); }}')
                continue
            e(f'\tv = gc_at(q, row, pfx, "{f.name}"); CK(jv_eq(FD(o, "{f.name}"), v), "field-{n}.{f.name}");')
        e("\treturn ok;\n}")
        e(f"static void jexp_{n}(jv o, jv x, int role) {{\n\tint k = 0; (void)role; vp_assert(x.t == TO, \"exported\");")
        for f in s.fields:
            if f.noexport or f.type == "password": continue
            mask = sum(1 << i for i, r in enumerate(roles) if allowed(cfg, r, f.noexp)) if roles else 0
            e(f"\tif (!((0x{mask:x}ul >> role) & 1)) {{ k++;")
            if f.type == "struct":
                e(f'\t\tif (FD(o, "{f.name}").t == TO) jexp_{f.target.name}(FD(o, "{f.name}"), FD(x, "{f.name}"), role); else vp_assert(FD(x, "{f.name}").t == TN, "null-exported-as-null");')
            else:
                e(f'\t\tif (!jv_same({GT[f.type]}, FD(o, "{f.name}"), FD(x, "{f.name}"))) {{ vp_log("{n}.{f.name}"); vp_fail("field-exported"); }}')
            e("\t}")
        e("\tvp_assert(k == x.u.o->n, \"exports-nothing-else\");\n}")
    ops = []
    for s in cfg.structs:
        for o in s.ops + ([s.insert] if s.insert else []):
            ops.append(o); temit_op(e, cfg, s, o, len(ops) - 1, roles)
    e("enum { NOPS = %d };" % len(ops))
    e("static void (*const ops[])(jv, int) = { " + ", ".join(f"op_{i}" for i in range(len(ops))) + " };")
    e("static const char *const opn[] = { " + ", ".join(f'"{o.s.name} {o.kind} {o.name or ""}"' for o in ops) + " };")
    if roles:
        e("static int op_ok(int r, int o) { static const unsigned long m[NOPS] = { " + ", ".join(str(sum(1 << i for i, r in enumerate(roles) if allowed(cfg, r, o.roles))) for o in ops) + " }; return (int)((m[o] >> r) & 1); }")
        e("static int op_open(int r, int o) { static const unsigned char a[NOPS] = { " + ", ".join(str(int("all" in o.roles and "default" not in o.roles)) for o in ops) + " }; return r == 1 && a[o]; }")
    e("#define HAVE_ROLES %d" % bool(roles))
    e("struct tsval { const char *name; int type; const char *base; int (*want)(struct jin *, int64_t *); };")
    vals = [(s, f) for s in cfg.structs for f in native(s)]
    for s, f in vals:
        conds = []; g = GT[f.type]
        for op, v in f.limits:
            c = OPS[op].replace("=", "==") if op == "eq" else OPS[op]
            if g == "GR": conds.append(f"in->d {c} {v if '.' in v else v + '.0'}")
            elif g in ("GS", "GP", "GB"): conds.append(f"{'in->ebytes' if f.type == 'email' else 'in->bytes'} {c} INT64_C({v})")
            else: conds.append(f"*x {c} {'INT64_MIN' if v == '-9223372036854775808' else f'INT64_C({v})'}")
        if f.type == "enum": conds.append("in->canon && (" + " || ".join(f"*x == {v}" for v in enumvals(cfg.enums[f.arg])) + ")")
        e(f"static int want_{s.name}_{f.name}(struct jin *in, int64_t *x) {{ (void)in; (void)x; return {' && '.join(f'({c})' for c in conds) or '1'}; }}")
    e("static const struct tsval ts_vals[] = {")
    for s, f in vals: e(f'\t{{ "{s.name}-{f.name}", {GT[f.type]}, "{f.type}", want_{s.name}_{f.name} }},')
    e("};\nenum { NVALS = %d };" % len(vals))
    e('#include "tsmain.h"')
    return "\n".join(e.o) + "\n"

def temit_op(e, cfg, s, o, idx, roles):
    n = s.name
    e(f"/* {o.kind} {o.name} */")
    if o.kind in ("search", "list", "iterate", "count"):
        ret = s
        for p in o.distinct or []: ret = field(ret, p).target
        rn = ret.name; pfx = "".join(p + "." for p in (o.distinct or []))
        e(f"static struct gcv *pw{idx}[4]; static const char *pc{idx}[4]; static int pn{idx}[4], r_{idx};")
        e(f"static int ok_{idx}(int r) {{ int k; for (k = 0; k < 4; k++) if (pw{idx}[k] && !gc_pwtest(pw{idx}[k], gc_at(gc_main, r, \"\", pc{idx}[k]), pn{idx}[k])) return 0; return 1; }}")
        # an object of the class: its contents, and what it exports
        e(f"static void chk_{idx}(jv p, int r) {{ jv o; vp_assert(p.t == TO && p.u.o->cls == CL_ortns_{rn}, \"class-of-result\"); o = FD(p, \"obj\"); gc_hard = 1; eq_{rn}(o, gc_main, r, \"{pfx}\"); gc_hard = 0; ts_export(p, o, jexp_{rn}); }}")
        if o.kind == "iterate":
            e(f"static jv cb_{idx}(jv th, int n, jv *a) {{ vp_assert(n == 1, \"arguments-of-callback\"); while (r_{idx} < gc_main->nrows && !ok_{idx}(r_{idx})) r_{idx}++; vp_assert(r_{idx} < gc_main->nrows, \"a-call-for-each-row\"); chk_{idx}(a[0], r_{idx}++); return JUNDEF; }}")
        e(f"static void op_{idx}(jv ctx, int rows) {{\n\tgc_start_ts('S', \"{n}\"); memset(pw{idx}, 0, sizeof pw{idx});")
        args, z = [], 0
        for k, (path, op) in enumerate(o.terms):
            f = resolve(cfg, s, path); txt = ".".join(path) + " " + OPS[op]
            if op in ("isnull", "notnull"): e(f'\tgc_expect("{txt}", NULL);'); continue
            args.append(targ(e, f, k, False))
            if f.type == "password" and op in ("eq", "neq"): e(f'\tpw{idx}[{z}] = a{k}; pc{idx}[{z}] = "{".".join(path)}"; pn{idx}[{z}] = {int(op != "eq")};'); z += 1; continue
            e(f'\tgc_expect("{txt} ?", a{k});')
        order = " , ".join(".".join(p) + (" DESC" if d == "desc" else " ASC") for p, d in o.order)
        if order: e(f'\tgc_want.order = "{order}";')
        if o.limit and o.kind in ("list", "iterate"): e(f'\tgc_want.limit = "{o.limit}";')
        if o.offset: e(f'\tgc_want.offset = "{o.offset}";' + ('' if o.kind in ("list", "iterate") else f'\tgc_want.limit = "{1 if o.kind == "search" else o.limit}";'))
        e(f"\tgc_want.count = {int(o.kind == 'count')}; gc_want.distinct = {int(o.distinct is not None)}; gc_want.group = {int(o.group)}; gc_want.nrows = rows;")
        name = f"db_{n}_{ {'search': 'get'}.get(o.kind, o.kind)}" + (f"_{o.name}" if o.name else "".join(["_by"] + ["_" + "_".join(p) + "_" + op for p, op in o.terms]) if o.terms else "")
        if o.kind == "search": e("\tif (gc_want.nrows > 1) gc_want.nrows = 1;")
        if o.kind == "iterate": args.append(f"jfn(cb_{idx})"); e(f"\tr_{idx} = 0;")
        e("\t{ jv a[] = { " + ", ".join(args + ["JUNDEF"]) + f" }}; int r = 0, c = 0; jv v = ts_call(ctx, \"{name}\", {len(args)}, a); (void)r; (void)c; done_call();")
        if o.kind == "search":
            e(f"\tif (gc_main->nrows > 0 && ok_{idx}(0)) {{ if (v.t == TN) vp_fail(\"finds-iff-there-is-one\"); role_late_(ctx); chk_{idx}(v, 0); }} else vp_assert(v.t == TN, \"finds-iff-there-is-one\"); }}")
        elif o.kind == "list":
            e(f"\tvp_assert(v.t == TA, \"list-given\"); role_late_(ctx); for (c = 0; c < v.u.o->n; c++) {{ while (r < gc_main->nrows && !ok_{idx}(r)) r++; vp_assert(r < gc_main->nrows, \"an-entry-for-each-row\"); chk_{idx}(v.u.o->a[c], r++); }}")
            e(f"\twhile (r < gc_main->nrows && !ok_{idx}(r)) r++; vp_assert(r == gc_main->nrows, \"an-entry-for-each-row\"); }}")
        elif o.kind == "iterate":
            e(f"\twhile (r_{idx} < gc_main->nrows && !ok_{idx}(r_{idx})) r_{idx}++; vp_assert(r_{idx} == gc_main->nrows, \"a-call-for-each-row\"); }}")
        else:
            e("\tvp_assert(v.t == TI && jieq(v, jint(gc_main->cnt)), \"count-returned\"); }")
        e("}")
        return
    kind = {"insert": "I", "update": "U", "delete": "D"}[o.kind]
    e(f"static void op_{idx}(jv ctx, int rows) {{\n\tgc_start_ts('{kind}', \"{n}\"); gc_want.execrc = rows;")
    args = []; k = 0
    if o.kind == "insert":
        for f in native(s):
            if f.rowid: continue
            args.append(targ(e, f, k, f.null)); e(f'\t{{ struct gcv v = *a{k};')
            if f.type == "password": e("\tgc_hash(&v);")
            e(f'\tgc_expect("SET {f.name} = ?", &v); }}'); k += 1
        name = f"db_{n}_insert"
    else:
        for p, op in o.mods:
            f = field(s, p[0]); args.append(targ(e, f, k, f.null)); x = f.name
            e(f'\t{{ struct gcv v = *a{k};')
            if f.type == "password" and op == "set": e("\tgc_hash(&v);")
            rhs = {"set": "?", "strset": "?", "inc": f"{x} + ?", "dec": f"{x} - ?", "concat": f"{x} || ?"}[op]
            if op == "concat" and f.null: rhs = f"{x} (or empty) || ?"
            e(f'\tgc_expect("SET {x} = {rhs}", &v); }}'); k += 1
        for p, op in o.cons:
            f = field(s, p[0])
            if op in ("isnull", "notnull"): e(f'\tgc_expect("{f.name} {OPS[op]}", NULL);'); continue
            args.append(targ(e, f, k, False)); e(f'\tgc_expect("{f.name} {OPS[op]} ?", a{k});'); k += 1
        name = f"db_{n}_{o.kind}"
        if o.name: name += "_" + o.name
        else:
            if o.kind == "update" and not o.all: name += "".join(f"_{p[0]}_{op}" for p, op in o.mods)
            if o.cons: name += "_by" + "".join(f"_{p[0]}_{op}" for p, op in o.cons)
    e("\t{ jv a[] = { " + ", ".join(args + ["JUNDEF"]) + " };")
    if o.kind == "delete": e("\tgc_want.execrc = rows > 2 ? 3 : 0;")
    if o.kind == "insert": e('\tgc_want.lastid = vp_i64("lastid");')
    e(f'\tjv v = jmethod(ctx, "{name}", {len(args)}, a); if (gc_want.execrc == 3) {{ vp_assert(jexc && jexcv.t == TO, "database-error-passed-on"); jexc = 0; vp_reach("database-error"); return; }} ts_noexc(); done_call();')
    if o.kind == "insert": e('\tvp_assert(v.t == TI && jieq(v, gc_want.execrc ? jint(-1) : jint(gc_want.lastid)), "identifier-returned");')
    elif o.kind == "update": e('\tvp_assert(v.t == TB && v.u.b == !gc_want.execrc, "result-of-update");')
    e("\t(void)v; } }")

if __name__ == "__main__":
    sys.stdout.write(temit(parse(open(sys.argv[1]).read())))
