#ifndef SLOTS_H
#define SLOTS_H
/* a configuration with a place for a variation of each kind; the first of each is the usual one */
static const char *const s_enum[] = { "enum en { item a 1; item b 2; };", "enum en { item a 1; item b 3; };", "enum en { item a 1; };", "enum en { item b 2; item a 1; };", "enum en { item a 1; item c 2; item b 4; };", "enum en { item a 1 comment \"x\"; item b 2; };", "enum en { item a 1 comment \"y\"; item b 2; };", "enum en { item a 1 jslabel \"x\"; item b 2; };", "enum en { item a 1 jslabel.fr \"x\"; item b 2; };", "enum en { item a 1 jslabel.fr \"x\" jslabel \"y\"; item b 2; };", "enum en { item a 1 jslabel \"y\" jslabel.fr \"x\"; item b 2; };", "enum en { item a 1; item b 2; isnull jslabel \"n\"; };", "enum en { item a 1; item b 2; isnull jslabel \"m\"; };", "enum en { item a 1; item b 2; comment \"c\"; };", "enum en { item a; item b; comment \"d\"; };", "enum EN { item A 1; item B 2; };", NULL };
static const char *const s_bits[] = { "bits bi { item a 1; item b 2; };", "bits bi { item a 1; item b 3; };", "bits bi { item a 1; };", "bits bi { item b 2; item a 1; };", "bits bi { item a 1; item b 2; item c 0; };", "bits bi { item a 1 comment \"x\"; item b 2; };", "bits bi { item a 1 jslabel \"x\"; item b 2; };", "bits bi { item a 1 jslabel.fr \"x\"; item b 2; };", "bits bi { item a 1; item b 2; isnull jslabel \"n\"; };", "bits bi { item a 1; item b 2; isunset jslabel \"n\"; };", "bits bi { item a 1; item b 2; isunset jslabel \"n\"; isnull jslabel \"n\"; };", "bits bi { item a 1; item b 2; comment \"c\"; };", NULL };
static const char *const s_extra[] = { "", "enum xe { item a; };", "bits xb { item a 0; };", "struct xs { field id int rowid; };", "enum xe { item b; };", "struct xt { field id int rowid; };", "enum xe { item a; }; bits xb { item a 0; };",
	"enum xe { item a 1; item b 2; }; struct xq { field id int rowid; field d enum xe default a; };", "enum xe { item a 2; item b 1; }; struct xq { field id int rowid; field d enum xe default b; };",
	"struct xu { field id int rowid; field r real; field t text; update r: id: name n; update t: id: name m; delete r gt: name d; };", "struct xu { field id int rowid; field r real; field t text; update r inc: id: name n; update t concat: id: name m; delete r ge: name d; };", NULL };
static const char *const s_scom[] = { "", "comment \"x\";", "comment \"y\";", "comment \"X\";", "comment \"x \";", NULL };
static const char *const s_field[] = { "field f int;", "", "field F int;", "field f;", "field f int null;", "field f int unique;", "field f int noexport;", "field f int comment \"x\";", "field f int comment \"y\";", "field f int limit ge 3;", "field f int limit ge 4;", "field f int limit gt 3;", "field f int limit ge 3 limit le 9;", "field f int limit le 9 limit ge 3;", "field f int limit ge 3 limit ge 3;", "field f int limit ge 3 limit ge 4;", "field f int default 3;", "field f int default 4;", "field f:p.id int;", "field f:p.alt int;", "field f:w.id int;", "field f:p.id int actdel cascade;", "field f:p.id int actup cascade;", "field f:p.id int actdel nullify null;", "field f text;", "field f text limit le 9;", "field f text limit le 8;", "field f text default \"a\";", "field f text default \"A\";", "field f email default \"a\";", "field f real limit ge 1.5;", "field f real limit ge 1.25;", "field f real default 0.5;", "field f real default 1.5;", "field f real default 1.0000000000000002;", "field f real default 1.0;", "field f real limit ge 1.5000000000000002;", "field f int default 9007199254740992;", "field f int default 9007199254740993;", "field f int limit le 9007199254740992;", "field f int limit le 9007199254740993;", "field f bit default 1;", "field f bit;", "field f epoch default 1;", "field f date;", "field f blob;", "field f blob limit lt 5;", "field f password;", "field f enum ena;", "field f enum enb;", "field f enum ena default a;", "field f enum ena default b;", "field f enum enb default a;", "field f bits bia;", "field f bits bib;", "field f struct r1;", "field f struct r2;", "field f struct rw;", "field f bits bia default 1;", NULL };
static const char *const s_order[] = { "field g1 int; field g2 int;", "field g2 int; field g1 int;", "field g1 int;", "field g2 int;", "field g1 int; field g2 int; field g3 text;", "field g1 int; field g3 int;", NULL };
static const char *const s_search[] = { "", "list a: name n;", "list a: name N;", "list b: name n;", "list a, b: name n;", "list b, a: name n;", "list a neq: name n;", "list a: name n comment \"x\";", "list a: name n limit 3;", "list a: name n limit 4;", "list a: name n limit 3, 2;", "list a: name n order a;", "list a: name n order a desc;", "list a: name n order b, a;", "list a: name n order a, b;", "list a: name n grouprow a maxrow b;", "list a: name n grouprow a minrow b;", "list a: name n grouprow a maxrow c;", "list a: name n grouprow c maxrow b;", "list a: name n distinct .;", "list a: name n distinct sp;", "list sp.alt: name n;", "iterate a: name n;", "iterate a: name m;", "list a;", "list b;", "list a: comment \"x\";", "list a: limit 3;", "iterate a;", "count a;", "count a: name n;", "list a; list b;", "list b; list a;", "search rid: name n;", "list a: name n; list b: name m;", NULL };
static const char *const s_update[] = { "", "update a: b: name n;", "update a: b: name N;", "update b: b: name n;", "update a: a: name n;", "update a, b: b: name n;", "update b, a: b: name n;", "update a inc: b: name n;", "update a set: b: name n;", "update a strset: b: name n;", "update a: b neq: name n;", "update a: b, a: name n;", "update: b: name n;", "update a: b: name n comment \"x\";", "update a: b;", "update b: b;", "update a: b: comment \"x\";", "update a: b: name m;", "update b: a; update a: b;", "delete a: name n;", "delete b: name n;", "delete a neq: name n;", "delete a, b: name n;", "delete a: name n comment \"x\";", "delete a;", "delete b;", "delete a: name m;", "update a: : name n;", NULL };
static const char *const s_unique[] = { "", "unique a, b;", "unique b, a;", "unique a, c;", "unique a, b, c;", "unique a, b; unique a, c;", "unique a, c; unique b, a;", "insert;", "insert; unique a, b;", NULL };
static const char *const s_roles[] = { "roles { role r1; role r2; };", "", "roles { role r1 { role r2; }; };", "roles { role r2; role r1; };", "roles { role r1 comment \"x\"; role r2; };", "roles { role r1; role r2; role r3; };", "roles { role r1 { role r3; }; role r2; };", "roles { role r1; role r2 { role r3; }; };", "roles { role r2 { role r1; }; };", "roles { };", "roles { role R1; role R2 comment \"y\"; };", NULL };
static const char *const s_assign[] = { "", "roles r1 { all; };", "roles r2 { all; };", "roles r1, r2 { all; };", "roles r2, r1 { all; };", "roles r1 { search k; };", "roles r2 { search k; };", "roles r1 { insert; };", "roles r1 { update k; };", "roles r1 { delete k; };", "roles r1 { noexport; };", "roles r1 { noexport a; };", "roles r2 { noexport a; };", "roles r1 { noexport b; };", "roles default { all; };", "roles all { all; };", "roles R1 { ALL; };", NULL };
static const char *const *const slots[] = { s_enum, s_bits, s_extra, s_scom, s_field, s_order, s_search, s_update, s_unique, s_roles, s_assign };
static int altn(int s) { int n = 0; while (slots[s][n]) n++; return n; }
static void render(struct tx *t, const int *p) {
	tx_init(t); tx_s(t, slots[9][p[9]]); tx_s(t, slots[0][p[0]]); tx_s(t, slots[1][p[1]]); tx_s(t, slots[2][p[2]]);
	tx_s(t, "enum ena { item a; item b; }; enum enb { item a; }; bits bia { item x 0; }; bits bib { item y 0; }; struct w { field id int rowid; }; struct p { field id int rowid; field alt int unique; }; struct q { field rid int rowid; field a int; field b int; field c int; field r1:p.id int; field r2:p.id int; field rw:w.id int; field sp struct r1; search rid: name k; update a: b: name k; delete a: name k; ");
	tx_s(t, slots[3][p[3]]); tx_s(t, slots[4][p[4]]); tx_s(t, slots[5][p[5]]); tx_s(t, slots[6][p[6]]); tx_s(t, slots[7][p[7]]); tx_s(t, slots[8][p[8]]);
	if (p[10] == 7 && p[8] < 7) tx_s(t, "insert;");
	tx_s(t, slots[10][p[10]]); tx_s(t, "};");
}
#endif
