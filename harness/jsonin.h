/* Configurations for the checks of the JSON form. */
static struct config *json_input(void) {
	char *mode = vp_sparam("mode"); struct tx t; int i;
	tx_init(&t);
	if (!strcmp(mode, "ctx")) tx_ctx(&t, (int)vp_param("ctx", 0), (int)vp_param("n", 3), (int)vp_param("first", -1));
	else if (!strcmp(mode, "file")) { size_t n; char *f = vp_slurp(vp_sparam("file"), &n); tx_mem(&t, f, n); }
	else if (!strcmp(mode, "slots")) { int a[NEL(slots)] = { 0 }, s1 = (int)vp_param("slot", 0), s2 = (int)vp_param("other", -1); a[s1] = pickc("a", 0, altn(s1) - 1); if (s2 >= 0) a[s2] = pickc("b", 0, altn(s2) - 1); if (s1 == 6 || s1 == 4) a[10] = s2 == 10 ? a[10] : 1; if (a[10] && (a[9] == 1 || a[9] == 9)) return 0; render(&t, a); }
	else if (!strcmp(mode, "text")) {	/* any text wherever there is text */
		static const char *const body[] = { "~c~c~c", "a\\\"~c~c", "~c\\\\~cb", "\\~cu00~c" }; int w = (int)vp_param("where", 0), k = (int)vp_param("k", 0); struct tx b; tx_init(&b); tx_s(&b, "\""); tx_tpl(&b, body[k]); tx_s(&b, "\"");
#define TX(N_, kw) do { if (w == (N_)) { tx_s(&t, " " kw " "); tx_mem(&t, b.b, b.n); } } while (0)
#define TXS(N_, kw) do { if (w == (N_)) { tx_s(&t, " " kw " "); tx_mem(&t, b.b, b.n); tx_s(&t, ";"); } } while (0)
		tx_s(&t, "roles { role r1"); TX(0, "comment"); tx_s(&t, "; }; enum e { item a 1"); TX(1, "comment"); TX(2, "jslabel"); TX(3, "jslabel.fr"); tx_s(&t, ";"); TXS(4, "comment"); TXS(5, "isnull jslabel"); tx_s(&t, "}; bits b { item a 1"); TX(6, "comment"); TX(7, "jslabel.de"); tx_s(&t, ";"); TXS(8, "comment"); TXS(9, "isnull jslabel"); TXS(10, "isunset jslabel"); tx_s(&t, "}; struct q {"); TXS(11, "comment"); tx_s(&t, " field a text"); TX(12, "comment"); TX(13, "default"); tx_s(&t, "; search a: name x"); TX(14, "comment"); tx_s(&t, "; update a: a: name y"); TX(15, "comment"); tx_s(&t, "; delete a"); if (w == 16) { tx_s(&t, ":"); TX(16, "comment"); } tx_s(&t, "; };");
	} else if (!strcmp(mode, "numbers")) {
		static const char *const f[] = { "int default ~-~9~9~9", "int limit ge ~-~9~9 limit lt 9223372036854775807", "real default ~-~9.~9~9", "real limit gt ~9.~9 limit lt ~-10.0", "bit default ~9", "text limit le ~9~9~9", "epoch default ~9~9~9 limit eq -9223372036854775807", "date default 20~9~9-0~9-1~9", "real default 0.1 limit le 1000000000000000000000.0" };
		static const char *const g[] = { "enum x { item a ~-~9~9; item b; item c ~9; }; ", "bits y { item a ~9~9; item b 63; }; ", "struct z { field a int; list a: name n limit ~9~9; list: limit ~9, ~9~9; }; " };
		int k = (int)vp_param("k", 0);
		if (k < (int)NEL(f)) { tx_s(&t, "struct q { field a "); tx_tpl(&t, f[k]); tx_s(&t, "; };"); } else { tx_tpl(&t, g[k - NEL(f)]); tx_s(&t, "struct q { field a int; };"); }
	}
	(void)i; return parse_tx(&t);
}
