/* Translates TypeScript written by ort-nodejs into C over gen/jsrt.h, for symbolic execution; also type-checks it. */
const ts = require('/opt/veriftools/node/node_modules/typescript'), fs = require('fs');
const [,, file, stubs, root, lib] = process.argv;	/* root: only these methods (Class.method,..) and what they need */
const K = ts.SyntaxKind, die = (n, m) => { const p = sf.getLineAndCharacterOfPosition(n.getStart()); process.stderr.write(`unsupported: ${m || K[n.kind]} at line ${p.line + 1}: ${n.getText().slice(0, 80)}\n`); process.exit(3); };
const opt = { noEmit: true, strict: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, esModuleInterop: true, useUnknownInCatchVariables: false, types: [], skipLibCheck: true, lib: ['lib.es2022.d.ts'].concat(lib ? [lib] : []) };
const prog = ts.createProgram([file, stubs], opt), sf = prog.getSourceFile(file);
const diags = ts.getPreEmitDiagnostics(prog).filter(d => d.file === sf || !d.file || d.file.fileName === stubs);
if (diags.length) { for (const d of diags.slice(0, 8)) { const p = d.file ? d.file.getLineAndCharacterOfPosition(d.start) : { line: 0 }; process.stderr.write(`error TS${d.code} line ${p.line + 1}: ${ts.flattenDiagnosticMessageText(d.messageText, ' ')}\n`); } process.exit(4); }
const out = [], protos = [], inits = [], globals = new Map(), ns = new Set(), imports = new Set(), classes = [], methods = new Map();
const cstr = s => '"' + [...Buffer.from(s, 'utf8')].map(b => b === 34 || b === 92 ? '\\' + String.fromCharCode(b) : b >= 32 && b < 127 && b !== 63 ? String.fromCharCode(b) : '\\' + b.toString(8).padStart(3, '0')).join('') + '"';
const cn = s => s.replace(/#/g, '_P_').replace(/[^A-Za-z0-9_]/g, '_');
const pname = n => n.kind === K.PrivateIdentifier ? n.text : ts.isStringLiteral(n) || ts.isIdentifier(n) ? n.text : die(n);
/* declarations */
const decls = [];
function declare(stmts, pre) {
	for (const s of stmts) {
		if (ts.isImportDeclaration(s)) imports.add(s.importClause.name.text);
		else if (ts.isModuleDeclaration(s)) { ns.add(pre + s.name.text); declare(s.body.statements, pre + s.name.text + '.'); }
		else if (ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s)) ;
		else if (ts.isFunctionDeclaration(s)) { globals.set(pre + s.name.text, { k: 'fn', c: 'F_' + cn(pre + s.name.text) }); decls.push([s, pre]); }
		else if (ts.isClassDeclaration(s)) { globals.set(pre + s.name.text, { k: 'class', c: 'N_' + cn(pre + s.name.text), id: classes.length }); classes.push([s, pre]); decls.push([s, pre]); }
		else if (ts.isEnumDeclaration(s)) { globals.set(pre + s.name.text, { k: 'var', c: 'G_' + cn(pre + s.name.text) }); decls.push([s, pre]); }
		else if (ts.isVariableStatement(s)) { for (const d of s.declarationList.declarations) globals.set(pre + d.name.text, { k: 'var', c: 'G_' + cn(pre + d.name.text) }); decls.push([s, pre]); }
		else if (s.kind === K.EmptyStatement) ;
		else die(s);
	}
}
/* function bodies */
let F;
const tmp = e => { const t = 't' + F.n++; F.o.push(`jv ${t} = ${e};`); return t; };
const call = e => { const t = tmp(e); F.o.push(`if (jexc) goto ${F.h};`); F.used.add(F.h); return t; };
const lookup = (name, pre) => { for (let p = pre; ; p = p.replace(/[^.]*\.$/, '')) { if (globals.has(p + name)) return [p + name, globals.get(p + name)]; if (ns.has(p + name)) return [p + name, { k: 'ns' }]; if (!p) return null; } };
/* a dotted name of a namespace member, if it is one */
function path(e) {
	if (ts.isIdentifier(e)) { if (F.find(e.text)) return null; return lookup(e.text, F.pre); }
	if (ts.isPropertyAccessExpression(e)) { const b = path(e.expression); if (b && b[1].k === 'ns') { const n = b[0] + '.' + e.name.text; if (globals.has(n)) return [n, globals.get(n)]; if (ns.has(n)) return [n, { k: 'ns' }]; die(e, 'unknown member'); } }
	return null;
}
function args(l) { const a = l.map(expr); if (!a.length) return '0, NULL'; return `${a.length}, (jv[]){ ${a.join(', ')} }`; }
const strip = e => { while (ts.isParenthesizedExpression(e) || ts.isTypeAssertionExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e)) e = e.expression; return e; };
function expr(e) {
	e = strip(e);
	switch (e.kind) {
	case K.NullKeyword: return 'JNULL';
	case K.TrueKeyword: return 'jbool(1)';
	case K.FalseKeyword: return 'jbool(0)';
	case K.ThisKeyword: return 'th';
	case K.RegularExpressionLiteral: return tmp(`jregex(${cstr(e.text)})`);
	case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return tmp(`jstr(${cstr(e.text)})`);
	case K.NumericLiteral: return tmp(`jnum(${+e.text})`);
	case K.BigIntLiteral: return tmp(`jparse_big(jstr(${cstr(e.text.replace(/n$/, ''))}))`);
	case K.Identifier: {
		if (e.text === 'undefined') return 'JUNDEF';
		const v = F.find(e.text); if (v) return tmp(v);
		const g = path(e); if (!g || g[1].k !== 'var') die(e, 'unknown name'); return tmp(g[1].c); }
	case K.PropertyAccessExpression: {
		if (e.questionDotToken) { const b = tmp(expr(e.expression)), t = tmp('JUNDEF'); F.o.push(`if (${b}.t != TU && ${b}.t != TN) {`); F.o.push(`${t} = jget(${b}, ${cstr(pname(e.name))});`); F.o.push('}'); return t; }
		const g = path(e); if (g) { if (g[1].k !== 'var') die(e, 'name of a namespace'); return tmp(g[1].c); }
		return call(`jget(${expr(e.expression)}, ${cstr(pname(e.name))})`); }
	case K.ElementAccessExpression: { const o = expr(e.expression); return call(`jindex(${o}, ${expr(e.argumentExpression)})`); }
	case K.ObjectLiteralExpression: { const t = tmp('jobj(-1)'); for (const p of e.properties) { if (!ts.isPropertyAssignment(p)) die(p); F.o.push(`jset(${t}, ${cstr(pname(p.name))}, ${expr(p.initializer)});`); } return t; }
	case K.ArrayLiteralExpression: { const t = tmp('jarr()'); for (const p of e.elements) F.o.push(`jpush(${t}, ${expr(p)});`); return t; }
	case K.TemplateExpression: { let t = tmp(`jstr(${cstr(e.head.text)})`); for (const p of e.templateSpans) { t = call(`jadd(${t}, jtostr(${expr(p.expression)}))`); t = call(`jadd(${t}, jstr(${cstr(p.literal.text)}))`); } return t; }
	case K.TypeOfExpression: return tmp(`jtypeof(${expr(e.expression)})`);
	case K.PrefixUnaryExpression: { const x = expr(e.operand); if (e.operator === K.ExclamationToken) return tmp(`jbool(!jtrue(${x}))`); if (e.operator === K.MinusToken) return tmp(`jneg(${x})`); return die(e); }
	case K.PostfixUnaryExpression: { if (e.operator !== K.PlusPlusToken) die(e); const x = expr(e.operand); assign(e.operand, tmp(`jadd(${x}, jnum(1))`)); return x; }
	case K.ConditionalExpression: { const t = tmp('JUNDEF'), c = expr(e.condition); F.o.push(`if (jtrue(${c})) {`); F.o.push(`${t} = ${expr(e.whenTrue)};`); F.o.push('} else {'); F.o.push(`${t} = ${expr(e.whenFalse)};`); F.o.push('}'); return t; }
	case K.BinaryExpression: {
		const o = e.operatorToken.kind;
		if (o === K.EqualsToken) { const v = expr(e.right); assign(e.left, v); return v; }
		if (o === K.PlusEqualsToken) { const x = expr(e.left), v = tmp(`jadd(${x}, ${expr(e.right)})`); assign(e.left, v); return v; }
		if (o === K.QuestionQuestionToken) { const t = tmp(expr(e.left)); F.o.push(`if (${t}.t == TU || ${t}.t == TN) {`); F.o.push(`${t} = ${expr(e.right)};`); F.o.push('}'); return t; }
		if (o === K.CommaToken) { expr(e.left); return expr(e.right); }
		if (o === K.AmpersandAmpersandToken || o === K.BarBarToken) { const t = tmp(expr(e.left)); F.o.push(`if (${o === K.BarBarToken ? '!' : ''}jtrue(${t})) {`); F.o.push(`${t} = ${expr(e.right)};`); F.o.push('}'); return t; }
		const a = expr(e.left), b = expr(e.right), m = { [K.PlusToken]: 'jadd', [K.MinusToken]: 'jsub', [K.SlashToken]: 'jdiv', [K.AsteriskToken]: 'jmul' }[o];
		if (m) return call(`${m}(${a}, ${b})`);
		const c = { [K.EqualsEqualsEqualsToken]: ['', 'jseq'], [K.EqualsEqualsToken]: ['', 'jleq'], [K.ExclamationEqualsToken]: ['!', 'jleq'], [K.InKeyword]: ['', 'jin_'],  [K.ExclamationEqualsEqualsToken]: ['!', 'jseq'], [K.LessThanToken]: ['', 'jlt'], [K.GreaterThanToken]: ['r', 'jlt'], [K.LessThanEqualsToken]: ['', 'jle'], [K.GreaterThanEqualsToken]: ['r', 'jle'] }[o];
		if (!c) die(e, 'operator');
		return tmp(c[0] === 'r' ? `jbool(${c[1]}(${b}, ${a}))` : `jbool(${c[0]}${c[1]}(${a}, ${b}))`); }
	case K.NewExpression: {
		const g = path(e.expression); if (g && g[1].k === 'class') return call(`${g[1].c}(${args(e.arguments)})`);
		if (ts.isIdentifier(e.expression) && e.expression.text === 'Date') return call(`B_new_Date(${args(e.arguments)})`);
		if (ts.isIdentifier(e.expression) && imports.has(e.expression.text)) return call(`B_new_${e.expression.text}(${args(e.arguments)})`);
		return die(e); }
	case K.ArrowFunction: { const f = func(e, 'A_' + arrows++, F.pre, null); return tmp(`jfn(${f})`); }
	case K.CallExpression: {
		const f = strip(e.expression);
		const g = ts.isIdentifier(f) || ts.isPropertyAccessExpression(f) ? path(f) : null;
		if (g && g[1].k === 'fn') return call(`${g[1].c}(JUNDEF, ${args(e.arguments)})`);
		if (ts.isIdentifier(f)) { const v = F.find(f.text); if (v) return call(`jcall(${v}, ${args(e.arguments)})`); if (!g) return call(`B_${f.text}(${args(e.arguments)})`); die(e); }
		if (ts.isPropertyAccessExpression(f) && ['forEach', 'map', 'filter', 'some', 'every'].includes(f.name.text) && e.arguments.length === 1 && ts.isArrowFunction(strip(e.arguments[0]))) return inline(f, strip(e.arguments[0]));
		if (ts.isPropertyAccessExpression(f)) {
			const b = strip(f.expression);
			if (ts.isIdentifier(b) && !F.find(b.text) && !lookup(b.text, F.pre)) return call(`B_${b.text}_${f.name.text}(${args(e.arguments)})`);
			const o = expr(b); return call(`jmethod(${o}, ${cstr(f.name.text)}, ${args(e.arguments)})`);
		}
		return die(e); }
	default: return die(e);
	}
}
/* a callback over an array, in place */
function inline(f, fn) {
	const m = f.name.text, k = labels++, it = call(`jiter(${expr(f.expression)})`), i = 'i' + F.n++, r = 'r' + F.n++, b = 'r' + F.n++; F.ints.push(i); F.locals.push(r, b);
	F.o.push(`${r} = ${m === 'map' || m === 'filter' ? 'jarr()' : m === 'forEach' ? 'JUNDEF' : `jbool(${m === 'every' ? 1 : 0})`};`); F.scopes.push(new Map());
	const ps = fn.parameters.map(p => local(p.name.text));
	F.o.push(`${i} = 0; T${k}: ; if (${i} >= jlen(${it})) goto B${k}; ${b} = JUNDEF;${ps[0] ? ` ${ps[0]} = jat(${it}, ${i});` : ''}${ps[1] ? ` ${ps[1]} = jnum(${i});` : ''}${ps[2] ? ` ${ps[2]} = ${it};` : ''}`);
	const old = F.ret, ob = F.brk, oc = F.cont; F.ret = [b, 'N' + k]; F.brk = []; F.cont = [];
	if (fn.body.kind === K.Block) block(fn.body.statements); else F.o.push(`${b} = ${expr(fn.body)};`);
	F.ret = old; F.brk = ob; F.cont = oc; F.scopes.pop();
	F.o.push(`N${k}: ; ${m === 'map' ? `jpush(${r}, ${b});` : m === 'filter' ? `if (jtrue(${b})) jpush(${r}, jat(${it}, ${i}));` : m === 'some' ? `if (jtrue(${b})) { ${r} = jbool(1); goto B${k}; }` : m === 'every' ? `if (!jtrue(${b})) { ${r} = jbool(0); goto B${k}; }` : ''} ${i}++; goto T${k}; B${k}: ;`);
	return tmp(r);
}
function assign(l, v) {
	l = strip(l);
	if (ts.isIdentifier(l)) { const x = F.find(l.text); if (!x) die(l, 'assignment'); F.o.push(`${x} = ${v};`); }
	else if (ts.isPropertyAccessExpression(l)) { const o = expr(l.expression); F.o.push(`jset(${o}, ${cstr(pname(l.name))}, ${v});`); F.o.push(`if (jexc) goto ${F.h};`); F.used.add(F.h); }
	else if (ts.isElementAccessExpression(l)) { const o = expr(l.expression), k = strip(l.argumentExpression); if (!ts.isStringLiteral(k)) die(l); F.o.push(`jset(${o}, ${cstr(k.text)}, ${v});`); F.o.push(`if (jexc) goto ${F.h};`); F.used.add(F.h); }
	else die(l);
}
function block(l) { F.scopes.push(new Map()); l.forEach(stmt); F.scopes.pop(); }
function local(name) { const c = 'v_' + cn(name) + '_' + F.n++; F.locals.push(c); F.scopes[F.scopes.length - 1].set(name, c); return c; }
let labels = 0, arrows = 0;
function vars(l) { for (const d of l.declarations) { const init = d.initializer ? expr(d.initializer) : 'JUNDEF', c = local(d.name.text); F.o.push(`${c} = ${init};`); } }
function stmt(s) {
	const o = F.o;
	switch (s.kind) {
	case K.EmptyStatement: return;
	case K.Block: return block(s.statements);
	case K.VariableStatement: return vars(s.declarationList);
	case K.ExpressionStatement: expr(s.expression); return;
	case K.ReturnStatement: if (F.ret) { o.push(`${F.ret[0]} = ${s.expression ? expr(s.expression) : 'JUNDEF'}; goto ${F.ret[1]};`); return; } o.push(`ret = ${s.expression ? expr(s.expression) : 'JUNDEF'}; goto Lret;`); F.used.add('Lret'); return;
	case K.ThrowStatement: o.push(`jthrow(${expr(s.expression)}); goto ${F.h};`); F.used.add(F.h); return;
	case K.IfStatement: { const c = expr(s.expression); o.push(`if (jtrue(${c})) {`); block([s.thenStatement]); o.push('}'); if (s.elseStatement) { o.push('else {'); block([s.elseStatement]); o.push('}'); } return; }
	case K.SwitchStatement: {
		const k = labels++, v = expr(s.expression); let def = -1;
		s.caseBlock.clauses.forEach((c, i) => { if (ts.isDefaultClause(c)) def = i; else o.push(`if (jseq(${v}, ${expr(c.expression)})) goto C${k}_${i};`); });
		o.push(`goto ${def >= 0 ? `C${k}_${def}` : `B${k}`};`); F.brk.push('B' + k); F.scopes.push(new Map());
		s.caseBlock.clauses.forEach((c, i) => { o.push(`C${k}_${i}: ;`); c.statements.forEach(stmt); });
		F.scopes.pop(); F.brk.pop(); o.push(`B${k}: ;`); return; }
	case K.BreakStatement: o.push(`goto ${F.brk[F.brk.length - 1]};`); return;
	case K.ContinueStatement: o.push(`goto ${F.cont[F.cont.length - 1]};`); return;
	case K.TryStatement: {
		const k = labels++, h = F.h; if (s.finallyBlock) die(s); F.h = 'H' + k; block(s.tryBlock.statements); F.h = h; o.push(`goto E${k};`);
		o.push(`H${k}: ;`); F.scopes.push(new Map()); if (s.catchClause.variableDeclaration) o.push(`${local(s.catchClause.variableDeclaration.name.text)} = jexcv;`); o.push('jexc = 0;'); block(s.catchClause.block.statements); F.scopes.pop(); o.push(`E${k}: ;`); return; }
	case K.ForStatement: {
		const k = labels++; F.scopes.push(new Map());
		if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) vars(s.initializer); else expr(s.initializer); }
		o.push(`T${k}: ;`); if (s.condition) { const c = expr(s.condition); o.push(`if (!jtrue(${c})) goto B${k};`); }
		F.brk.push('B' + k); F.cont.push('N' + k); block([s.statement]); F.brk.pop(); F.cont.pop();
		o.push(`N${k}: ;`); if (s.incrementor) expr(s.incrementor); o.push(`goto T${k}; B${k}: ;`); F.scopes.pop(); return; }
	case K.WhileStatement: case K.DoStatement: {
		const k = labels++; o.push(`T${k}: ;`); if (s.kind === K.WhileStatement) o.push(`if (!jtrue(${expr(s.expression)})) goto B${k};`);
		F.brk.push('B' + k); F.cont.push('N' + k); block([s.statement]); F.brk.pop(); F.cont.pop();
		o.push(`N${k}: ;`); if (s.kind === K.DoStatement) o.push(`if (!jtrue(${expr(s.expression)})) goto B${k};`); o.push(`goto T${k}; B${k}: ;`); return; }
	case K.ForInStatement:
	case K.ForOfStatement: {
		const k = labels++, it = s.kind === K.ForInStatement ? tmp(`B_Object_keys(1, (jv[]){ ${expr(s.expression)} })`) : call(`jiter(${expr(s.expression)})`), i = 'i' + F.n++; F.ints.push(i); F.scopes.push(new Map());
		const v = local(s.initializer.declarations[0].name.text);
		o.push(`${i} = 0; T${k}: ; if (${i} >= jlen(${it})) goto B${k}; ${v} = jat(${it}, ${i}++);`);
		F.brk.push('B' + k); F.cont.push('T' + k); block([s.statement]); F.brk.pop(); F.cont.pop();
		o.push(`goto T${k}; B${k}: ;`); F.scopes.pop(); return; }
	default: die(s);
	}
}
function func(f, c, pre, extra) {
	const old = F;
	F = { n: 0, o: [], pre, scopes: [new Map()], locals: [], ints: [], brk: [], cont: [], h: 'Lret', used: new Set(['Lret']), find(x) { for (let i = this.scopes.length - 1; i >= 0; i--) if (this.scopes[i].has(x)) return this.scopes[i].get(x); return null; } };
	f.parameters.forEach((p, i) => { const v = local(p.name.text); F.o.push(`${v} = n > ${i} ? a[${i}] : JUNDEF;`); });
	if (extra) extra();
	if (f.body.kind === K.Block) block(f.body.statements); else F.o.push(`ret = ${expr(f.body)};`);
	protos.push(`static jv ${c}(jv th, int n, jv *a);`);
	const body = F.o.map(x => '\t' + x).join('\n');
	out.push(`static jv ${c}(jv th, int n, jv *a) {\n\tjv ret = JUNDEF;${F.locals.map(x => ` jv ${x} = JUNDEF;`).join('')}${F.ints.map(x => ` int ${x} = 0;`).join('')} (void)th; (void)n; (void)a;\n${body}\n\tLret: ;\n\treturn ret;\n}`);
	F = old; return c;
}
/* methods reachable from the roots, by name */
let reach = null;
if (root) {
	const all = new Map(), todo = root.split(',').map(x => x.split('.').pop()); reach = new Set(todo);
	(function walk(n) { if (ts.isMethodDeclaration(n)) all.set(pname(n.name), (all.get(pname(n.name)) || []).concat([n])); else ts.forEachChild(n, walk); })(sf);
	while (todo.length) for (const m of all.get(todo.pop()) || []) (function walk(n) { if (ts.isPropertyAccessExpression(n) && all.has(n.name.text) && !reach.has(n.name.text)) { reach.add(n.name.text); todo.push(n.name.text); } ts.forEachChild(n, walk); })(m);
}
function klass(s, pre) {
	const g = globals.get(pre + s.name.text); let ctor = null; const props = [];
	for (const m of s.members) {
		if (ts.isPropertyDeclaration(m)) props.push(m);
		else if (ts.isConstructorDeclaration(m)) ctor = m;
		else if (ts.isMethodDeclaration(m) && reach && !reach.has(pname(m.name))) ;
		else if (ts.isMethodDeclaration(m)) { const n = pname(m.name), c = func(m, `M_${g.id}_${cn(n)}`, pre, null); if (!methods.has(n)) methods.set(n, []); methods.get(n).push([g.id, c]); }
		else if (m.kind === K.SemicolonClassElement) ;
		else die(m);
	}
	const init = () => { for (const p of props) if (p.initializer) F.o.push(`jset(th, ${cstr(pname(p.name))}, ${expr(p.initializer)});`); };
	func(ctor || { parameters: [], body: { kind: K.Block, statements: [] } }, `I_${g.id}`, pre, init);
	protos.push(`static jv ${g.c}(int n, jv *a);`);
	out.push(`static jv ${g.c}(int n, jv *a) { jv o = jobj(${g.id}); I_${g.id}(o, n, a); return o; }`);
}
declare(sf.statements, '');
const ini = [];
for (const [s, pre] of decls) {
	if (ts.isFunctionDeclaration(s)) func(s, globals.get(pre + s.name.text).c, pre, null);
	else if (ts.isClassDeclaration(s)) klass(s, pre);
	else if (ts.isEnumDeclaration(s)) {
		const c = globals.get(pre + s.name.text).c; protos.push(`static jv ${c};`); let next = 0; let b = `${c} = jobj(-1);`;
		for (const m of s.members) { let v; if (!m.initializer) v = `jnum(${next++})`; else if (ts.isStringLiteral(m.initializer)) v = `jstr(${cstr(m.initializer.text)})`; else if (ts.isNumericLiteral(m.initializer)) { v = `jnum(${+m.initializer.text})`; next = +m.initializer.text + 1; } else die(m); b += ` jset(${c}, ${cstr(pname(m.name))}, ${v});`; }
		ini.push(b);
	} else for (const d of s.declarationList.declarations) { const c = globals.get(pre + d.name.text).c; protos.push(`static jv ${c};`); const f = func({ parameters: [], body: d.initializer }, 'X_' + c, pre, null); ini.push(`${c} = ${f}(JUNDEF, 0, NULL);`); }
}
console.log('#include "jsrt.h"\n' + protos.join('\n') + '\n' + `static jv jmethod_class(jv o, int id, const char *m, int n, jv *a, int *found) {\n\t*found = 1;\n${[...methods].map(([m, l]) => `\tif (!strcmp(m, ${cstr(m)})) { ${l.map(([id, c]) => `if (id == ${id}) return ${c}(o, n, a);`).join(' ')} }`).join('\n')}\n\t*found = 0; return JUNDEF;\n}\n` + out.join('\n') + `\nstatic void ts_init(void) {\n\t${ini.join('\n\t')}\n}`);
for (const [n, g] of globals) if (g.k !== 'fn') console.log(`/* ${n} ${g.k} */`);
console.log('enum { ' + classes.map(([s, pre], i) => `CL_${cn(pre + s.name.text)} = ${i}`).join(', ') + ' };');
