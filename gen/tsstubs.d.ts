declare module 'bcrypt' { const b: { hashSync(s: string | null, n: number): string; compareSync(s: string, h: string): boolean }; export default b; }
declare module 'validator' { const v: { isEmail(s: string): boolean; normalizeEmail(s: string): string | false; isDecimal(s: string, o: { locale: string }): boolean; isDate(s: string, o: { format: string; strictMode: boolean }): boolean; toDate(s: string): Date | null }; export default v; }
declare module 'better-sqlite3' {
	namespace Database {
		interface RunResult { changes: number; lastInsertRowid: number | bigint }
		interface Statement { run(...p: any[]): RunResult; get(...p: any[]): any; all(...p: any[]): any[]; iterate(...p: any[]): IterableIterator<any>; raw(b?: boolean): this }
		interface Database { prepare(s: string): Statement; exec(s: string): this; defaultSafeIntegers(b?: boolean): this }
	}
	interface Ctor { new(n: string): Database.Database }
	const Database: Ctor;
	export default Database;
}
declare class Buffer { static from(a: any): Buffer; static byteLength(a: string): number; toString(e?: string): string; readonly length: number }
declare const process: { abort(): never };
