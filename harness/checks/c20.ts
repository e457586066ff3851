// C20: the bundler plugins load exactly the project's configuration file.
import { existsSync, mkdirSync, rmSync, writeFileSync } from "node:fs";
import { dirname, join, posix, relative, resolve } from "node:path";
import { pathToFileURL } from "node:url";
import { igniteConfigVitePlugin } from "@repo/src/config/vite";
import { IgniteConfigWebpackPlugin } from "@repo/src/config/webpack";
import { type Rng, suite, violate, withConsole } from "../lib/core";

declare const require: (id: string) => any;
const NAMES = ["ignite.config.ts", "ignite.config.js", "ignite.config.mjs", "ignite.config.cjs"];

type Loaded = { helper: number; configs: string[]; order: string[] };
const g = globalThis as any;

function reset(): Loaded {
	const l: Loaded = { helper: 0, configs: [], order: [] };
	g.__c20 = l;
	return l;
}

let serial = 0;
const HELPER = `export async function loadIgniteConfig(load) {
  globalThis.__c20.helper++;
  const m = await load();
  const c = m.default ?? m;
  globalThis.__c20.configs.push(c.marker);
  globalThis.__c20.order.push("config-in-force");
  return c;
}
`;
const configSource = (marker: string) =>
	`globalThis.__c20.order.push(${JSON.stringify(`config:${marker}`)}); export default { marker: ${JSON.stringify(marker)} };\n`;
function put(file: string, text: string): void {
	mkdirSync(dirname(file), { recursive: true });
	writeFileSync(file, text);
}
function installHelper(root: string): void {
	const at = join(root, "node_modules/ignite-element");
	put(join(at, "dist/config/loadIgniteConfig.es.js"), HELPER);
	put(
		join(at, "package.json"),
		JSON.stringify({
			name: "ignite-element",
			version: "0.0.0",
			type: "module",
			exports: { "./config/loadIgniteConfig": "./dist/config/loadIgniteConfig.es.js" },
		}),
	);
}

type Layout = { root: string; base: string; expected: string | null; configPath?: string; text: string };
/** A project on disk, and which file in it must be loaded. */
function layout(rng: Rng, scratch: string, moreRoots: string[] = []): Layout {
	const base = join(scratch, `p${serial++}`);
	const rootName = rng.pick(["app", "my app", "a.b", "ignite", "x-ü", "app/web", ...moreRoots]);
	const root = join(base, rootName);
	mkdirSync(root, { recursive: true });
	installHelper(root);
	const decoys = rng.sample(NAMES, rng.int(5));
	const written = new Map<string, string>();
	const write = (file: string) => {
		const marker = `${relative(base, file)}#${serial}`;
		put(file, configSource(marker));
		written.set(file, marker);
		return marker;
	};
	const mode = rng.weighted([
		[5, "default"],
		[2, "relative"],
		[2, "nested"],
		[2, "absolute-inside"],
		[2, "absolute-outside"],
		[1, "parent"],
		[1, "missing"],
		[1, "near-names"],
	] as const);
	let configPath: string | undefined;
	let expected: string | null = null;
	if (mode === "near-names") {
		for (const n of ["ignite.config", "ignite.config.json", "ignite.configs.ts", "config/ignite.config.ts", "../ignite.config.ts", "Ignite.config.ts"]) write(join(root, n));
	}
	for (const d of decoys) write(join(root, d));
	if (mode === "default" || mode === "near-names") {
		const first = NAMES.find((n) => decoys.includes(n));
		expected = first ? (written.get(join(root, first)) ?? null) : null;
	} else {
		const file = {
			relative: "custom.config.ts",
			nested: rng.pick([".config/ignite.config.ts", "..cfg/ignite.config.js", "config/ignite.config.ts", "./cfg/deep dir/settings.mjs", "cfg/../cfg2/x.js"]),
			"absolute-inside": join(root, "etc/ignite.config.js"),
			"absolute-outside": join(base, "shared/ignite.config.ts"),
			parent: "../shared/ignite.config.ts",
			missing: rng.pick(["nope.ts", "./config/none.ts", join(base, "gone/ignite.config.ts")]),
		}[mode];
		configPath = file;
		if (mode !== "missing") expected = write(resolve(root, file));
	}
	return { root, base, expected, configPath, text: `${mode} root=${rootName} files=${decoys.sort().join(",")} path=${configPath ?? "-"}` };
}

type Tag = { tag: string; attrs?: Record<string, unknown>; children?: unknown; injectTo?: string };
async function injected(plugin: any, page: string): Promise<Tag[]> {
	const hook = plugin.transformIndexHtml;
	const handler = typeof hook === "function" ? hook : hook.handler;
	const ctx = { path: page, filename: page };
	const r = await handler.call({ warn() {}, info() {}, debug() {} }, "<html><head></head><body></body></html>", ctx);
	if (!r) return [];
	if (Array.isArray(r)) return r;
	if (typeof r === "string") return [{ tag: "html", children: r }];
	return r.tags ?? [];
}

const esbuild = () => {
	const job = g.__VERIF_JOB__;
	for (const c of [join(job.repo, "node_modules/.pnpm/node_modules/esbuild"), "/opt/veriftools/node/node_modules/esbuild"]) {
		try {
			return require(c);
		} catch {}
	}
	throw new Error("esbuild not found");
};

/** Runs module source as a browser served by Vite (or a webpack entry) would: specifiers resolved, code executed. */
async function execute(source: string, o: { root: string; dir: string; label: string }): Promise<string | null> {
	const out = join(o.root, `.run-${serial++}.mjs`);
	try {
		await esbuild().build({
			stdin: { contents: source, resolveDir: o.dir, sourcefile: o.label, loader: "js" },
			bundle: true,
			format: "esm",
			platform: "neutral",
			target: "esnext",
			outfile: out,
			logLevel: "silent",
			plugins: [
				{
					name: "served",
					setup(b: any) {
						b.onResolve({ filter: /.*/ }, (a: any) => {
							if (a.kind === "entry-point") return;
							if (a.path.startsWith("data:")) return;
							const found = (p: string) => (existsSync(p) ? { path: p } : { errors: [{ text: `nothing at ${p}` }] });
							if (a.path.startsWith("/@fs/")) return found(a.path.slice(4));
							if (/^\.\.?\//.test(a.path)) return found(resolve(a.resolveDir || o.dir, a.path));
							if (a.path.startsWith("/")) return found(existsSync(a.path) ? a.path : join(o.root, a.path));
							if (a.path.startsWith("ignite-element/config/loadIgniteConfig")) return found(join(o.root, "node_modules/ignite-element/dist/config/loadIgniteConfig.es.js"));
							return { errors: [{ text: `unresolvable ${a.path}` }] };
						});
					},
				},
			],
		});
		await import(pathToFileURL(out).href);
		return null;
	} catch (e) {
		return String((e as Error)?.message ?? e).slice(0, 500);
	} finally {
		rmSync(out, { force: true });
	}
}

export default suite(async (t) => {
	const scratch = t.job.scratch;
	await t.cases("vite-page", t.scale(110, 1500), async (rng, _i, c) => {
		const l = layout(rng, scratch);
		const give = rng.pick(["option", "resolved", "both"] as const);
		const injectTo = rng.pick([undefined, "head", "head-prepend", "body", "body-prepend"] as const);
		c.note({ l: l.text, give, injectTo });
		const plugin: any = igniteConfigVitePlugin({
			...(give === "resolved" ? {} : { root: l.root }),
			...(l.configPath === undefined ? {} : { configPath: l.configPath }),
			...(injectTo ? { injectTo } : {}),
		});
		if (give !== "option") {
			const h = plugin.configResolved;
			await (typeof h === "function" ? h : h.handler).call({}, { root: give === "both" ? join(l.base, "elsewhere") : l.root, command: "serve", base: "/" });
		}
		for (const page of rng.sample(["/index.html", "/other.html", "/sub/index.html", "/a/b/c.html", "/index.html", "/my-page/index.html", "/v1.2/x.html", "/a b/ü/index.html", "/@x/y.html", "/~u/index.html", "/.well/k.html"], 4)) {
			const tags = await withConsole(() => injected(plugin, page));
			t.evaluated();
			if (l.expected === null) {
				if (tags.length) violate("something was injected although there is no configuration file", { tags, l: l.text });
				t.observe("no-file");
				continue;
			}
			if (tags.length !== 1) violate(`${tags.length} tags injected, expected one`, { tags, l: l.text });
			const tag = tags[0];
			if (tag.tag !== "script" || tag.attrs?.type !== "module") violate("the injected tag is not a module script", { tag });
			if (tag.injectTo !== (injectTo ?? "head-prepend")) violate(`injected into ${tag.injectTo}, expected ${injectTo ?? "head-prepend"}`, { tag });
			const seen = reset();
			const trouble = await execute(String(tag.children), { root: l.root, dir: join(l.root, posix.dirname(page)), label: page });
			if (trouble) violate(`the injected script fails on ${page}: ${trouble}`, { tag, l: l.text });
			if (seen.helper !== 1 || seen.configs.length !== 1 || seen.configs[0] !== l.expected)
				violate(`page ${page} put ${JSON.stringify(seen.configs)} in force, expected ${l.expected}`, { tag, l: l.text });
			t.observe("pages-run");
		}
		t.distinct(`vite ${l.text} ${give} ${injectTo}`);
		t.sample({ project: l.text, give, injectTo, loaded: l.expected });
		rmSync(l.base, { recursive: true, force: true });
	});

	await t.cases("webpack-entry", t.scale(110, 1500), async (rng, _i, c) => {
		const l = layout(rng, scratch, ['say "hi"', "it's", "50%25", "a+b & c", "$1 `x`", "${y}"]);
		const mods = (n: number) =>
			Array.from({ length: n }, () => {
				const id = `m${serial++}`;
				put(join(l.root, `src/${id}.js`), `globalThis.__c20.order.push("${id}");\n`);
				return `./src/${id}.js`;
			});
		type Desc = string | string[] | { import: string | string[]; [k: string]: unknown };
		const desc = (): Desc => {
			const k = rng.int(4);
			if (k === 0) return mods(1)[0];
			if (k === 1) return mods(rng.range(0, 3));
			const extra: Record<string, unknown> = {};
			if (rng.bool()) extra.filename = "[name].x.js";
			if (rng.bool(0.3)) extra.library = { type: "umd", name: "Lib" };
			if (rng.bool(0.3)) extra.runtime = "rt";
			if (rng.bool(0.3)) extra.layer = "modern";
			if (rng.bool(0.2)) extra.chunkLoading = false;
			if (rng.bool(0.2)) extra.dependOn = rng.pick<unknown>(["vendor", ["vendor", "main"]]);
			if (rng.bool(0.2)) extra.publicPath = "/p/";
			return { import: k === 2 ? mods(1)[0] : mods(rng.range(1, 3)), ...extra };
		};
		const named = (): Record<string, Desc> =>
			Object.fromEntries(rng.sample(["main", "admin", "import", "a/b", "vendor", "default", "filename"], rng.range(1, 4)).map((n) => [n, desc()]));
		const plainEntry = (): unknown =>
			rng.weighted<() => unknown>([
				[1, () => undefined],
				[2, () => mods(1)[0]],
				[2, () => mods(rng.range(0, 3))],
				[5, named],
			])();
		let depth = 0;
		const original = plainEntry();
		// A function may answer something else each time webpack asks.
		const answers: unknown[] = [original, rng.bool(0.3) ? original : named(), rng.bool(0.3) ? original : named()].map(freeze);
		let asked = 0;
		let entry: unknown = original;
		while (rng.bool(0.35) && depth < 3) {
			const inner = entry;
			const innermost = depth === 0;
			const answer = () => (innermost ? answers[Math.min(asked++, 2)] : inner);
			const asyncly = rng.bool();
			entry = asyncly ? async () => answer() : () => answer();
			depth++;
		}
		const compiler: any = { context: l.root, options: { mode: "production", devtool: false } };
		if (entry !== undefined) compiler.options.entry = entry;
		const times = rng.weighted([
			[4, 1],
			[1, 2],
			[1, 3],
		] as const);
		c.note({ l: l.text, entry: JSON.stringify(original), depth, times });
		for (let i = 0; i < times; i++)
			withConsole(() => new IgniteConfigWebpackPlugin(l.configPath === undefined ? {} : { configPath: l.configPath }).apply(compiler));
		if (compiler.options.mode !== "production" || compiler.options.devtool !== false || compiler.context !== l.root) violate("unrelated compiler options changed", { compiler });
		if (l.expected === null) {
			if (compiler.options.entry !== entry) violate("the entry was changed although there is no configuration file", { before: original, after: compiler.options.entry });
			t.observe("no-file");
			rmSync(l.base, { recursive: true, force: true });
			return;
		}
		const settle = async (e: any): Promise<any> => (typeof e === "function" ? settle(await e()) : e);
		if (asked) violate("the entry function was called before webpack asked for the entries");
		const rounds = depth ? 3 : 1; // webpack calls entry functions again on every rebuild
		for (let round = 0; round < rounds; round++) {
			const got = byName(await settle(compiler.options.entry));
			if (depth && asked !== round + 1) violate(`webpack asked for the entries ${round + 1} times, the user's function was called ${asked} times`);
			const want = byName(depth ? answers[round] : original);
			const names = (x: Record<string, unknown>) => Object.keys(x).sort().join(",");
			if (names(got) !== names(want)) violate(`entries ${names(got)}, expected ${names(want)}`, { original, got });
			for (const name of Object.keys(want)) {
				const { import: imports, ...rest } = got[name];
				const { import: before, ...restBefore } = want[name];
				if (JSON.stringify(sorted(rest)) !== JSON.stringify(sorted(restBefore))) violate(`options of entry ${name} changed`, { rest, restBefore });
				const seen = reset();
				const trouble = await execute(imports.map((m: string) => `import ${JSON.stringify(m)};`).join("\n"), { root: l.root, dir: l.root, label: "entry.js" });
				if (trouble) violate(`entry ${name} fails: ${trouble}`, { imports });
				t.evaluated();
				const app = before.map((m: string) => /(m\d+)\.js$/.exec(m)?.[1]);
				const order = [`config:${l.expected}`, "config-in-force", ...app];
				if (JSON.stringify(seen.order) !== JSON.stringify(order)) violate(`entry ${name} ran ${JSON.stringify(seen.order)}, expected ${JSON.stringify(order)}`, { imports });
				t.observe("entries-run");
			}
		}
		t.distinct(`webpack ${l.text} ${shape(original)} ${depth} ${times}`);
		rmSync(l.base, { recursive: true, force: true });
	});

	const vite = await import(pathToFileURL(join(t.job.repo, "node_modules/vite/dist/node/index.js")).href);
	const pagesOf = (l: Layout, rng: Rng): string[] => {
		const pages = rng.bool(0.5) ? ["index.html", "docs/guide.html"] : [rng.pick(["index.html", "sub/page.html", "my-docs/v1.2/page.html"])];
		for (const p of pages) put(join(l.root, p), `<!doctype html><html><head></head><body><script type="module" src="/src/main.js"></script></body></html>`);
		put(join(l.root, "src/main.js"), `globalThis.__c20.order.push("main");\n`);
		return pages;
	};
	await t.cases("vite-build", t.scale(4, 40), async (rng, _i, c) => {
		const l = layout(rng, scratch);
		const pages = pagesOf(l, rng);
		const base = rng.pick(["/", "/app/", "./"]);
		c.note({ l: l.text, pages, base });
		const outDir = join(l.base, "out");
		await withConsole(() =>
			vite.build({
				root: l.root,
				base,
				configFile: false,
				logLevel: "silent",
				plugins: [igniteConfigVitePlugin(l.configPath === undefined ? {} : { configPath: l.configPath })],
				build: { outDir, emptyOutDir: false, target: "esnext", rollupOptions: { input: pages.map((p) => join(l.root, p)) } },
			}),
		);
		g.document ??= {
			getElementsByTagName: () => [],
			querySelector: () => null,
			createElement: () => ({ relList: { supports: () => true }, setAttribute() {} }),
			head: { appendChild() {} },
		};
		g.window ??= { dispatchEvent: () => true };
		try {
			for (const page of pages) {
				const html = require("node:fs").readFileSync(join(outDir, page), "utf8") as string;
				const seen = reset();
				for (const [, attrs, body] of html.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)) {
					if (!/type="module"/.test(attrs)) continue;
					const src = /\ssrc="([^"]*)"/.exec(attrs)?.[1];
					let file: string;
					if (src !== undefined) {
						const url = new URL(src, `http://h${base === "./" ? "/" : base}${page}`).pathname;
						file = join(outDir, decodeURIComponent(base === "./" ? url : url.slice(base.length - 1)));
					} else {
						file = join(outDir, dirname(page), `inline-${serial++}.mjs`);
						writeFileSync(file, body);
					}
					// Each page is a fresh document: run its modules from a fresh copy of the output.
					const copy = join(l.base, `run-${serial++}`);
					require("node:fs").cpSync(outDir, copy, { recursive: true });
					writeFileSync(join(copy, "package.json"), '{"type":"module"}');
					try {
						await import(pathToFileURL(join(copy, relative(outDir, file))).href);
					} catch (e) {
						violate(`the built page ${page} fails: ${(e as Error).message}`, { html, l: l.text, base });
					}
				}
				t.evaluated();
				const want = l.expected === null ? [] : [l.expected];
				if (JSON.stringify(seen.configs) !== JSON.stringify(want)) violate(`the built page ${page} put ${JSON.stringify(seen.configs)} in force, expected ${JSON.stringify(want)}`, { html, l: l.text, base });
				if (!seen.order.includes("main")) violate(`the built page ${page} does not run the application`, { html });
				t.observe("built-pages-run");
			}
		} finally {
			delete g.document;
			delete g.window;
		}
		t.distinct(`build ${l.text} ${pages} ${base}`);
		rmSync(l.base, { recursive: true, force: true });
	});

	await t.cases("vite-dev", t.scale(4, 40), async (rng, _i, c) => {
		const l = layout(rng, scratch);
		const pages = pagesOf(l, rng);
		const base = rng.pick(["/", "/app/"]);
		c.note({ l: l.text, pages, base });
		await withConsole(async () => {
			const server = await vite.createServer({
				root: l.root,
				base,
				configFile: false,
				logLevel: "silent",
				appType: "custom",
				cacheDir: join(l.base, "cache"),
				optimizeDeps: { noDiscovery: true, include: [] },
				server: { middlewareMode: true, ws: false, hmr: false, watch: null, fs: { strict: false } },
				plugins: [igniteConfigVitePlugin(l.configPath === undefined ? {} : { configPath: l.configPath })],
			});
			try {
				for (const page of pages) {
					const html: string = await server.transformIndexHtml(`/${page}`, require("node:fs").readFileSync(join(l.root, page), "utf8"));
					const at = `http://h${base}${page}`;
					const fetched: string[] = [];
					const get = async (url: URL): Promise<string> => {
						let path = decodeURIComponent(url.pathname) + url.search.replace(/&amp;/g, "&");
						if (!path.startsWith(base)) violate(`page ${page} asks for ${path}, which is outside ${base}`, { html });
						path = path.slice(base.length - 1);
						let r: any;
						try {
							r = await server.transformRequest(path);
						} catch (e) {
							violate(`page ${page} asks for ${path}: ${(e as Error).message}`, { html, l: l.text });
						}
						if (!r) violate(`page ${page} asks for ${path}, which does not exist`, { html, l: l.text });
						return r.code;
					};
					const follow = async (code: string, from: URL, depthLeft: number): Promise<void> => {
						fetched.push(code);
						if (!depthLeft) return;
						for (const [, s] of code.matchAll(/\b(?:import|from)\s*\(?\s*["']([^"']+)["']/g)) {
							if (/vite\/client/.test(s)) continue;
							if (!/^[./]/.test(s)) violate(`page ${page} asks the browser for the bare module ${s}`, { html });
							const url = new URL(s, from);
							await follow(await get(url), url, depthLeft - 1);
						}
					};
					for (const [, attrs, body] of html.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)) {
						if (!/type="module"/.test(attrs) || /@vite\/client/.test(attrs)) continue;
						const src = /\ssrc="([^"]*)"/.exec(attrs)?.[1];
						const url = new URL((src ?? at).replace(/&amp;/g, "&"), at);
						await follow(src === undefined ? body : await get(url), url, 2);
					}
					t.evaluated();
					const markers = fetched.flatMap((code) => [...code.matchAll(/marker: ("[^"]*")/g)].map((m) => JSON.parse(m[1])));
					const want = l.expected === null ? [] : [l.expected];
					if (JSON.stringify(markers) !== JSON.stringify(want)) violate(`page ${page} loads ${JSON.stringify(markers)}, expected ${JSON.stringify(want)}`, { html, l: l.text });
					if (want.length && !fetched.some((code) => code.includes("__c20.helper"))) violate(`page ${page} does not load the helper`, { html });
					t.observe("dev-pages-followed");
				}
			} finally {
				await server.close();
			}
		});
		t.distinct(`dev ${l.text} ${pages} ${base}`);
		rmSync(l.base, { recursive: true, force: true });
	});
});

function freeze<X>(x: X): X {
	if (x && typeof x === "object") {
		for (const v of Object.values(x)) freeze(v);
		Object.freeze(x);
	}
	return x;
}
function sorted(x: Record<string, unknown>): unknown {
	return Object.keys(x)
		.sort()
		.map((k) => [k, x[k]]);
}
/** Webpack's own normal form: every entry a descriptor with a list of modules. */
function byName(entry: any): Record<string, any> {
	const one = (d: any) => (typeof d === "string" ? { import: [d] } : Array.isArray(d) ? { import: d } : { ...d, import: typeof d.import === "string" ? [d.import] : d.import });
	if (entry === undefined) return { main: { import: [] } };
	if (typeof entry === "string" || Array.isArray(entry)) return { main: one(entry) };
	return Object.fromEntries(Object.entries(entry).map(([k, v]) => [k, one(v)]));
}
function shape(x: unknown): string {
	return JSON.stringify(x ?? null).replace(/m\d+/g, "m");
}
