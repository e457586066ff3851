// node run.mjs FILE.ts : bundles FILE.ts with the sources of the repository in the
// current directory ("@repo/...") and runs it in a jsdom page. A thrown error fails.
import { mkdtempSync, rmSync } from "node:fs";
import { createRequire } from "node:module";
import { tmpdir } from "node:os";
import { join, resolve } from "node:path";
import { pathToFileURL } from "node:url";

const repo = process.cwd();
const file = resolve(process.argv[2]);
const require = createRequire(join(repo, "package.json"));
const esbuild = require(join(repo, "node_modules/.pnpm/node_modules/esbuild"));
const dir = mkdtempSync(join(tmpdir(), "demo-"));
process.on("exit", () => rmSync(dir, { recursive: true, force: true }));
const out = join(dir, "demo.mjs");
await esbuild.build({
	entryPoints: [file],
	bundle: true,
	format: "esm",
	platform: "node",
	conditions: ["development", "module", "import"],
	mainFields: ["module", "main"],
	outfile: out,
	logLevel: "error",
	banner: { js: `import { createRequire as __cr } from "node:module"; const require = __cr(${JSON.stringify(join(repo, "package.json"))});` },
	plugins: [
		{
			name: "repo",
			setup(build) {
				build.onResolve({ filter: /^@repo\// }, (a) => build.resolve(`./${a.path.slice(6)}`, { resolveDir: repo, kind: a.kind }));
				build.onResolve({ filter: /^[a-z@][^:]*$/ }, (a) => {
					if (a.pluginData === "nested" || a.path.startsWith("@repo/") || a.importer !== file) return;
					return build.resolve(a.path, { resolveDir: repo, kind: a.kind, pluginData: "nested" });
				});
			},
		},
	],
});
const { JSDOM, VirtualConsole } = require("jsdom");
const vc = new VirtualConsole();
const errors = [];
vc.on("jsdomError", (e) => errors.push(e));
const dom = new JSDOM("<!doctype html><body></body>", { url: "http://localhost/", pretendToBeVisual: true, virtualConsole: vc });
globalThis.window = dom.window;
for (const k of ["document", "HTMLElement", "SVGElement", "HTMLOptionElement", "HTMLSelectElement", "HTMLInputElement", "HTMLTextAreaElement", "Element", "Node", "Document", "ShadowRoot", "DocumentFragment", "Event", "CustomEvent", "customElements", "MutationObserver", "HTMLTemplateElement", "Comment", "Text"])
	globalThis[k] = dom.window[k];
process.env.NODE_ENV = "test";
try {
	await import(pathToFileURL(out).href);
	if (errors.length) throw errors[0].cause ?? errors[0];
	console.log("ok");
	process.exit(0);
} catch (e) {
	console.log(`FAILED: ${e?.message ?? e}`);
	process.exit(1);
}
