// node builddist.mjs <repo> <app dir> [standalone]: builds the package from the working tree with
// the repository's own Vite configuration (declarations left out) and installs it, with its peers,
// in <app dir>/node_modules; with "standalone" also bundles every entry point on its own.
import { cpSync, existsSync, mkdirSync, readFileSync, symlinkSync, writeFileSync } from "node:fs";
import { createRequire } from "node:module";
import { dirname, join } from "node:path";
import { pathToFileURL } from "node:url";

const [repo, app, standalone] = process.argv.slice(2);
const vite = await import(pathToFileURL(join(repo, "node_modules/vite/dist/node/index.js")).href);
const { config } = await vite.loadConfigFromFile({ command: "build", mode: "production" }, join(repo, "vite.config.ts"), repo, "silent");
const pkg = join(app, "node_modules/ignite-element");
mkdirSync(pkg, { recursive: true });
const plugins = (await Promise.all((config.plugins ?? []).flat(9))).filter((p) => p && !/dts/.test(p.name ?? ""));
await vite.build({
	...config,
	configFile: false,
	root: repo,
	logLevel: "silent",
	plugins,
	build: { ...config.build, outDir: join(pkg, "dist"), emptyOutDir: false },
});
cpSync(join(repo, "package.json"), join(pkg, "package.json"));
writeFileSync(join(app, "package.json"), '{"name":"app","private":true,"type":"module"}');
for (const dep of ["lit-html", "xstate", "mobx", "redux", "@reduxjs/toolkit"]) {
	const at = join(app, "node_modules", dep);
	if (existsSync(at)) continue;
	mkdirSync(dirname(at), { recursive: true });
	symlinkSync(join(repo, "node_modules", dep), at);
}
const exported = Object.keys(JSON.parse(readFileSync(join(repo, "package.json"), "utf8")).exports).filter((k) => k !== "./package.json");
const id = (k) => k.replace(/^\.\/?/, "").replace(/[^a-z]/gi, "_") || "main";
const peers = `import * as xstate from "xstate"; import * as mobx from "mobx"; import * as toolkit from "@reduxjs/toolkit"; import * as lit from "lit-html";
export const libs = { xstate, mobx, toolkit, lit };\n`;
writeFileSync(
	join(app, "installed.mjs"),
	peers + exported.map((k) => `export * as ${id(k)} from ${JSON.stringify(k.replace(/^\./, "ignite-element"))};`).join("\n"),
);
if (standalone) {
	const require = createRequire(join(repo, "package.json"));
	let esbuild;
	for (const c of [join(repo, "node_modules/.pnpm/node_modules/esbuild"), "/opt/veriftools/node/node_modules/esbuild"]) {
		try {
			esbuild ??= require(c);
		} catch {}
	}
	// As a bundler that pre-bundles dependencies one by one would do.
	for (const k of exported) {
		const file = JSON.parse(readFileSync(join(repo, "package.json"), "utf8")).exports[k].import;
		await esbuild.build({
			entryPoints: [join(pkg, file)],
			bundle: true,
			format: "esm",
			platform: "neutral",
			target: "esnext",
			external: ["lit-html", "xstate", "mobx", "redux", "@reduxjs/toolkit", "node:*"],
			outfile: join(app, "standalone", `${id(k)}.mjs`),
			logLevel: "silent",
		});
	}
	writeFileSync(join(app, "standalone.mjs"), peers + exported.map((k) => `export * as ${id(k)} from "./standalone/${id(k)}.mjs";`).join("\n"));
}
