// One shard: install a jsdom window (unless the check runs without a DOM), then
// import the freshly built bundle and run it.
import { readFileSync, writeFileSync } from "node:fs";
import { createRequire } from "node:module";
import { join } from "node:path";

const job = JSON.parse(readFileSync(process.argv[2], "utf8"));
globalThis.__VERIF_JOB__ = job;
const require = createRequire(join(job.repo, "package.json"));

const state = { evaluations: 0, distinct: [], observed: {}, samples: [], violations: [], error: null };
const flush = () => writeFileSync(job.resultFile, JSON.stringify(state));

if (job.env === "dom") {
	const { JSDOM, VirtualConsole } = require("jsdom");
	const vc = new VirtualConsole();
	// Exceptions thrown inside custom-element reactions and event listeners are
	// reported to the window; the monitors read them from here.
	globalThis.__reported = [];
	vc.on("jsdomError", (e) => {
		globalThis.__reported.push(e?.cause ?? e?.detail ?? e);
	});
	const dom = new JSDOM("<!doctype html><html><head></head><body></body></html>", {
		url: "http://localhost/",
		pretendToBeVisual: true,
		virtualConsole: vc,
	});
	const w = dom.window;
	globalThis.window = w;
	globalThis.document = w.document;
	globalThis.__dom = dom;
	const { runInNewContext } = require("node:vm");
	const builtins = new Set(runInNewContext("Object.getOwnPropertyNames(globalThis)"));
	const skip = new Set([
		"window", "document", "self", "global", "process", "console", "performance", "navigator", "crypto", "name",
		"setTimeout", "setInterval", "clearTimeout", "clearInterval", "setImmediate", "queueMicrotask", "structuredClone",
		"TextEncoder", "TextDecoder", "URL", "URLSearchParams", "Blob", "fetch",
	]);
	for (const key of Object.getOwnPropertyNames(w)) {
		if (skip.has(key) || builtins.has(key) || /^[0-9]+$/.test(key)) continue;
		try {
			Object.defineProperty(globalThis, key, { configurable: true, writable: true, value: w[key] });
		} catch {}
	}
}

process.on("uncaughtException", (e) => {
	(globalThis.__uncaught ??= []).push(e);
});
process.on("unhandledRejection", (e) => {
	(globalThis.__uncaught ??= []).push(e);
});

try {
	const mod = await import(job.bundle);
	await mod.default(job, state);
} catch (e) {
	state.error = `${e?.stack ?? e}`.slice(0, 3000);
}
flush();
process.exit(0);
