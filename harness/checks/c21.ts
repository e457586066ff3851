// C21: importing and using the package where there is no DOM, or only part of one.
import { execFileSync, spawn } from "node:child_process";
import { writeFileSync } from "node:fs";
import { join } from "node:path";
import { suite, violate } from "../lib/core";

// Runs in a child process: a server (or tool) that imports entry points in some order.
const CHILD = String.raw`
import { readFileSync } from "node:fs";
const plan = JSON.parse(readFileSync(process.argv[2], "utf8"));
const out = { errors: [], notes: [] };
process.on("uncaughtException", (e) => out.errors.push("uncaught: " + e.stack));
process.on("unhandledRejection", (e) => out.errors.push("unhandled: " + (e?.stack ?? e)));
process.on("exit", () => console.log("\n@@" + JSON.stringify(out)));
const defined = [];
const userElement = class UserHTMLElement { attachShadow() { return { host: this }; } };
const userRegistry = { define(n, c) { if (defined.some((d) => d[0] === n)) throw new Error("registered twice: " + n); defined.push([n, c]); }, get: (n) => defined.find((d) => d[0] === n)?.[1], whenDefined: async () => userElement, upgrade() {}, getName: () => null };
// a registry of an older kind, or one that offers only what components need
if (plan.bare) for (const k of plan.bare) delete userRegistry[k];
if (plan.bare?.includes("attachShadow")) delete userElement.prototype.attachShadow;
const give = (key, value, how) => {
	if (how === "plain") globalThis[key] = value;
	else if (how === "getter") Object.defineProperty(globalThis, key, { configurable: true, get: () => value });
	else if (how === "readonly") Object.defineProperty(globalThis, key, { configurable: false, writable: false, value });
};
if (plan.HTMLElement) give("HTMLElement", userElement, plan.HTMLElement);
if (plan.customElements) give("customElements", userRegistry, plan.customElements);
const before = new Map(Object.getOwnPropertyNames(globalThis).map((k) => [k, Object.getOwnPropertyDescriptor(globalThis, k)]));
const same = (a, b) => a && b && Object.is(a.value, b.value) && a.get === b.get && a.set === b.set && a.enumerable === b.enumerable && a.configurable === b.configurable && a.writable === b.writable;
const audit = (when) => {
	for (const [k, d] of before) {
		const now = Object.getOwnPropertyDescriptor(globalThis, k);
		if (!now) out.errors.push(when + ": global " + k + " disappeared");
		else if (!same(d, now) && !d.get) out.errors.push(when + ": global " + k + " was replaced");
	}
	for (const k of ["window", "document", "location", "Element", "Node", "ShadowRoot"]) if (!before.has(k) && k in globalThis) out.errors.push(when + ": new global " + k + " pretends there is a DOM");
	if (typeof window !== "undefined" || typeof document !== "undefined") out.errors.push(when + ": pretends to be a browser");
	if (plan.HTMLElement && globalThis.HTMLElement !== userElement) out.errors.push(when + ": the given HTMLElement was replaced");
	if (plan.customElements && globalThis.customElements !== userRegistry) out.errors.push(when + ": the given registry was replaced");
};
const log = console.log; console.info = console.warn = console.error = () => {};
const m = {};
const { pathToFileURL } = await import("node:url");
for (const e of plan.entries) {
	try { m[e.id] = await import(e.at.startsWith("/") ? pathToFileURL(e.at).href : e.at); out.notes.push("imported " + e.id); }
	catch (err) { out.errors.push("import " + e.at + ": " + (err?.stack ?? err)); }
	audit("after importing " + e.at);
}
const xstate = await import("xstate"), toolkit = await import("@reduxjs/toolkit"), mobx = await import("mobx");
for (const k of Object.getOwnPropertyNames(globalThis)) if (!before.has(k) && k !== "HTMLElement" && k !== "customElements") before.set(k, Object.getOwnPropertyDescriptor(globalThis, k));
let tags = 0;
const wanted = [];
const attempt = async (what, fn) => { try { await fn(); } catch (e) { out.errors.push(what + ": " + (e?.stack ?? e)); } };
const view = () => { throw new Error("a view was rendered on the server"); };
for (const a of plan.actions) {
	if (a === "xstate" && m.xstate) await attempt("xstate component", async () => {
		const machine = xstate.createMachine({ context: { n: 1 }, on: { INC: { actions: xstate.assign({ n: ({ context }) => context.n + 1 }) } } });
		const actor = xstate.createActor(machine).start();
		for (const source of [machine, actor]) { const tag = "x-" + ++tags; wanted.push(tag); m.xstate.igniteCore({ source, events: (e) => ({ done: e() }), states: (s) => ({ n: s.context.n }), commands: ({ actor }) => ({ inc: () => actor.send({ type: "INC" }) }) })(tag, view); }
		actor.send({ type: "INC" });
		if (actor.getSnapshot().context.n !== 2 || actor.getSnapshot().status !== "active") out.errors.push("the actor is not as its user left it");
		actor.stop();
	});
	if (a === "redux" && m.redux) await attempt("redux component", async () => {
		const slice = toolkit.createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
		const store = toolkit.configureStore({ reducer: slice.reducer });
		for (const source of [slice, store, () => toolkit.configureStore({ reducer: slice.reducer })]) { const tag = "x-" + ++tags; wanted.push(tag); m.redux.igniteCore({ source })(tag, view); }
		store.dispatch(slice.actions.inc());
		if (store.getState().n !== 1) out.errors.push("the store is not as its user left it");
	});
	if (a === "mobx" && m.mobx) await attempt("mobx component", async () => {
		const make = () => mobx.makeAutoObservable({ n: 0, inc() { this.n++; } });
		const store = make();
		for (const source of [make, store]) { const tag = "x-" + ++tags; wanted.push(tag); m.mobx.igniteCore({ source })(tag, view); }
		store.inc();
		if (store.n !== 1) out.errors.push("the store is not as its user left it");
	});
	if (a === "jsx" && (m.jsx || m.jsx_runtime)) await attempt("jsx", async () => {
		const rt = m.jsx ?? m.jsx_runtime;
		const el = rt.jsx("div", { id: "a", children: [rt.jsx(rt.Fragment, { children: "x" })] });
		if (el.type !== "div" || el.props.id !== "a") out.errors.push("jsx gave " + JSON.stringify(el));
	});
	if (a === "define" && m.main) await attempt("defineIgniteConfig", async () => {
		m.main.defineIgniteConfig({ renderer: "lit", styles: "/a.css", logging: "off" });
		const c = m.main.getIgniteConfig();
		if (c?.renderer !== "lit" || c.styles !== "/a.css" || c.logging !== "off") out.errors.push("config reads " + JSON.stringify(c));
	});
	if (a === "load" && (m.load || m.main)) await attempt("loadIgniteConfig", async () => {
		const load = (m.load ?? m.main).loadIgniteConfig;
		let calls = 0;
		const c = await load(async () => { calls++; return plan.wrapped ? { default: { renderer: "ignite-jsx", styles: "/b.css" } } : { renderer: "ignite-jsx", styles: "/b.css" }; });
		if (calls !== 1 || c?.renderer !== "ignite-jsx" || c.styles !== "/b.css") out.errors.push("loading gave " + JSON.stringify(c) + " after " + calls + " calls");
		if (m.main && m.main.getIgniteConfig()?.styles !== "/b.css") out.errors.push("the loaded config is not in force");
		if ((await load(async () => ({ default: undefined }))) !== undefined) out.errors.push("a module without a config gave one");
		if (m.main && m.main.getIgniteConfig()?.styles !== "/b.css") out.errors.push("a module without a config changed the config");
		let failed = false;
		await load(async () => { throw new Error("x"); }).catch(() => { failed = true; });
		if (!failed) out.errors.push("a failing loader was not reported");
	});
	audit("after " + a);
	out.notes.push(a);
}
if (plan.customElements) {
	const got = defined.map((d) => d[0]).join();
	if (got !== wanted.join()) out.errors.push("registered " + got + ", defined " + wanted.join());
	for (const [n, c] of defined) if (!(c.prototype instanceof globalThis.HTMLElement)) out.errors.push(n + " does not extend HTMLElement");
}
out.defined = wanted.length;
out.finished = true;
`;

const ENTRIES: Record<string, string> = {
	main: "ignite-element",
	xstate: "ignite-element/xstate",
	redux: "ignite-element/redux",
	mobx: "ignite-element/mobx",
	jsx_renderer: "ignite-element/renderers/ignite-jsx",
	lit_renderer: "ignite-element/renderers/lit",
	webpack: "ignite-element/config/webpack",
	vite: "ignite-element/config/vite",
	jsx: "ignite-element/jsx",
	jsx_runtime: "ignite-element/jsx/jsx-runtime",
	jsx_dev: "ignite-element/jsx/jsx-dev-runtime",
	load: "ignite-element/config/loadIgniteConfig",
};
const STANDALONE: Record<string, string> = { load: "config_loadIgniteConfig", webpack: "config_webpack", vite: "config_vite", jsx_renderer: "renderers_ignite_jsx", lit_renderer: "renderers_lit", jsx_runtime: "jsx_jsx_runtime", jsx_dev: "jsx_jsx_dev_runtime" };

export default suite(async (t) => {
	const app = join(t.job.scratch, "app");
	execFileSync(process.execPath, [join(t.job.verif, "harness/builddist.mjs"), t.job.repo, app, "standalone"], { stdio: "pipe", env: { ...process.env, NODE_ENV: "production" } });
	const script = join(app, "child.mjs");
	writeFileSync(script, CHILD);
	const ids = Object.keys(ENTRIES);
	const total = t.scale(28, 500);
	await t.cases("process", total, async (rng, i, c) => {
		const first = ids[(i + t.job.shard * 7) % ids.length];
		const rest = rng.sample(
			ids.filter((x) => x !== first),
			rng.pick([0, 0, 2, 5, 11]),
		);
		const standalone = rng.bool(0.3);
		const how = () => rng.pick([null, null, "plain", "getter", "readonly"] as const);
		const plan = {
			entries: [first, ...rest].map((id) => ({ id, at: standalone ? join(app, "standalone", `${STANDALONE[id] ?? id}.mjs`) : ENTRIES[id] })),
			HTMLElement: how(),
			customElements: how(),
			wrapped: rng.bool(),
			bare: rng.bool(0.4) ? rng.sample(["getName", "upgrade", "whenDefined", "attachShadow"], rng.range(1, 4)) : null,
			actions: rng.shuffle(["xstate", "redux", "mobx", "jsx", "define", "load", "xstate", "load"]).slice(0, rng.range(4, 8)),
		};
		c.note(plan);
		const file = join(app, `plan-${i}.json`);
		writeFileSync(file, JSON.stringify(plan));
		const r = await new Promise<{ text: string; code: number | null; killed: boolean }>((res) => {
			const child = spawn(process.execPath, [script, file], { cwd: app, stdio: ["ignore", "pipe", "pipe"], env: { ...process.env, NODE_ENV: rng.pick(["production", "development", "test"]) } });
			let text = "";
			let killed = false;
			const timer = setTimeout(() => {
				killed = true;
				child.kill("SIGKILL");
			}, 60_000);
			child.stdout.on("data", (d) => (text += d));
			child.stderr.on("data", (d) => (text += d));
			child.on("close", (code) => {
				clearTimeout(timer);
				res({ text, code, killed });
			});
		});
		if (r.killed) violate("a process that imported the package did not end by itself", { plan, text: r.text.slice(-1500) });
		const line = r.text.split("\n@@").pop() ?? "";
		let out: any;
		try {
			out = JSON.parse(line.split("\n")[0]);
		} catch {
			violate(`the process died (code ${r.code}): ${r.text.slice(-800)}`, { plan });
		}
		if (out.errors.length) violate(out.errors[0].slice(0, 700), { plan, errors: out.errors });
		if (!out.finished) violate(`the process ended before its work was done (code ${r.code})`, { plan, text: r.text.slice(-1500) });
		t.observe("processes");
		t.observe("imports", plan.entries.length);
		t.observe("server-components", out.defined);
		t.evaluated(plan.entries.length + plan.actions.length);
		t.distinct(JSON.stringify(plan).replaceAll(app, ""));
		t.sample(plan);
	});
});
