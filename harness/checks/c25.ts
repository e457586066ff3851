// C25: the built package's entry points work together as one, however they were bundled.
import { execFileSync } from "node:child_process";
import { writeFileSync } from "node:fs";
import { join } from "node:path";
import { pathToFileURL } from "node:url";
import { drainReported, suite, tick, uniqueName, violate, withConsole } from "../lib/core";

type Copy = { name: string; m: any };
let last = 0;

export default suite(async (t) => {
	const build = (dir: string, standalone: boolean) => {
		const app = join(t.job.scratch, dir);
		execFileSync(process.execPath, [join(t.job.verif, "harness/builddist.mjs"), t.job.repo, app, ...(standalone ? ["standalone"] : [])], {
			stdio: "pipe",
			env: { ...process.env, NODE_ENV: "production" },
		});
		return app;
	};
	const app = build("app", true);
	const second = build("app2", false);
	const load = async (name: string, file: string): Promise<Copy> => ({ name, m: await import(pathToFileURL(file).href) });
	const copies = await withConsole(async () => [
		await load("installed", join(app, "installed.mjs")),
		await load("second install", join(second, "installed.mjs")),
		await load("bundled one by one", join(app, "standalone.mjs")),
	]);
	const libs = copies[0].m.libs;

	await t.cases("commonjs", 1, () => {
		const entries = Object.keys(JSON.parse(execFileSync("cat", [join(t.job.repo, "package.json")], { encoding: "utf8" })).exports).filter((k) => k !== "./package.json");
		const script = join(app, "all.cjs");
		writeFileSync(
			script,
			`const out = [];
for (const k of ${JSON.stringify(entries)}) { try { out.push([k, null, Object.keys(require(k.replace(/^\\./, "ignite-element"))).sort()]); } catch (e) { out.push([k, e.name + ": " + e.message.split("\\n")[0], []]); } }
console.log(JSON.stringify(out));`,
		);
		const out = JSON.parse(execFileSync(process.execPath, [script], { encoding: "utf8", stdio: ["ignore", "pipe", "pipe"] })) as Array<[string, string | null, string[]]>;
		t.observe("entries-required", out.length);
		t.distinct("commonjs");
		const failed = out.filter(([, e]) => e);
		const odd = failed.find(([, e]) => e !== "ReferenceError: exports is not defined in ES module scope");
		if (odd) violate(`require("${odd[0]}"): ${odd[1]}`, { out });
		for (const [k, e, names] of out) {
			const id = k.replace(/^\.\/?/, "").replace(/[^a-z]/gi, "_") || "main";
			const want = Object.keys(copies[0].m[id]).sort();
			if (!e && names.filter((n) => n !== "default" && n !== "__esModule" && n !== "module.exports").join() !== want.filter((n) => n !== "default").join()) violate(`require("${k}") gives ${names}, import gives ${want}`, {});
		}
		if (failed.length) violate(`require() fails for ${failed.length} of ${out.length} entry points: ${failed[0][1]}`, { failed }, "require-of-commonjs-entry-points-is-parsed-as-esm");
	});

	await t.cases("together", t.scale(250, 4000), async (rng, _i, c) => {
		const pick = () => rng.pick(copies);
		const trace: string[] = [];
		const note = (s: string) => {
			trace.push(s);
			c.note(s);
		};
		await withConsole(async () => {
			const renderer = rng.pick(["lit", "ignite-jsx"] as const);
			const style = rng.bool(0.7) ? `/s${t.job.shard}-${last++}.css` : null;
			const late = style !== null && rng.bool(0.4);
			pick().m.main.setGlobalStyles(undefined);
			const configure = async (withStyle: boolean) => {
				const by = pick();
				const how = rng.pick(["define", "load", "load-entry"] as const);
				const config = { renderer, ...(withStyle && style ? { styles: style } : {}) };
				note(`${how} via ${by.name}: ${JSON.stringify(config)}`);
				if (how === "define") by.m.main.defineIgniteConfig(config);
				else await (how === "load" ? by.m.main : by.m.config_loadIgniteConfig).loadIgniteConfig(async () => ({ default: config }));
				const seen = pick().m.main.getIgniteConfig();
				if (seen?.renderer !== renderer) violate(`another copy reads renderer ${seen?.renderer}, configured ${renderer}`, { trace });
			};
			await configure(!late);
			const els: Array<{ el: any; read: () => number; bump: () => void; label: string; n?: number }> = [];
			const define = () => {
				const by = pick();
				const jsxBy = pick();
				const runtime = rng.pick(["jsx_jsx_runtime", "jsx_jsx_dev_runtime", "jsx"] as const);
				const rt = jsxBy.m[runtime];
				const jsx = rt.jsx ?? rt.jsxDEV;
				const kind = rng.pick(["xstate", "redux", "mobx"] as const);
				const own = rng.bool();
				const view = (n: number, send: () => void) =>
					renderer === "lit"
						? libs.lit.html`<b class="n">${n}</b><button @click=${send}>+</button>`
						: jsx("div", {
								children: [
									jsx(rt.Fragment, { children: [jsx("b", { className: "n", children: n }), null, jsx("i", { children: ["x", false] })] }),
									jsx("button", { onClick: send, children: "+" }),
								],
							});
				const tag = uniqueName("pk");
				let source: any;
				let read: (el: any) => number;
				let bump: (el: any) => void;
				if (kind === "xstate") {
					const machine = libs.xstate.createMachine({ context: { n: 0 }, on: { INC: { actions: libs.xstate.assign({ n: ({ context }: any) => context.n + 1 }) } } });
					source = own ? libs.xstate.createActor(machine).start() : machine;
					read = () => source.getSnapshot().context.n;
					bump = () => source.send({ type: "INC" });
					by.m.xstate.igniteCore({ source })(tag, ({ state, send }: any) => view(state.context.n, () => send({ type: "INC" })));
				} else if (kind === "redux") {
					const slice = libs.toolkit.createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s: any) => void s.n++ } });
					source = own ? libs.toolkit.configureStore({ reducer: { s: slice.reducer } }) : slice;
					read = () => source.getState().s.n;
					bump = () => source.dispatch(slice.actions.inc());
					by.m.redux.igniteCore({ source })(tag, ({ state, send }: any) => view(state.s?.n ?? state.n, () => send(slice.actions.inc())));
				} else {
					const make = () => libs.mobx.makeAutoObservable({ n: 0, inc() { (this as any).n++; } });
					source = own ? make() : make;
					read = () => source.n;
					bump = () => source.inc();
					by.m.mobx.igniteCore({ source })(tag, ({ state, send }: any) => view(state.n, () => send({ type: "inc" })));
				}
				note(`${tag}: ${kind} ${own ? "own" : "blueprint"} via ${by.name}, view by ${jsxBy.name}/${runtime}`);
				const count = rng.range(1, 2);
				for (let k = 0; k < count; k++) {
					const el: any = document.createElement(tag);
					document.body.appendChild(el);
					els.push({ el, label: `${tag}[${k}]`, read: () => (own ? read(el) : (entry.n ?? 0)), bump: () => bump(el), n: own ? undefined : 0 });
					const entry = els[els.length - 1];
				}
				return own;
			};
			const defs = rng.range(1, 3);
			for (let d = 0; d < defs; d++) define();
			if (late) {
				// Loading names the stylesheet for elements that exist already, too.
				const by = pick();
				note(`late load via ${by.name}`);
				await rng.pick([by.m.main, by.m.config_loadIgniteConfig]).loadIgniteConfig(async () => ({ renderer, styles: style }));
			}
			const inspect = (when: string) => {
				for (const e of els) {
					const root: ShadowRoot = e.el.shadowRoot;
					const shown = root.querySelector("b.n")?.textContent;
					if (shown !== String(e.read())) violate(`${e.label} shows ${shown}, its source is at ${e.read()} (${when})`, { trace, html: root.innerHTML });
					if (renderer === "ignite-jsx" && root.querySelector("i")?.textContent !== "x") violate(`${e.label} does not show its view`, { trace, html: root.innerHTML });
					const links = [...root.querySelectorAll("link")].map((l) => l.getAttribute("href"));
					const want = style ? [style] : [];
					if (links.join() !== want.join()) violate(`${e.label} links ${JSON.stringify(links)}, configured ${JSON.stringify(want)} (${when})`, { trace, html: root.innerHTML });
					const jsxRoot = root.querySelector("[data-ignite-jsx-root]") !== null;
					if (jsxRoot !== (renderer === "ignite-jsx")) violate(`${e.label} was rendered by ${jsxRoot ? "Ignite JSX" : "Lit"}, configured ${renderer}`, { trace });
					t.observe("elements-inspected");
				}
			};
			inspect("at first");
			for (let s = rng.range(2, 6); s > 0; s--) {
				const e = rng.pick(els);
				const k = rng.int(4);
				if (k === 0) {
					e.el.remove();
					document.body.appendChild(e.el);
					if (e.n !== undefined) e.n = 0;
					note(`${e.label} reinserted`);
				} else if (k === 1 && e.n === undefined) {
					e.bump();
					note(`${e.label} source changed`);
				} else {
					e.el.shadowRoot.querySelector("button").click();
					if (e.n !== undefined) e.n++;
					note(`${e.label} clicked`);
				}
				await tick();
				t.evaluated();
				inspect(trace[trace.length - 1]);
			}
			for (const e of els) e.el.remove();
			const trouble = drainReported();
			if (trouble.length) violate(`reported: ${String((trouble[0] as Error)?.stack ?? trouble[0]).slice(0, 400)}`, { trace });
		});
		t.distinct(trace.join("|"));
		t.sample(trace);
	});
});
