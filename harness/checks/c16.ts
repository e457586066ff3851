// C16: exactly the latest configuration is in force, and components render with
// the renderer that was configured when they were defined.
import { defineIgniteConfig, getIgniteConfig, loadIgniteConfig, registerRenderStrategy } from "@repo/src/index";
import { getGlobalStyles } from "@repo/src/globalStyles";
import { jsx } from "@repo/src/jsx/jsx-runtime";
import { igniteCore as coreMobx } from "@repo/src/mobx";
import { createIgniteJsxRenderStrategy } from "@repo/src/renderers/jsx/IgniteJsxRenderStrategy";
import { createLitRenderStrategy } from "@repo/src/renderers/LitRenderStrategy";
import { clearRegisteredRenderStrategiesForTests } from "@repo/src/renderers/resolveConfiguredRenderStrategy";
import { html } from "lit-html";
import { action, observable } from "mobx";
import { drainReported, type Rng, suite, uniqueName, violate, withConsole } from "../lib/core";

type Any = any;
const SYMBOL = Symbol.for("ignite-element.config");
const forget = () => {
	delete (globalThis as Any)[SYMBOL];
};
const freeze = (x: Any): Any => {
	if (x && typeof x === "object") for (const v of Object.values(x)) freeze(v);
	return Object.freeze(x);
};
const json = (x: unknown) => JSON.stringify(x, (_k, v) => (v === undefined ? "<undefined>" : v));

function genConfig(rng: Rng): { config: Any; want: Any; reports: number } {
	const config: Any = {};
	const want: Any = {};
	let reports = 0;
	if (rng.bool(0.5)) {
		config.styles = rng.pick(["./a.css", { href: "b.css" }, "c.css", "", { href: "d.css", integrity: "x", crossOrigin: "anonymous" }]);
		want.styles = config.styles;
	}
	if (rng.bool(0.2)) {
		config.globalStyles = rng.pick(["./old.css", { href: "old2.css" }]);
		if (!("styles" in config)) {
			want.styles = config.globalStyles;
			reports += 1;
		}
	}
	if (rng.bool(0.7)) {
		config.renderer = rng.weighted([
			[3, "lit"],
			[3, "ignite-jsx"],
			[1.5, rng.pick(["Lit", "jsx", "", "react", "lit ", "ignite", "constructor"])],
		]);
		const ok = config.renderer === "lit" || config.renderer === "ignite-jsx";
		if (!ok) reports += 1;
		want.renderer = ok ? config.renderer : "lit";
	}
	if (rng.bool(0.5)) want.strategy = config.strategy = rng.pick(["diff", "replace", "custom"]);
	if (rng.bool(0.5)) want.logging = config.logging = rng.pick(["off", "warn", "debug"]);
	if (rng.bool(0.1)) config.unknownOption = { a: 1 };
	const plainly = JSON.parse(JSON.stringify(want)); // not the user's own objects
	if (rng.bool(0.4)) return { config: freeze(config), want: plainly, reports };
	// handed over as it is: nothing in it may be written, added or frozen
	handed.push({ config, was: pictured(config) });
	if (handed.length > 6) handed.shift();
	return { config, want: plainly, reports };
}
const handed: Array<{ config: Any; was: string }> = [];
const pictured = (x: Any): string => (x && typeof x === "object" ? `${Object.isFrozen(x) || !Object.isExtensible(x) ? "F" : ""}{${Reflect.ownKeys(x).map((k) => `${String(k)}:${pictured(x[k])}`).join()}}` : json(x));
function untouched(): void {
	for (const h of handed) if (pictured(h.config) !== h.was) violate(`a configuration passed in as ${h.was} was modified: ${pictured(h.config)}`);
}
const current = () => {
	const c = getIgniteConfig() as Any;
	if (!c) return c;
	const { styles, renderer, strategy, logging } = c;
	return JSON.parse(JSON.stringify({ styles, renderer, strategy, logging }));
};
const plain = (x: Any) => (x === undefined ? undefined : JSON.parse(JSON.stringify({ styles: x.styles, renderer: x.renderer, strategy: x.strategy, logging: x.logging })));
const same = (a: unknown, b: unknown) => json(a) === json(b);

export default suite(async (t) => {
	// Very first: loading a configuration brings its renderer along.
	await t.cases("first-load", 1, async (rng) => {
		const renderer = t.job.shard % 2 ? "lit" : undefined;
		await loadIgniteConfig(async () => ({ default: renderer ? { renderer } : { logging: "off" } }) as Any);
		const name = uniqueName("first");
		withConsole((lines) => {
			const store = observable({ n: rng.int(5) });
			coreMobx({ source: store } as Any)(name, (({ state }: Any) => (renderer === "lit" ? html`<b>${state.n}</b>` : jsx("b", { children: String(state.n) }))) as never);
			const el = document.createElement(name);
			document.body.appendChild(el);
			if (lines.some((l) => /not registered/.test(l.text))) violate(`loading a configuration did not make its renderer available: ${lines[0].text}`);
			if (el.shadowRoot?.querySelector("b")?.textContent !== String(store.n)) violate("the renderer of a loaded configuration does not render", { html: el.shadowRoot?.innerHTML });
			el.remove();
		});
		t.observe("first-loads");
		t.distinct(`first/${renderer}`);
	});
	registerRenderStrategy("lit", createLitRenderStrategy as never);

	await t.cases("define", t.scale(1500, 20000), (rng, _i, c) => {
		if (rng.bool(0.3)) forget();
		const { config, want, reports } = genConfig(rng);
		c.note(config);
		let got: Any;
		const lines = withConsole((ls) => {
			got = defineIgniteConfig(config);
			return [...ls];
		});
		t.observe("configurations");
		untouched();
		if (!same(plain(got), plain(want))) violate(`defining ${json(config)} returned ${json(got)}, expected ${json(want)}`);
		if (!same(current(), plain(want))) violate(`after defining ${json(config)} the configuration in force is ${json(getIgniteConfig())}, expected ${json(want)}`);
		if ("styles" in want && !same(getGlobalStyles(), want.styles)) violate(`after defining ${json(config)} the stylesheet in force is ${json(getGlobalStyles())}`);
		const said = lines.filter((l) => l.level === "warn" || l.level === "error").length;
		if (said !== reports) violate(`${json(config)} was reported ${said} time(s), expected ${reports}: ${lines.map((l) => l.text).join(" | ")}`);
		t.distinct(json(config));
	});

	await t.cases("load", t.scale(500, 6000), async (rng, _i, c) => {
		forget();
		const before = genConfig(rng);
		if (rng.bool(0.7)) withConsole(() => defineIgniteConfig(before.config));
		const was = current();
		const { config, want } = genConfig(rng);
		const form = rng.pick(["default", "direct", "namespace", "empty-default", "null-default", "fn-default", "string-default", "null", "undefined", "number", "string", "reject", "throw", "concurrent"]);
		c.note({ form, config });
		t.distinct(`${form}/${json(config)}/${json(was)}`);
		t.observe("loads");
		untouched();
		const run = async (f: () => unknown): Promise<{ value?: Any; error?: unknown }> => {
			try {
				return { value: await withConsole(() => loadIgniteConfig(f as Any)) };
			} catch (error) {
				return { error };
			}
		};
		const good: Record<string, () => unknown> = {
			default: async () => ({ default: config }),
			direct: async () => config,
			namespace: async () => Object.freeze({ __esModule: true, default: config, other: 1 }),
		};
		if (form === "concurrent") {
			// the load that finishes last decides
			const second = genConfig(rng);
			let release!: (v: unknown) => void;
			const slow = run(() => new Promise((r) => (release = r)));
			await run(async () => ({ default: second.config }));
			if (!same(current(), plain(second.want))) violate("a finished load is not in force while another is pending");
			release({ default: config });
			await slow;
			if (!same(current(), plain(want))) violate(`the last load to finish gave ${json(want)}, in force is ${json(getIgniteConfig())}`);
			return;
		}
		if (good[form]) {
			const r = await run(good[form]);
			if (r.error) violate(`loading a ${form} module failed: ${String(r.error)}`);
			if (!same(plain(r.value), plain(want))) violate(`loading a ${form} module of ${json(config)} returned ${json(r.value)}, expected ${json(want)}`);
			if (!same(current(), plain(want))) violate(`after loading a ${form} module of ${json(config)} the configuration in force is ${json(getIgniteConfig())}`);
			return;
		}
		const boom = new Error("config failed");
		const bad: Record<string, () => unknown> = {
			"empty-default": async () => ({ default: undefined }),
			"null-default": async () => ({ default: null }),
			"fn-default": async () => ({ default: () => config }),
			"string-default": async () => ({ default: "x" }),
			null: async () => null,
			undefined: async () => undefined,
			number: async () => 7,
			string: async () => "styles",
			reject: async () => {
				throw boom;
			},
			throw: () => {
				throw boom;
			},
		};
		const r = await run(bad[form]);
		t.observe("loads-without-config");
		if (form === "reject" || form === "throw") {
			if (r.error !== boom) violate(`a loader that failed was reported as ${String(r.error)}`);
		} else {
			if (r.error) violate(`loading a module without a configuration (${form}) threw ${String(r.error)}`);
			if (r.value !== undefined) violate(`loading a module without a configuration (${form}) returned ${json(r.value)}`);
		}
		if (!same(current(), was)) violate(`a load without a configuration (${form}) changed the configuration from ${json(was)} to ${json(getIgniteConfig())}`);
	});

	// Which renderer draws what.
	await t.cases("select", t.scale(250, 4000), (rng, _i, c) => {
		clearRegisteredRenderStrategiesForTests();
		const litThere = rng.bool(0.8);
		// strategies nobody configured, registered before and after the ones that are
		const strangers = rng.sample(["ignite", "jsx", "Lit", "default", ""], rng.int(4));
		const stranger = (n: string) =>
			registerRenderStrategy(n, (() => ({
				attach(root: ShadowRoot) {
					root.append(`a strategy registered as "${n}"`);
				},
				render() {},
			})) as never);
		const rest: Array<() => void> = [() => registerRenderStrategy("ignite-jsx", createIgniteJsxRenderStrategy as never), ...strangers.map((n) => () => stranger(n))];
		if (litThere) rest.push(() => registerRenderStrategy("lit", createLitRenderStrategy as never));
		for (const f of rng.shuffle(rest)) f();
		forget();
		drainReported();
		type D = { name: string; used: "lit" | "ignite-jsx"; store: Any };
		const defs: D[] = [];
		const els: Array<{ el: HTMLElement; d: D; mode: string; node: Element | null }> = [];
		let mode = "diff";
		let renderer = "ignite-jsx";
		const trace: string[] = [];
		let pending: { register: Any; store: Any; used: "lit" | "ignite-jsx" } | null = null;
		const make = (): { register: Any; store: Any; used: "lit" | "ignite-jsx" } => {
			const used: "lit" | "ignite-jsx" = renderer === "lit" && litThere ? "lit" : "ignite-jsx";
			const store = observable({ n: 0, bump: action(function (this: Any) {
				this.n++;
			}) }) as Any;
			const register = withConsole((lines) => {
				const r = coreMobx({ source: store } as Any) as Any;
				if (renderer === "lit" && !litThere && !lines.some((l) => l.level === "warn")) violate("falling back to another renderer was not reported");
				if (used === renderer && lines.length) violate(`defining a component wrote "${lines[0].text}"`);
				return r;
			});
			return { register, store, used };
		};
		for (let s = rng.range(5, 25); s > 0; s--) {
			const what = rng.pick(["config", "config", "define", "define", "core", "later", "create", "create", "bump", "bump"]);
			switch (what) {
				case "config": {
					const cfg: Any = { logging: "off" };
					renderer = "ignite-jsx";
					mode = "diff";
					if (rng.bool(0.75)) renderer = cfg.renderer = rng.pick(["lit", "ignite-jsx"]);
					if (rng.bool(0.6)) mode = cfg.strategy = rng.pick(["diff", "replace"]);
					defineIgniteConfig(cfg);
					break;
				}
				case "core":
					pending = make();
					break;
				case "define":
				case "later": {
					const p: ReturnType<typeof make> | null = what === "later" ? pending : make();
					if (!p) continue;
					const name = uniqueName("sel");
					const d: D = { name, used: p.used, store: p.store };
					p.register(name, ({ state }: Any) => (d.used === "lit" ? html`<b class="lit">${state.n}</b>` : jsx("b", { class: "jsx", children: String(state.n) })));
					defs.push(d);
					break;
				}
				case "create": {
					if (!defs.length) continue;
					const d = rng.pick(defs);
					const el = document.createElement(d.name) as HTMLElement;
					document.body.appendChild(el);
					els.push({ el, d, mode, node: null });
					break;
				}
				case "bump":
					for (const d of defs) if (rng.bool(0.6)) d.store.bump();
					break;
			}
			trace.push(what);
			c.note([what, renderer, mode]);
			for (const e of drainReported()) violate(`after ${what}: ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
			for (const e of els) {
				t.observe("elements-inspected");
				const b = e.el.shadowRoot?.querySelector("b");
				const all = e.el.shadowRoot?.textContent;
				if (!b || b.textContent !== String(e.d.store.n) || all?.trim() !== String(e.d.store.n) || b.className !== (e.d.used === "lit" ? "lit" : "jsx")) violate(`after ${trace.join(" ")}: a component defined for ${e.d.used} shows ${e.el.shadowRoot?.innerHTML}`);
				// the update strategy in force when the element was created shows in node identity
				if (e.d.used === "ignite-jsx" && e.node && e.mode === "diff" && e.node !== b) violate("an element created under diffing had its unchanged element re-created");
				if (e.d.used === "ignite-jsx" && e.node && e.mode === "replace" && e.node === b && (e as Any).n !== e.d.store.n) violate("an element created under replacement kept its element across a render");
				e.node = b;
				(e as Any).n = e.d.store.n;
			}
		}
		t.distinct(`${litThere}/${strangers}/${trace.join()}`);
		for (const e of els) e.el.remove();
	});
	registerRenderStrategy("lit", createLitRenderStrategy as never);
});
