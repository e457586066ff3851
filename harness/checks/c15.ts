// C15: the configured stylesheet is linked exactly once in every shadow root,
// ahead of the content, whatever renders, removals and configuration orders happen.
import { defineIgniteConfig, loadIgniteConfig, setGlobalStyles } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import { igniteCore as coreMobx } from "@repo/src/mobx";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { html } from "lit-html";
import { action, observable } from "mobx";
import { drainReported, type Rng, suite, uniqueName, violate, withConsole } from "../lib/core";

type Any = any;
type Style = string | { href: string; integrity?: string; crossOrigin?: string };
const FILES = ["./theme.css", "/assets/app.css", "https://cdn.example.com/a.css?v=1", "a.scss", "/x/y.scss#frag", "sub/ünï.css", "./t.css?x=1#y", "http://localhost/deep/er/z.css"];
const BAD = ["not-a-stylesheet", "./theme.less", "theme.css.map", "/css", "a.css/b", "x.js?f=a.css", "x#a.css"];
function genStyle(rng: Rng): Style {
	if (rng.bool(0.55)) return rng.pick(FILES);
	const o: Style = { href: rng.pick([...FILES, "/styles/no-extension", "https://cdn.example.com/css2?family=A"]) };
	if (rng.bool()) o.integrity = rng.pick(["sha384-abc", "sha256-xyz"]);
	if (rng.bool()) o.crossOrigin = rng.pick(["anonymous", "use-credentials"]);
	return o;
}
const wanted = (s: Style) => (typeof s === "string" ? [s, null, null] : [s.href, s.integrity ?? null, s.crossOrigin ?? null]);
// jsdom does not reflect `integrity`: accept the attribute or the property.
const given = (l: Element) => [l.getAttribute("href"), l.getAttribute("integrity") || (l as Any).integrity || null, l.getAttribute("crossorigin") || (l as Any).crossOrigin || null];

type El = { el: HTMLElement; renderer: string; want: Style | null | "unknown"; link: Element | null; ever: boolean };

export default suite(async (t) => {
	const gc = (globalThis as Any).gc as () => void;
	await t.cases("history", t.scale(170, 3000), async (rng, i, c) => {
		const store = observable({ n: 0, bump: action(function (this: Any) {
			this.n++;
		}) }) as Any;
		setGlobalStyles(undefined);
		defineIgniteConfig({ logging: "off" });
		let current: Style | null | "bad" = null;
		const tags: Array<{ name: string; renderer: string }> = [];
		const els: El[] = [];
		const headBefore = document.head.innerHTML;
		const own = rng.bool(0.4);
		for (const renderer of ["ignite-jsx", "lit"] as const) {
			defineIgniteConfig({ renderer, strategy: rng.pick(["diff", "replace"]), logging: "off" });
			for (const scope of ["shared", "own"] as const) {
				const name = uniqueName("styled");
				const source = scope === "shared" ? store : () => observable({ n: 0, bump: action(function (this: Any) {
					this.n++;
				}) });
				coreMobx({ source } as Any)(name, (({ state }: Any) => {
					const n = state.n;
					if (renderer === "lit") return n % 3 === 2 ? html`<p>${n}</p>` : own ? html`<link rel="stylesheet" href="mine.css" /><b>${n}</b>` : html`<b>${n}</b><i>${n}</i>`;
					return n % 3 === 2 ? jsx("p", { children: String(n) }) : jsxs("div", { children: [own ? jsx("link", { rel: "stylesheet", href: "mine.css" }) : null, jsx("b", { children: String(n) })] });
				}) as never);
				tags.push({ name, renderer });
			}
		}
		const judge = (after: string) => {
			for (const e of drainReported()) violate(`after ${after}: ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
			for (const [k, e] of els.entries()) {
				const root = e.el.shadowRoot as ShadowRoot;
				const links = [...root.children].filter((x) => x.localName === "link" && x.getAttribute("href") !== "mine.css");
				const all = [...root.querySelectorAll("link")].filter((x) => x.getAttribute("href") !== "mine.css");
				t.observe("roots-inspected");
				if (e.want === "unknown") {
					if (all.length > 1) violate(`after ${after}: element ${k} (${e.renderer}) carries ${all.length} stylesheet links`);
					continue;
				}
				const n = e.want ? 1 : 0;
				if (all.length !== n || links.length !== n) violate(`after ${after}: element ${k} (${e.renderer}) carries ${all.length} stylesheet link(s), expected ${n} to ${JSON.stringify(e.want)}`, { html: root.innerHTML });
				if (!e.want) continue;
				const link = links[0];
				if (link.getAttribute("rel") !== "stylesheet" || JSON.stringify(given(link)) !== JSON.stringify(wanted(e.want))) violate(`after ${after}: element ${k}'s link is ${link.outerHTML}, configured ${JSON.stringify(e.want)}`);
				if (e.link && e.link !== link) violate(`after ${after}: element ${k}'s stylesheet link was replaced`);
				e.link = link;
				for (let x = link.previousSibling; x; x = x.previousSibling) if (x.nodeType === 1) violate(`after ${after}: element ${k}'s stylesheet comes after rendered content`, { html: root.innerHTML });
				if (e.el.isConnected && e.ever && !root.textContent?.match(/\d/)) violate(`after ${after}: element ${k} lost its content`, { html: root.innerHTML });
			}
			if (document.head.innerHTML !== headBefore || document.querySelector("body link")) violate(`after ${after}: a stylesheet was added to the page itself`);
		};
		let waiting = false;
		const trace: string[] = [];
		for (let s = rng.range(8, 30); s > 0; s--) {
			const live = els.filter((e) => e.el.isConnected);
			const what = rng.pick(["create", "create", "create", "parse", "define", "set", "load", "load-none", "bump", "bump", "remove", "insert", "move", "unset", "bad", "force", "gc"]);
			let label: string = what;
			switch (what) {
				case "create":
				case "parse": {
					if (els.length >= 8) continue;
					const tag = rng.pick(tags);
					const lines: string[] = [];
					let el!: HTMLElement;
					withConsole((ls) => {
						if (what === "create") el = document.createElement(tag.name) as HTMLElement;
						else {
							document.body.insertAdjacentHTML("beforeend", `<${tag.name}></${tag.name}>`);
							el = document.body.lastElementChild as HTMLElement;
						}
						for (const l of ls) lines.push(l.text);
					});
					if (current === "bad") {
						t.observe("bad-paths");
						if (!lines.some((x) => /style/i.test(x))) violate("a path that is no stylesheet was not reported");
						if (el.shadowRoot?.querySelector("link:not([href='mine.css'])")) violate("a path that is no stylesheet was linked", { html: el.shadowRoot.innerHTML });
					}
					if (current === null) waiting = true;
					els.push({ el, renderer: tag.renderer, want: current === "bad" ? "unknown" : current, link: null, ever: what === "parse" });
					break;
				}
				case "define":
				case "set": {
					const st = genStyle(rng);
					if (what === "set") setGlobalStyles(st);
					else if (rng.bool(0.8)) defineIgniteConfig({ styles: st, logging: "off", renderer: rng.pick(["lit", "ignite-jsx"]) });
					else withConsole(() => defineIgniteConfig({ globalStyles: st, logging: "off" }));
					current = st;
					label += JSON.stringify(st);
					break;
				}
				case "load": {
					const st = genStyle(rng);
					const cfg = { styles: st, logging: "off" as const };
					await loadIgniteConfig(async () => (rng.bool() ? { default: cfg } : cfg));
					current = st;
					for (const e of els) if (e.want === null) {
						e.want = st;
						t.observe("late-links");
					}
					waiting = false;
					label += JSON.stringify(st);
					break;
				}
				case "load-none": {
					// loading a configuration without styles changes no styles, but delivers
					// the ones set meanwhile
					if (current === "bad") continue;
					await loadIgniteConfig(async () => ({ default: { logging: "off" as const } }));
					if (current) {
						for (const e of els) if (e.want === null) {
							e.want = current;
							t.observe("late-links");
						}
						waiting = false;
					}
					break;
				}
				case "unset":
					setGlobalStyles(rng.pick([undefined, ""]) as Any);
					current = null;
					break;
				case "bad": {
					const b = rng.pick(BAD);
					setGlobalStyles(b);
					current = "bad";
					label += b;
					break;
				}
				case "bump":
					store.bump();
					for (const e of live) if (rng.bool(0.3)) e.el.dispatchEvent(new CustomEvent("send", { detail: { type: "bump" } }));
					break;
				case "remove":
					if (live.length) rng.pick(live).el.remove();
					break;
				case "insert":
				case "move":
					if (els.length) {
						const e = rng.pick(els);
						document.body.appendChild(e.el);
						e.ever = true;
					}
					break;
				case "force":
					for (const e of live) (e.el as Any).forceRender();
					break;
				case "gc":
					if (rng.bool(0.3)) {
						await new Promise((r) => setTimeout(r, 0));
						gc();
					}
					break;
			}
			trace.push(label);
			c.note(label);
			judge(label);
		}
		void waiting;
		t.distinct(trace.join(" "));
		t.sample(trace);
		for (const e of els) e.el.remove();
		setGlobalStyles(undefined);
	});

	// A whole page of elements waiting for one configuration file.
	await t.cases("crowd", t.scale(6, 60), async (rng, _i, c) => {
		setGlobalStyles(undefined);
		defineIgniteConfig({ logging: "off", renderer: rng.pick(["lit", "ignite-jsx"]) } as Any);
		const name = uniqueName("crowd");
		const lit = rng.bool();
		defineIgniteConfig({ logging: "off", renderer: lit ? "lit" : "ignite-jsx" } as Any);
		coreMobx({ source: observable({ n: 1 }) } as Any)(name, (({ state }: Any) => (lit ? html`<b>${state.n}</b>` : jsx("b", { children: String(state.n) }))) as never);
		const many = rng.range(60, 320);
		const box = document.body.appendChild(document.createElement("div"));
		const all = Array.from({ length: many }, () => {
			const el = document.createElement(name);
			if (rng.bool(0.8)) box.appendChild(el);
			return el;
		});
		for (const el of rng.sample(all, rng.int(9))) el.remove();
		const st = genStyle(rng);
		await loadIgniteConfig(async () => ({ default: { styles: st, logging: "off" as const } }));
		c.note({ many, lit, st });
		for (const [k, el] of all.entries()) {
			const links = [...(el.shadowRoot as ShadowRoot).querySelectorAll("link")];
			t.observe("late-links");
			t.observe("roots-inspected");
			if (links.length !== 1 || JSON.stringify(given(links[0])) !== JSON.stringify(wanted(st))) violate(`of ${many} waiting elements, number ${k} carries ${links.length} link(s) after ${JSON.stringify(st)} was loaded`);
		}
		t.distinct(`crowd/${many}/${JSON.stringify(st)}`);
		box.remove();
	});
});
