// C04: how an element updates (diff, replace, the opt-outs) never changes what it
// shows; opting out really re-creates, and logging says so only when asked to.
import { configureStore } from "@reduxjs/toolkit";
import { defineIgniteConfig } from "@repo/src/index";
import { igniteCore } from "@repo/src/redux";
import { createIgniteJsxRenderStrategy } from "@repo/src/renderers/ignite-jsx";
import { clearNoDiffDenylistForTests, registerNoDiffDenylistTag } from "@repo/src/renderers/jsx/noDiffDenylist";
import { suite, uniqueName, violate, withConsole, type ConsoleLine } from "../lib/core";
import { canon, compareSelectState, defineChild, describeSpec, editView, firstDiff, genOptions, genView, hoistJsx, type Spec, specSignature, toJsx } from "../lib/view";

type Mode = "diff" | "replace" | "unknown-strategy" | "nodiff-attr" | "hydrated-attr" | "denylisted-host" | "denylisted-inner" | "flag-off";
const MODES: Mode[] = ["diff", "replace", "unknown-strategy", "nodiff-attr", "hydrated-attr", "denylisted-host", "denylisted-inner", "flag-off"];
const RECREATES: Mode[] = ["replace", "nodiff-attr", "hydrated-attr", "denylisted-host", "flag-off"];

type Live = { mode: Mode; host: HTMLElement; render: (s: Spec) => ConsoleLine[]; content: () => Element };

function open(mode: Mode, logging: string, prerendered = false): Live {
	defineIgniteConfig({ renderer: "ignite-jsx", strategy: mode === "replace" ? "replace" : mode === "unknown-strategy" ? "turbo" : "diff", logging } as never);
	const tag = mode === "denylisted-host" ? uniqueName("deny") : "div";
	if (mode === "denylisted-host") registerNoDiffDenylistTag(tag);
	const host = document.createElement(tag);
	if (mode === "nodiff-attr") host.setAttribute("data-ignite-nodiff", "");
	if (mode === "hydrated-attr") host.setAttribute("data-ignite-hydrated", "");
	document.body.appendChild(host);
	const shadow = host.attachShadow({ mode: "open" });
	// content rendered on a server, or by another strategy, is taken over
	if (prerendered) shadow.innerHTML = '<ignite-jsx-root data-ignite-jsx-root=""><b id="stale">stale</b></ignite-jsx-root>';
	if (mode === "flag-off") process.env.IGNITE_DIFF_ENABLED = "false";
	const strategy = createIgniteJsxRenderStrategy();
	delete process.env.IGNITE_DIFF_ENABLED;
	strategy.attach(shadow);
	return {
		mode,
		host,
		content: () => shadow.querySelector("[data-ignite-jsx-root]") as Element,
		render: (s) => withConsole((lines) => {
			// inner denylisting is global, so it is switched on for its own renders only
			if (mode === "denylisted-inner") for (const x of ["p", "UL", "g", "input"]) registerNoDiffDenylistTag(x);
			try {
				strategy.render(toJsx(s) as never);
			} finally {
				if (mode === "denylisted-inner") clearNoDiffDenylistForTests();
			}
			return lines;
		}),
	};
}

export default suite(async (t) => {
	defineChild();
	await t.cases("modes", t.scale(260, 4000), (rng, _i, c) => {
		clearNoDiffDenylistForTests();
		const o = genOptions(rng, { maxDepth: rng.range(1, 4), maxKids: rng.range(1, 4) });
		compareSelectState(o.select !== "free");
		hoistJsx(rng.bool(0.4));
		const logging = rng.pick(["off", "off", "warn", "debug", "verbose"]);
		const lives = MODES.map((m) => open(m, logging, rng.bool(0.15)));
		let view = genView(rng, o);
		const sigs: string[] = [];
		const steps = rng.range(2, 8);
		for (let s = 0; s < steps; s++) {
			c.log.length = 0;
			c.note({ previous: describeSpec(view) });
			if (s > 0 && rng.bool(0.9)) view = editView(rng, view, o);
			c.note({ view: describeSpec(view), logging });
			sigs.push(specSignature(view));
			let first: ReturnType<typeof canon> | null = null;
			for (const l of lives) {
				const old = Array.from(l.content().querySelectorAll("*"));
				const oldSet = new Set<Node>(old);
				if (l.mode === "denylisted-host") registerNoDiffDenylistTag(l.host.localName);
				const lines = l.render(view);
				const roots = (l.host.shadowRoot as ShadowRoot).querySelectorAll("[data-ignite-jsx-root]").length;
				if (roots !== 1) violate(`mode ${l.mode} shows ${roots} content roots`);
				const now = canon(l.content());
				if (!first) first = now;
				const d = firstDiff(now, first);
				if (d) violate(`mode ${l.mode} shows something else than diff mode at ${d}`, { html: l.content().innerHTML });
				t.observe("mode-renders");
				const mine = lines.filter((x) => /replace/i.test(x.text));
				if (RECREATES.includes(l.mode) && s > 0) {
					const stale = Array.from(l.content().querySelectorAll("*")).filter((e) => oldSet.has(e));
					if (stale.length) violate(`mode ${l.mode} kept <${stale[0].localName}> across renders although updating in place is switched off`);
					t.observe("full-replacements");
					if (logging === "warn" && !mine.some((x) => x.level === "warn")) violate(`mode ${l.mode} with logging "warn" replaced silently`);
					if (logging === "debug" && !mine.some((x) => x.level === "debug")) violate(`mode ${l.mode} with logging "debug" replaced silently`);
				}
				if (l.mode === "denylisted-inner" && s > 0) {
					for (const e of Array.from(l.content().querySelectorAll("p,ul,g,input"))) {
						t.observe("denylisted-nodes");
						if (oldSet.has(e)) violate(`<${e.localName}> is on the no-diff list but was updated in place`);
					}
				}
				if ((logging === "off" || logging === "verbose") && lines.length) violate(`logging ${logging} but mode ${l.mode} wrote ${JSON.stringify(lines[0])}`);
				if (logging === "warn" && mine.some((x) => x.level !== "warn")) violate(`logging "warn" but mode ${l.mode} logged at ${mine.map((x) => x.level)}`);
				if (logging === "debug" && mine.some((x) => x.level !== "debug")) violate(`logging "debug" but mode ${l.mode} logged at ${mine.map((x) => x.level)}`);
				if (l.mode === "diff" && s > 0 && sigs[s] === sigs[s - 1] && c.log.length && JSON.stringify(describeSpec(view)) === JSON.stringify((c.log[0] as { previous: unknown }).previous) && mine.length) violate("an unchanged view was reported as a replacement");
			}
		}
		t.distinct(`${logging}/${sigs.join("→")}`);
		t.sample({ logging, last: describeSpec(view) });
		for (const l of lives) l.host.remove();
		clearNoDiffDenylistForTests();
	});

	// The opt-outs on real components, whichever way the element comes to be: built
	// by script, parsed, upgraded, cloned, or rendered by another view.
	const WAYS = ["script", "parsed", "upgraded", "cloned", "parsed-whole", "late"] as const;
	const OPT_OUTS = ["none", "data-ignite-nodiff", "data-ignite-hydrated", "both", "tag"] as const;
	await t.cases("components", t.scale(120, 2000), (rng, _i, c) => {
		clearNoDiffDenylistForTests();
		const o = genOptions(rng, { maxDepth: rng.range(1, 3), maxKids: rng.range(1, 3) });
		compareSelectState(o.select !== "free");
		hoistJsx(rng.bool(0.3));
		const logging = rng.pick(["off", "off", "warn", "debug"]);
		defineIgniteConfig({ renderer: "ignite-jsx", logging } as never);
		const way = rng.pick(WAYS);
		const optOut = rng.pick(OPT_OUTS);
		const views: Spec[] = [genView(rng, o)];
		const steps = rng.range(2, 6);
		for (let s = 1; s < steps; s++) views.push(editView(rng, views[s - 1], o));
		const tag = uniqueName("opt");
		const plain = uniqueName("opt");
		c.note({ way, optOut, logging, views: views.map(describeSpec) });
		const store = configureStore({ reducer: (n: number = 0, a: { type: string }) => (a.type === "next" ? n + 1 : n) });
		const component = igniteCore({ source: store as never }) as unknown as (tag: string, view: (p: { state: number }) => unknown) => void;
		const view = ({ state }: { state: number }) => toJsx(views[state]);
		const attrs = optOut === "both" ? ["data-ignite-nodiff", "data-ignite-hydrated"] : optOut === "none" || optOut === "tag" ? [] : [optOut];
		const html = `<${tag} ${attrs.map((a) => `${a}=""`).join(" ")}></${tag}>`;
		const box = document.createElement("div");
		document.body.appendChild(box);
		if (optOut === "tag") registerNoDiffDenylistTag(rng.bool() ? tag : tag.toUpperCase());
		const lines = withConsole((seen) => {
			if (way === "upgraded") box.innerHTML = html;
			component(tag, view);
			component(plain, view);
			if (way === "script" || way === "cloned") {
				const el = document.createElement(tag);
				for (const a of attrs) el.setAttribute(a, "");
				box.appendChild(way === "cloned" ? el.cloneNode(false) : el);
			} else if (way === "parsed") box.innerHTML = html;
			else if (way === "late") {
				// opted out once it is already on the page
				const el = document.createElement(tag);
				box.appendChild(el);
				for (const a of attrs) el.setAttribute(a, "");
			} else if (way === "parsed-whole") {
				const host = document.createElement("template");
				host.innerHTML = html;
				box.appendChild(document.importNode(host.content, true));
			}
			return seen;
		});
		const el = box.firstElementChild as HTMLElement;
		const other = document.createElement(plain);
		withConsole(() => box.appendChild(other));
		const content = (e: HTMLElement) => e.shadowRoot?.querySelector("[data-ignite-jsx-root]") as Element;
		for (let s = 0; s < steps; s++) {
			const old = new Set<Node>(Array.from(content(el).querySelectorAll("*")));
			let said: ConsoleLine[] = lines;
			if (s > 0) said = withConsole((seen) => (store.dispatch({ type: "next" }), seen));
			const d = firstDiff(canon(content(el)), canon(content(other)));
			if (d) violate(`an element opted out by ${optOut} (${way}) shows something else than one that is not, at ${d}`, { html: content(el).innerHTML });
			t.observe("component-renders");
			if (logging === "off" && said.length) violate(`logging off but ${JSON.stringify(said[0])} was written`);
			if (optOut === "none" || s === 0) continue;
			const stale = Array.from(content(el).querySelectorAll("*")).filter((e) => old.has(e));
			if (stale.length) violate(`<${tag}> (${way}) is opted out of diffing by ${optOut} but kept <${stale[0].localName}> across renders`);
			const level = logging === "off" ? null : logging;
			if (level && !said.some((x) => x.level === level && /replace/i.test(x.text))) violate(`<${tag}> (${way}), opted out by ${optOut}, replaced silently with logging "${logging}"`);
			t.observe("component-replacements");
		}
		t.distinct(`${way}/${optOut}/${logging}/${views.map(specSignature).join("→")}`);
		t.sample({ way, optOut, logging, last: describeSpec(views[steps - 1]) });
		withConsole(() => box.remove());
		clearNoDiffDenylistForTests();
	});
});
