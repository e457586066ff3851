// C01: after any sequence of renders the DOM is exactly what the last view says.
import { suite, violate } from "../lib/core";
import { newRoot } from "../lib/root";
import { canon, compareSelectState, defineChild, describeSpec, editView, firstDiff, genOptions, genView, hoistJsx, lookalike, referenceRender, type Spec, specSignature, toJsx } from "../lib/view";

export default suite(async (t) => {
	defineChild();
	await t.cases("sequence", t.scale(900, 12000), (rng, _i, c) => {
		const o = genOptions(rng);
		compareSelectState(o.select !== "free");
		hoistJsx(rng.bool(0.3));
		const live = newRoot();
		let view: Spec = genView(rng, o);
		const earlier: Spec[] = [];
		const steps = rng.weighted([
			[6, rng.range(2, 6)],
			[2, rng.range(7, 20)],
			[0.3, 60],
		]);
		const sigs: string[] = [];
		for (let s = 0; s < steps; s++) {
			c.log.length = 0;
			if (s > 0) {
				const prev = view;
				view = earlier.length && rng.bool(0.12) ? rng.pick(earlier) : editView(rng, view, o);
				c.note({ previous: describeSpec(prev) });
			}
			earlier.push(view);
			c.note({ step: s, view: describeSpec(view) });
			const jsxView = toJsx(view);
			live.strategy.render(jsxView as never);
			if (rng.bool(0.1)) live.strategy.render(jsxView as never);
			const ref = document.createElement("div");
			referenceRender(ref, view);
			const got = canon(live.content());
			const want = canon(ref);
			const d = firstDiff(got, want);
			if (d) violate(`after render #${s} the DOM differs from the current view at ${d}`, { d, html: live.content().innerHTML });
			t.observe("renders");
			t.observe("nodes", live.content().querySelectorAll("*").length);
			sigs.push(specSignature(view));
		}
		// ... and from what a fresh render of the last view gives.
		const fresh = newRoot();
		fresh.strategy.render(toJsx(view) as never);
		const d2 = firstDiff(canon(live.content()), canon(fresh.content()));
		if (d2) violate(`re-rendered DOM differs from a fresh render of the same view at ${d2}`);
		t.observe("fresh-comparisons");
		if (steps > 1 && sigs.some((x) => x.includes("{"))) t.distinct(sigs.join("→"));
		t.sample({ steps, first: describeSpec(earlier[0]), last: describeSpec(view) });
		live.host.remove();
		fresh.host.remove();
	});

	// Shorthands: jsdom's CSSOM does not remove them as browsers do, so the shorthand
	// stays declared throughout, first; only the longhands after it come and go.
	const families: [string, string[], string[]][] = [
		["margin", ["marginTop", "marginRight", "marginBottom", "marginLeft"], ["1px", "2px 3px", "0px"]],
		["padding", ["paddingTop", "paddingRight", "paddingBottom", "paddingLeft"], ["1px", "4px 5px", "0px"]],
	];
	const kebab = (k: string) => k.replace(/[A-Z]/g, (m) => `-${m.toLowerCase()}`);
	await t.cases("shorthands", t.scale(80, 1500), (rng, _i, c) => {
		const [short, longs, values] = rng.pick(families);
		const live = newRoot();
		let style: Record<string, unknown> = {};
		for (let s = 0; s < rng.range(3, 7); s++) {
			const entries: [string, unknown][] = [[short, s > 0 && rng.bool(0.6) ? style[short] : rng.pick(values)]];
			for (const long of longs) if (rng.bool(0.3)) entries.push([long, style[long] ?? rng.pick(["7px", "9px"])]);
			style = Object.fromEntries(entries);
			c.note({ step: s, style });
			live.strategy.render(toJsx({ t: "el", tag: "div", props: { style }, kids: [] }) as never);
			const ref = document.createElement("div");
			for (const [k, v] of Object.entries(style)) ref.style.setProperty(kebab(k), String(v));
			const el = live.content().firstElementChild as HTMLElement;
			for (const long of longs) {
				const got = el.style.getPropertyValue(kebab(long));
				const want = ref.style.getPropertyValue(kebab(long));
				if (got !== want) violate(`after render #${s} ${long} is ${JSON.stringify(got)}, the view's style ${JSON.stringify(style)} gives ${JSON.stringify(want)}`);
			}
			t.observe("shorthand-renders");
		}
		live.host.remove();
	});

	// Elements and properties a page is made of: whatever was declared before, the
	// element carries what the current view declares and nothing else.
	const text = ["x", "y", "two words", ""];
	const num = [1, 2, 7];
	const on = [true, false];
	const some = (...names: string[]) => Object.fromEntries(names.map((n) => [n, text]));
	const common: Record<string, unknown[]> = { ...some("ariaLabel", "ariaDescription", "ariaRoleDescription", "title", "lang", "id", "accessKey", "unknown-attr", "data-n"), ariaHidden: ["true", "false"], ariaExpanded: ["true", "false"], ariaCurrent: ["page", "step"], ariaValueNow: ["1", "5"], ariaLive: ["polite", "assertive"], hidden: on, dir: ["ltr", "rtl", "x", ""], tabIndex: [0, 1, 5] };
	const pages: Record<string, Record<string, unknown[]>> = {
		meta: { httpEquiv: ["refresh", "x-ua-compatible"], ...some("content", "name", "media"), charset: ["utf-8"] },
		link: { rel: ["icon", "preload", "alternate"], as: ["image", "font"], hreflang: ["en", "de"], media: text, crossOrigin: ["anonymous", "use-credentials"] },
		a: { hreflang: ["en", "de"], ...some("target", "rel", "download", "ping", "type"), referrerPolicy: ["no-referrer", "origin"] },
		video: { controls: on, loop: on, autoplay: on, playsInline: on, preload: ["none", "metadata"], poster: ["/p.png", "/q.png"], crossOrigin: ["anonymous", "use-credentials"], width: num, height: num },
		dialog: { open: on },
		output: { htmlFor: ["i1", "i1 i2"], name: text },
		label: { htmlFor: ["i1", "i2"] },
		form: { acceptCharset: ["utf-8", "latin1"], noValidate: on, enctype: ["multipart/form-data", "text/plain"], method: ["get", "post"], target: text, autocomplete: ["on", "off"] },
		blockquote: { cite: ["/c", "/d"] },
		q: { cite: ["/c", "/d"] },
		del: { cite: ["/c"], dateTime: ["2020-01-01", "2021-01-01"] },
		th: { scope: ["row", "col", "x", ""], abbr: text, colSpan: num, rowSpan: num, headers: text },
		img: { srcset: ["/a.png 2x", "/b.png 2x"], sizes: ["1px", "2px"], useMap: ["#m", "#n"], isMap: on, loading: ["lazy", "eager"], decoding: ["async", "sync"], alt: text, width: num, referrerPolicy: ["no-referrer", "origin"] },
		input: { min: ["1", "2"], max: ["8", "9"], step: ["1", "0.5"], multiple: on, accept: ["image/*", ".pdf"], autofocus: on, formNoValidate: on, formTarget: text, dirName: text, minLength: num, placeholder: text, defaultChecked: on },
		textarea: { cols: num, rows: num, wrap: ["hard", "soft"], minLength: num, maxLength: [9, 20], dirName: text },
		button: { formNoValidate: on, formTarget: text, formMethod: ["get", "post"], formEnctype: ["text/plain", "multipart/form-data"], disabled: on },
		progress: { value: [0, 1, 3, 5], max: [1, 2, 9] },
		meter: { value: [0, 1, 3, 5], max: [1, 2, 9], min: [0, 1], low: [0, 1, 3], high: [1, 3], optimum: [1, 3] },
		ol: { start: num, reversed: on, type: ["a", "i"] },
		optgroup: { label: text, disabled: on },
		iframe: { name: text, width: ["1", "2"], allowFullscreen: on, loading: ["lazy", "eager"], referrerPolicy: ["no-referrer", "origin"] },
		track: { kind: ["captions", "chapters"], srclang: ["en", "de"], label: text, default: on },
		slot: { name: text },
		canvas: { width: num, height: num },
		col: { span: num },
		data: { value: text },
		details: { open: on, name: text },
		map: { name: text },
		area: { alt: text, coords: text, shape: ["rect", "circle"], target: text },
		source: { media: text, sizes: text, type: text },
		object: { data: ["/o"], type: text, useMap: ["#m"], width: ["1", "2"] },
		table: {},
		menu: {},
		"x-plain": {},
	};
	const carried = (e: Element) => JSON.stringify(Array.from(e.attributes, (a) => [a.name, a.value]).sort());
	await t.cases("properties", t.scale(500, 8000), (rng, _i, c) => {
		const tag = rng.pick(Object.keys(pages));
		const mine = { ...common, ...pages[tag] };
		// few names, so that each is declared, changed, dropped and declared again
		const names = [...rng.sample(Object.keys(common), 2), ...rng.sample(Object.keys(pages[tag]), 4)];
		const live = newRoot();
		let props: Record<string, unknown> = {};
		const sigs: string[] = [];
		for (let s = 0, n = rng.range(2, 9); s < n; s++) {
			const before = props;
			props = {};
			for (const k of rng.shuffle(names)) {
				const r = rng.f();
				if (r < 0.35) {
					if (k in before) props[k] = before[k];
				} else if (r < 0.75) props[k] = rng.pick(mine[k]);
				else if (r < 0.85) props[k] = rng.pick([null, undefined, false]);
			}
			c.note({ step: s, tag, props });
			live.strategy.render(toJsx({ t: "el", tag, props, kids: [] }) as never);
			const ref = document.createElement(tag) as unknown as Record<string, unknown> & Element;
			for (const [k, v] of Object.entries(props)) {
				if (v === null || v === undefined || v === false) continue;
				if (k in ref) ref[k] = v;
				else ref.setAttribute(k, String(v));
			}
			const el = live.content().firstElementChild as unknown as Record<string, unknown> & Element;
			if (carried(el) !== carried(ref)) violate(`after render #${s} <${tag}> carries ${carried(el)}, declared is ${carried(ref)}`, { props, before });
			for (const k of names) if (k in ref && typeof ref[k] !== "object" && el[k] !== ref[k]) violate(`after render #${s} ${k} of <${tag}> is ${JSON.stringify(el[k])}, declared is ${JSON.stringify(ref[k])}`, { props, before });
			t.observe("property-renders");
			sigs.push(Object.keys(props).sort().join());
		}
		t.distinct(`${tag}/${sigs.join(";")}`);
		live.host.remove();
	});

	// Values that nearly equal the ones before them.
	await t.cases("lookalikes", t.scale(200, 4000), (rng, _i, c) => {
		const live = newRoot();
		const words = ["café", "ünïcode", "two words", "ﬁne print", "7", "1e3", "TRUE", "Straße", "x", ""];
		const fresh = () => rng.pick<unknown>(words);
		const value: Record<string, unknown> = { a: fresh(), b: fresh(), "data-x": fresh(), title: fresh(), class: fresh(), value: fresh() };
		const sig: string[] = [];
		for (let s = 0, n = rng.range(3, 10); s < n; s++) {
			if (s > 0)
				for (const k of rng.sample(Object.keys(value), rng.range(1, 3))) {
					const next = rng.bool(0.85) ? lookalike(rng, value[k]) : fresh();
					value[k] = k === "a" || k === "b" || k === "data-x" ? next : String(next);
					sig.push(`${k}=${String(next)}`);
				}
			const view: Spec = {
				t: "el",
				tag: "div",
				props: { "data-x": value["data-x"], title: value.title, class: value.class },
				kids: [
					{ t: "el", tag: "p", props: {}, kids: [{ t: "text", v: value.a as string }] },
					{ t: "text", v: value.b as string },
					{ t: "el", tag: "input", props: { value: value.value }, kids: [] },
				],
			};
			c.note({ step: s, view: describeSpec(view) });
			live.strategy.render(toJsx(view) as never);
			const ref = document.createElement("div");
			referenceRender(ref, view);
			const d = firstDiff(canon(live.content()), canon(ref));
			if (d) violate(`after render #${s} the DOM differs from the current view at ${d}`);
			t.observe("lookalike-renders");
		}
		t.distinct(`like/${sig.join(";")}`);
		live.host.remove();
	});

	// Content given by children at one time and by a property at another.
	await t.cases("content-property", t.scale(120, 2000), (rng, _i, c) => {
		const live = newRoot();
		const forms: string[] = [];
		let props: Record<string, unknown> = {};
		let kids: Spec[] = [];
		for (let s = 0, n = rng.range(2, 8); s < n; s++) {
			const form = rng.pick(["kids", "html", "text", "none", "same"]);
			if (form !== "same") {
				props = form === "html" ? { innerHTML: rng.pick(["<i>1</i>", "<u>2</u>z", "plain", ""]) } : form === "text" ? { textContent: rng.pick(["tc", "<b>", "t2", ""]) } : {};
				kids = form === "kids" ? Array.from({ length: rng.range(1, 3) }, (): Spec => rng.pick<Spec>([{ t: "text", v: "a" }, { t: "text", v: "b" }, { t: "empty", v: null }, { t: "el", tag: "p", props: {}, kids: [{ t: "text", v: "c" }] }])) : [];
			}
			if (rng.bool(0.3)) props = { ...props, title: rng.pick(["x", "y"]) };
			forms.push(form);
			c.note({ step: s, props, kids });
			live.strategy.render(toJsx({ t: "el", tag: "div", props, kids }) as never);
			const ref = document.createElement("div");
			referenceRender(ref, { t: "el", tag: "div", props, kids });
			const d = firstDiff(canon(live.content()), canon(ref));
			if (d) violate(`after ${forms.join(", ")} the DOM differs from the current view at ${d}`, { html: live.content().innerHTML });
			t.observe("content-switches");
		}
		t.distinct(`content/${forms.join()}`);
		live.host.remove();
	});
});
