// Views as plain data, an edit grammar over them, the JSX they stand for, and an
// INDEPENDENT reference renderer that says what the DOM of a view is. Nothing
// here calls the code under test except `toJsx`, which uses the public factories.
import { Fragment, jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import type { Rng } from "./core";

export type Spec =
	| { t: "text"; v: string | number }
	| { t: "empty"; v: null | undefined | boolean }
	| { t: "el"; tag: string; props: Record<string, unknown>; kids: Spec[]; key?: string }
	| { t: "frag"; kids: Spec[] }
	| { t: "arr"; kids: Spec[] }
	/** A function component; "live" ones take no props and read what to show when they run. */
	| { t: "comp"; kids: Spec[]; as: "frag" | "single" | "live"; id?: number };

export type Handler = ((e: Event) => void) & { id: string };

export const SVG_NS = "http://www.w3.org/2000/svg";

// ---------------------------------------------------------------- generation

const TEXTS = ["", " ", "ünïcode", "café ﬁn", "two  words", "a", "b", "hello", "<b>x</b>", "&amp;", "日本語", "👩‍👩‍👧‍👦", "line\nbreak", "0", "null", "x".repeat(300), "a|b,c", "t:1", "ignite-empty"];
const NUMS = [0, 1, -1, 3.5, 1e21, Number.NaN, -0, 42];
const EMPTIES: Array<null | undefined | boolean> = [null, undefined, true, false];
const BLOCK = ["div", "p", "section", "ul", "ol", "li", "span", "b", "em", "a", "label", "button", "form", "article", "h1", "details", "fieldset", "time", "custom-thing", "table"];
const VOID = ["input", "br", "img", "hr"];
const SVGK = ["g", "path", "circle", "rect", "text", "linearGradient", "stop", "a", "title"];
export const CLASSES = ["a", "b c", "btn btn-primary", "", "ünïcode", "x:y/2"];
const STR = ["", "x", "one", "two words", "0", "ünïcode", "a\"b'<>&", "true"];
const COLORS = ["red", "blue", "green", "black"];

export type GenOptions = {
	/** Which family of <input> this case uses: mixing families at one position is a different concern. */
	flavour: "text" | "check" | "radio";
	/**
	 * How this case's <select>s are picked: by a declared value, by one option that
	 * says `selected`, by any number of them (multiple), or by the user alone.
	 */
	select: "value" | "marked" | "multiple" | "free";
	handlers?: boolean;
	handlerFactory?: () => Handler;
	maxDepth: number;
	maxKids: number;
	rich?: boolean;
};

export function genOptions(rng: Rng, extra: Partial<GenOptions> = {}): GenOptions {
	return {
		flavour: rng.weighted<GenOptions["flavour"]>([
			[6, "text"],
			[3, "check"],
			[1.5, "radio"],
		]),
		select: rng.weighted<GenOptions["select"]>([
			[6, "value"],
			[2, "marked"],
			[1.2, "multiple"],
			[1.5, "free"],
		]),
		maxDepth: rng.range(1, 5),
		maxKids: rng.range(1, 6),
		...extra,
	};
}

const BOOLISH: unknown[] = [true, false, true, null, undefined];

function styleObject(rng: Rng): Record<string, unknown> {
	const out: Record<string, unknown> = {};
	// No shorthands: jsdom's CSSOM (cssstyle 5.3) does not remove or serialise them as browsers do.
	const all: Array<[string, () => unknown]> = [
		["color", () => rng.pick<unknown>([...COLORS, false, "nonsense"])],
		["backgroundColor", () => rng.pick(COLORS)],
		["fontSize", () => `${rng.range(1, 40)}px`],
		["opacity", () => rng.pick([0, 0.5, 1])],
		["zIndex", () => rng.range(0, 5)],
		["display", () => rng.pick(["none", "block", "flex"])],
		["textAlign", () => rng.pick(["left", "right"])],
		["width", () => `${rng.range(0, 90)}%`],
		["--accent", () => rng.pick(["red", "10px", "1"])],
		["--row-2", () => rng.pick(["x", "y"])],
		["marginTop", () => rng.pick<unknown>(["0px", "3px", false])],
		["--myVar", () => rng.pick(["red", "10px", "1"])],
		["--myvar", () => rng.pick(["blue", "2"])],
		["WebkitTextFillColor", () => rng.pick(["red", "blue"])],
		["WebkitLineClamp", () => rng.pick(["2", "3"])],
		["marginLeft", () => rng.pick(["2px", "5px"])],
		["visibility", () => rng.pick<unknown>(["hidden", "visible", false, "nonsense"])],
	];
	for (const [k, v] of rng.sample(all, rng.int(6))) out[k] = rng.bool(0.12) ? rng.pick([null, undefined]) : v();
	return out;
}

function styleValue(rng: Rng): unknown {
	return rng.weighted<() => unknown>([
		[6, () => styleObject(rng)],
		[3, () => `color: ${rng.pick(COLORS)}; opacity: ${rng.pick(["0", "0.5"])};`],
		[1, () => ""],
		[1, () => null],
		[1, () => undefined],
		[1, () => false],
	])();
}

/** The SVG attributes whose names are spelled in camel case (the HTML standard's list). */
const SVG_CAMEL_NAMES =
	"attributeName attributeType baseFrequency baseProfile calcMode clipPathUnits diffuseConstant edgeMode filterUnits glyphRef gradientTransform gradientUnits kernelMatrix kernelUnitLength keyPoints keySplines keyTimes lengthAdjust limitingConeAngle markerHeight markerUnits markerWidth maskContentUnits maskUnits numOctaves pathLength patternContentUnits patternTransform patternUnits pointsAtX pointsAtY pointsAtZ preserveAlpha preserveAspectRatio primitiveUnits refX refY repeatCount repeatDur requiredExtensions requiredFeatures specularConstant specularExponent spreadMethod startOffset stdDeviation stitchTiles surfaceScale systemLanguage tableValues targetX targetY textLength viewBox viewTarget xChannelSelector yChannelSelector zoomAndPan".split(
		" ",
	);

/** Candidate props for a tag: name -> value generator. */
function propTable(tag: string, inSvg: boolean, o: GenOptions): Array<[string, (r: Rng) => unknown]> {
	const s = (r: Rng) => (r.bool(0.2) ? r.pick([null, undefined, false]) : r.pick(STR));
	const b = (r: Rng) => r.pick(BOOLISH);
	const attr = (r: Rng) => r.pick<unknown>([...STR, 0, 1, 7, true, false, null, undefined]);
	const common: Array<[string, (r: Rng) => unknown]> = [
		["data-x", attr],
		["data-long-name", attr],
		["aria-label", attr],
		["aria-hidden", attr],
		["class", (r) => (r.bool(0.2) ? r.pick([null, undefined, false]) : r.pick(CLASSES))],
		["style", styleValue],
		["role", attr],
		["className", (r) => r.pick<unknown>([...CLASSES, null, false])],
	];
	if (inSvg) {
		common.push(
			["stroke_dasharray", (r) => r.pick(["1 2", "3"])],
		);
		return [
			...common,
			["viewBox", (r) => `0 0 ${r.range(1, 99)} ${r.range(1, 99)}`],
			...SVG_CAMEL_NAMES.map((name): [string, (r: Rng) => unknown] => [name, (r) => r.pick<unknown>(["1", "a;b", 0, 2, null, "none"])]),
			["strokeWidth", (r) => r.pick<unknown>([0, 1, 2, "3", null, false])],
			["stroke", (r) => r.pick<unknown>([...COLORS, null])],
			["fill", (r) => r.pick<unknown>([...COLORS, "none", undefined])],
			["d", (r) => `M${r.int(9)} ${r.int(9)}L1 1`],
			["cx", (r) => r.int(50)],
			["strokeLinecap", (r) => r.pick(["round", "butt"])],
			["fillOpacity", (r) => r.pick<unknown>([0, 0.5, null])],
			["stop-color", (r) => r.pick(COLORS)],
			["dataName", (r) => r.pick(STR)],
			["ariaDescription", (r) => r.pick(STR)],
			["xlink:href", (r) => r.pick(["#a", "#b"])],
			["id", (r) => r.pick<unknown>(["i1", "i2", null])],
			["tabindex", (r) => r.int(3)],
		];
	}
	const html: Array<[string, (r: Rng) => unknown]> = [
		...common,
		["id", s],
		["title", s],
		["lang", s],
		["hidden", b],
		["tabIndex", (r) => r.pick<unknown>([0, 1, 5])],
		["slot", (r) => r.pick<unknown>(["a", "b", null])],
		["dir", (r) => r.pick<unknown>(["ltr", "rtl", null])],
		["accessKey", (r) => r.pick<unknown>(["k", "j", null])],
		["draggable", (r) => r.pick<unknown>(["true", "false", "auto", true, null])],
		["translate", (r) => r.pick<unknown>(["yes", "no", true, null])],
		["spellcheck", (r) => r.pick<unknown>(["true", "false", null])],
		["unknownProp", attr],
		["part", attr],
	];
	const by: Record<string, Array<[string, (r: Rng) => unknown]>> = {
		input:
			o.flavour === "text"
				? [
						["value", (r) => r.pick<unknown>(["", "v1", "v2", "日本", "0", null, undefined])],
						["placeholder", s],
						["disabled", b],
						["readOnly", b],
						["required", b],
						["name", s],
						["maxLength", (r) => r.pick<unknown>([5, 10, 200])],
						["autocomplete", (r) => r.pick(["on", "off"])],
						["pattern", s],
						["form", (r) => r.pick<unknown>(["f1", null])],
						["list", (r) => r.pick<unknown>(["l1", "l2", null])],
						["size", (r) => r.pick<unknown>([5, 20])],
					]
				: [
						["checked", b],
						["disabled", b],
						["name", s],
						["required", b],
						["value", (r) => r.pick<unknown>(["v1", "v2", null])],
					].filter(([k]) => k !== "name" || o.flavour !== "radio") as Array<[string, (r: Rng) => unknown]>,
		textarea: [
			["value", (r) => r.pick<unknown>(["", "t1", "t2\nx", null, undefined])],
			["placeholder", s],
			["rows", (r) => r.range(1, 9)],
			["disabled", b],
			["readOnly", b],
			["name", s],
		],
		button: [
			["disabled", b],
			["type", (r) => r.pick(["button", "submit", "reset"])],
			["name", s],
			["form", (r) => r.pick<unknown>(["f1", "f2", null])],
			["value", (r) => r.pick<unknown>(["", "x", 0, null])],
		],
		a: [
			["href", (r) => r.pick<unknown>(["/a", "#x", "https://example.com/", "", null, undefined])],
			["target", (r) => r.pick<unknown>(["_blank", "", null])],
			["rel", (r) => r.pick<unknown>(["noopener", null])],
			["download", s],
		],
		img: [
			["alt", s],
			["src", (r) => r.pick<unknown>(["/i.png", "data:,x", null])],
			["width", (r) => r.pick<unknown>([10, 20, null])],
			["height", (r) => r.pick<unknown>([10, 20, null])],
		],
		label: [["htmlFor", (r) => r.pick<unknown>(["i1", "i2", null, undefined])]],
		form: [
			["action", (r) => r.pick<unknown>(["/s", null])],
			["method", (r) => r.pick(["get", "post"])],
			["noValidate", b],
			["name", s],
			["acceptCharset", (r) => r.pick<unknown>(["utf-8", null])],
		],
		ol: [
			["start", (r) => r.pick<unknown>([3, 7])],
			["reversed", b],
		],
		li: [["value", (r) => r.pick<unknown>([0, 2, 3, 9])]],
		details: [["open", b]],
		fieldset: [
			["disabled", b],
			["name", s],
		],
		time: [["dateTime", (r) => r.pick<unknown>(["2020-01-01", null])]],
		option: [
			["value", (r) => r.pick<unknown>(["", "o1", "o2", "o3", null])],
			["disabled", b],
			["label", s],
			...(o.select === "marked" || o.select === "multiple" ? [["selected", b] as [string, (r: Rng) => unknown]] : []),
		],
		td: [
			["colSpan", (r) => r.pick<unknown>([1, 2, 3])],
			["rowSpan", (r) => r.pick<unknown>([1, 2])],
			["headers", s],
		],
		progress: [
			["value", (r) => r.pick<unknown>([0, 0.2, 0.7, null])],
			["max", (r) => r.pick<unknown>([1, 2])],
		],
		meter: [
			["value", (r) => r.pick<unknown>([0, 0.2, 0.7, null])],
			["min", (r) => r.pick<unknown>([0, -1, null])],
			["high", (r) => r.pick<unknown>([0.5, 1, null])],
		],
		"vp-child": [
			["payload", (r) => r.pick<unknown>([{ n: r.int(9) }, [1, 2], "p", 7, 0, "", null, undefined, false])],
			["value", (r) => r.pick<unknown>([{ n: r.int(9) }, [r.int(3)], "1", 1, 0, "0", "", null, undefined, false, true, "true"])],
			["checked", (r) => r.pick<unknown>([true, "true", 1, "", false, null])],
			["label", s],
		],
	};
	return [...html, ...(by[tag] ?? [])];
}

const PLAIN_EVENTS = ["Load", "Toggle", "Submit", "Scroll", "Wheel", "Touchstart", "Blur", "Mouseenter", "Dblclick", "Reset", "Transitionend", "Invalid", "Paste", "Keydown", "Beforeinput", "Pointerdown", "Drop"];
const EVENT_PROPS = [...PLAIN_EVENTS.map((x) => `on${x}`), "onClick", "onInput", "onChange", "onCheckoutSubmitted", "on-item-added", "onfocus", "onURLChange", "onItem2Added", "onKeyDown", "onpointer_move", "onFocusin"];
const WORDS = ["item", "user", "ready", "added", "changed", "x2", "tab", "done"];
const invented = new Map<string, string>();
/** A made-up event prop (onItemAdded, on-item-added, onitem_added) and the event it stands for (item-added). */
function inventEventProp(rng: Rng): string {
	const words = rng.sample(WORDS, rng.range(1, 3));
	const up = (w: string) => w[0].toUpperCase() + w.slice(1);
	const prop = rng.weighted<() => string>([
		[5, () => `on${words.map(up).join("")}`],
		[1, () => `on-${words.join("-")}`],
		[1, () => `on${words.join("_")}`],
		[1, () => `on${words.join("-")}`],
	])();
	invented.set(prop, words.join("-"));
	return prop;
}
export function eventNameOf(prop: string): string {
	if (PLAIN_EVENTS.includes(prop.slice(2))) return prop.slice(2).toLowerCase();
	const known = invented.get(prop);
	if (known) return known;
	const map: Record<string, string> = {
		onClick: "click",
		onInput: "input",
		onChange: "change",
		onCheckoutSubmitted: "checkout-submitted",
		"on-item-added": "item-added",
		onfocus: "focus",
		onURLChange: "url-change",
		onItem2Added: "item2-added",
		onKeyDown: "key-down",
		onpointer_move: "pointer-move",
		onFocusin: "focusin",
	};
	return map[prop];
}
export const EVENT_NAMES = EVENT_PROPS.map(eventNameOf);

export function isHandlerProp(k: string): boolean {
	return k.startsWith("on") && k.length > 2;
}

export function genProps(rng: Rng, tag: string, inSvg: boolean, o: GenOptions): Record<string, unknown> {
	const out: Record<string, unknown> = {};
	if (tag === "input") {
		if (o.flavour === "text") {
			if (rng.bool(0.7)) out.type = rng.pick(["text", "password", "email", "search"]);
		} else if (o.flavour === "radio") {
			out.type = "radio";
			out.name = "group";
		} else out.type = "checkbox";
	}
	const table = propTable(tag, inSvg, o);
	const n = rng.weighted([
		[3, 0],
		[4, 1],
		[3, 2],
		[2, 4],
		[1, 7],
	]);
	for (const [k, g] of rng.sample(table, n)) out[k] = g(rng);
	if ("class" in out) delete out.className;
	if (o.handlers && o.handlerFactory && rng.bool(0.5)) {
		for (const k of [...rng.sample(EVENT_PROPS, rng.range(1, 3)), ...(rng.bool(0.4) ? [inventEventProp(rng)] : [])]) {
			// two props for one event on one element is not a view anybody relies on
			if (Object.keys(out).some((x) => isHandlerProp(x) && eventNameOf(x) === eventNameOf(k))) continue;
			out[k] = rng.bool(0.15) ? rng.pick([null, undefined, false]) : o.handlerFactory();
		}
	}
	if (rng.bool(0.05)) out.ref = { current: null };
	return out;
}

export function genNode(rng: Rng, o: GenOptions, depth = 0, ctx: "html" | "svg" | "select" | "table" = "html"): Spec {
	if (depth > o.maxDepth)
		return rng.bool(0.7) ? { t: "text", v: rng.pick(TEXTS) } : { t: "empty", v: rng.pick(EMPTIES) };
	const leafText = (): Spec => ({ t: "text", v: rng.bool(0.75) ? rng.pick(TEXTS) : rng.pick(NUMS) });
	if (ctx === "select") {
		return { t: "el", tag: "option", props: genProps(rng, "option", false, o), kids: [{ t: "text", v: rng.pick(["A", "B", "C", "Dee"]) }] };
	}
	return rng.weighted<() => Spec>([
		[10, () => genElement(rng, o, depth, ctx)],
		[5, leafText],
		[2, () => ({ t: "empty", v: rng.pick(EMPTIES) })],
		[1.2, () => ({ t: "frag", kids: genKids(rng, o, depth, ctx) })],
		[1.2, () => ({ t: "arr", kids: genKids(rng, o, depth, ctx) })],
		[1.2, () => ({ t: "comp", as: rng.bool() ? "frag" : "single", kids: genKids(rng, o, depth, ctx) })],
		[0.5, () => ({ t: "comp", as: "live", id: rng.int(1e6), kids: genKids(rng, o, depth, ctx) })],
		[0.15, () => nest(rng, { t: "arr", kids: [{ t: "text", v: "deep" }, genNode(rng, o, depth + 1, ctx)] }, rng.range(3, 14))],
	])();
}

/** The same content inside many arrays, fragments and components. */
function nest(rng: Rng, s: Spec, times: number): Spec {
	let out = s;
	for (let k = 0; k < times; k++) {
		const kids = rng.bool(0.3) ? [{ t: "text", v: `n${k}` } as Spec, out] : [out];
		out = rng.weighted<Spec>([
			[6, { t: "arr", kids }],
			[2, { t: "frag", kids }],
			[1, { t: "comp", as: "single", kids }],
		]);
	}
	return out;
}

export function genKids(rng: Rng, o: GenOptions, depth: number, ctx: "html" | "svg" | "select" | "table"): Spec[] {
	const n = rng.int(o.maxKids + 1);
	return Array.from({ length: n }, () => genNode(rng, o, depth + 1, ctx));
}

export function genElement(rng: Rng, o: GenOptions, depth: number, ctx: "html" | "svg" | "select" | "table"): Spec {
	if (ctx === "svg") {
		if (rng.bool(0.12)) {
			return { t: "el", tag: "foreignObject", props: genProps(rng, "foreignObject", true, o), kids: genKids(rng, o, depth, "html") };
		}
		const tag = rng.pick(SVGK);
		return { t: "el", tag, props: genProps(rng, tag, true, o), kids: genKids(rng, o, depth, "svg") };
	}
	const kind = rng.weighted<string>([
		[14, "block"],
		[3, "void"],
		[2, "svg"],
		[1.2, "select"],
		[1.2, "textarea"],
		[0.7, "slot"],
		[1, "child"],
		[1, "td"],
		[0.5, "progress"],
		[0.4, "biglist"],
	]);
	switch (kind) {
		case "void": {
			const tag = rng.pick(VOID);
			return { t: "el", tag, props: genProps(rng, tag, false, o), kids: [] };
		}
		case "svg":
			return { t: "el", tag: "svg", props: genProps(rng, "svg", true, o), kids: genKids(rng, o, depth, "svg") };
		case "select": {
			const kids = Array.from({ length: rng.range(0, 4) }, () => genNode(rng, o, depth + 1, "select"));
			const props = genProps(rng, "select", false, o);
			delete props.slot;
			if (o.select === "value") props.value = rng.pick(["o1", "o2", "o3", "", "A", "nope"]);
			if (o.select === "multiple") props.multiple = true;
			return { t: "el", tag: "select", props, kids };
		}
		case "textarea":
			return { t: "el", tag: "textarea", props: genProps(rng, "textarea", false, o), kids: [] };
		case "slot": {
			const props: Record<string, unknown> = rng.bool() ? { name: rng.pick(["a", "b", ""]) } : {};
			return { t: "el", tag: "slot", props, kids: rng.bool(0.3) ? [{ t: "text", v: "dropped" }] : [] };
		}
		case "child":
			return { t: "el", tag: "vp-child", props: genProps(rng, "vp-child", false, o), kids: [] };
		case "td":
			return { t: "el", tag: "td", props: genProps(rng, "td", false, o), kids: genKids(rng, o, depth, "html") };
		case "progress": {
			const tag = rng.pick(["progress", "meter"]);
			return { t: "el", tag, props: genProps(rng, tag, false, o), kids: [] };
		}
		case "biglist": {
			const n = rng.range(10, 40);
			return {
				t: "el",
				tag: "ul",
				props: {},
				kids: Array.from({ length: n }, (_, i) => ({ t: "el", tag: "li", key: `k${i}`, props: rng.bool(0.3) ? { "data-i": i } : {}, kids: [{ t: "text", v: `item ${i}` }] })),
			};
		}
		default: {
			const tag = rng.pick(BLOCK);
			return { t: "el", tag, props: genProps(rng, tag, false, o), kids: genKids(rng, o, depth, "html"), ...(rng.bool(0.15) ? { key: `k${rng.int(5)}` } : {}) };
		}
	}
}

/** Options of one <select> keep pairwise different values (which of two equal ones is picked is the browser's affair). */
function fixSelects(s: Spec, o: GenOptions): Spec {
	if (!("kids" in s)) return s;
	if (s.t === "el" && s.tag === "select") {
		const seen = new Set<string>();
		s.kids = s.kids.filter((k) => {
			if (k.t !== "el" || k.tag !== "option") return false;
			k.kids = k.kids.filter((x) => x.t === "text");
			const text = k.kids.map((x) => (x.t === "text" ? String(x.v) : "")).join("").trim();
			const v = typeof k.props.value === "string" ? k.props.value : text;
			if (seen.has(v)) return false;
			seen.add(v);
			return true;
		});
		if (o.select === "marked") {
			// exactly one option says it is selected
			let found = false;
			for (const k of s.kids)
				if (k.t === "el" && k.props.selected === true) {
					if (found) delete k.props.selected;
					found = true;
				}
			const first = s.kids[0];
			if (!found && first?.t === "el") first.props.selected = true;
		}
	} else for (const k of s.kids) fixSelects(k, o);
	return s;
}
/** At most one radio button of the (single) group says it is checked. */
function fixRadios(s: Spec, seen = { checked: false }): Spec {
	if (s.t === "el" && s.tag === "input" && s.props.type === "radio" && s.props.checked === true) {
		if (seen.checked) delete s.props.checked;
		seen.checked = true;
	}
	if ("kids" in s) for (const k of s.kids) fixRadios(k, seen);
	return s;
}

export function genView(rng: Rng, o: GenOptions): Spec {
	return fixRadios(fixSelects(genViewRaw(rng, o), o));
}
export function editView(rng: Rng, root: Spec, o: GenOptions, ops?: string[]): Spec {
	return fixRadios(fixSelects(editViewRaw(rng, root, o, ops), o));
}

function genViewRaw(rng: Rng, o: GenOptions): Spec {
	return rng.weighted<() => Spec>([
		[8, () => genElement(rng, o, 0, "html")],
		[1, () => ({ t: "frag", kids: genKids(rng, o, 0, "html") })],
		[1, () => ({ t: "arr", kids: genKids(rng, o, 0, "html") })],
		[0.5, () => ({ t: "comp", as: "frag", kids: genKids(rng, o, 0, "html") })],
		[0.4, () => ({ t: "text", v: rng.pick(TEXTS) })],
		[0.4, () => ({ t: "empty", v: rng.pick(EMPTIES) })],
	])();
}

// ------------------------------------------------------------------- editing

export function cloneSpec(s: Spec): Spec {
	switch (s.t) {
		case "text":
		case "empty":
			return { ...s };
		case "el":
			return { ...s, props: { ...s.props }, kids: s.kids.map(cloneSpec) };
		default:
			return { ...s, kids: s.kids.map(cloneSpec) };
	}
}
/** A copy that lives on beside the original: its live components are others. */
function duplicateSpec(rng: Rng, s: Spec): Spec {
	const again = cloneSpec(s);
	const walk = (x: Spec) => {
		if (x.t === "comp" && x.as === "live") x.id = rng.int(1e6);
		if ("kids" in x) for (const k of x.kids) walk(k);
	};
	walk(again);
	return again;
}

type Loc = { list: Spec[]; i: number; ctx: "html" | "svg" | "select" | "table"; depth: number };
function locations(root: Spec): Loc[] {
	const out: Loc[] = [];
	const walk = (list: Spec[], ctx: Loc["ctx"], depth: number) => {
		list.forEach((n, i) => {
			out.push({ list, i, ctx, depth });
			if (n.t === "el") {
				const c: Loc["ctx"] =
					n.tag === "select" ? "select" : n.tag === "svg" ? "svg" : n.tag === "foreignObject" ? "html" : ctx === "svg" ? "svg" : ctx === "select" ? "select" : "html";
				walk(n.kids, c, depth + 1);
			} else if ("kids" in n) walk(n.kids, ctx, depth + 1);
		});
	};
	walk([root], "html", 0);
	return out;
}

/** Attributes that take any text. */
const FREE = ["data-x", "data-long-name", "aria-label", "aria-hidden", "role", "unknownProp", "part", "title", "class"];
/** A different value that is easily taken for the same one: loosely equal, other case, blanks, composition or sign. */
export function lookalike(rng: Rng, v: unknown): unknown {
	const s = String(v);
	const n = Number(s);
	return rng.pick<unknown>([
		`${s} `,
		` ${s}`,
		s.trim(),
		s.toUpperCase(),
		s.toLowerCase(),
		s.normalize("NFD"),
		s.normalize("NFC"),
		s.normalize("NFKC"),
		s.replace(/ /g, "\u00a0"),
		s.replace(/\s+/g, " "),
		`${s}\u200b`,
		[...s].slice(0, -1).join(""),
		...(s.trim() !== "" && Number.isFinite(n) ? [n, `${n}.0`, `0${s}`, `+${n}`, -n, `${n}`, n + 1e-9] : ["0", 0, ""]),
	]);
}

/** Derive the next view from the current one by a few random edits. */
function editViewRaw(rng: Rng, root: Spec, o: GenOptions, ops?: string[]): Spec {
	if (rng.bool(0.06)) return genViewRaw(rng, o);
	const wrapper: Spec = { t: "arr", kids: [cloneSpec(root)] };
	const n = rng.weighted([
		[5, 1],
		[3, 2],
		[1, 5],
	]);
	for (let k = 0; k < n; k++) {
		const locs = locations(wrapper.kids[0]);
		// locations() wraps [root]; make the root editable too
		const loc = rng.pick(locs);
		if (loc.depth === 0) loc.list = wrapper.kids;
		const node = loc.list[loc.i];
		const op = rng.weighted<string>([
			[6, "props"],
			[4, "text"],
			[2, "append"],
			[2, "insert"],
			[2, "remove"],
			[1.5, "swap"],
			[1, "reverse"],
			[1.5, "toggle"],
			[1, "retag"],
			[1, "replace"],
			[0.6, "wrap"],
			[0.6, "truncate"],
			[0.6, "dup"],
			[0.5, "clearprops"],
			[0.5, "grow"],
			[0.12, "burst"],
			[2, "lookalike"],
		]);
		ops?.push(op);
		switch (op) {
			case "props":
				if (node.t === "el") {
					const inSvg = loc.ctx === "svg" || node.tag === "svg";
					const table = propTable(node.tag, inSvg, o);
					for (let j = rng.range(1, 3); j > 0; j--) {
						const keys = Object.keys(node.props).filter((x) => x !== "type" && !(node.tag === "select" && (x === "value" || x === "multiple")) && !(node.props.type === "radio" && x === "name"));
						if (keys.length && rng.bool(0.35)) {
							delete node.props[rng.pick(keys)];
						} else if (o.handlers && o.handlerFactory && rng.bool(0.4)) {
							const mine = Object.keys(node.props).filter(isHandlerProp);
							const prop = mine.length && rng.bool() ? rng.pick(mine) : rng.pick(EVENT_PROPS);
							if (!mine.some((x) => x !== prop && eventNameOf(x) === eventNameOf(prop))) node.props[prop] = rng.bool(0.2) ? rng.pick([null, undefined, false]) : o.handlerFactory();
						} else if (node.tag === "select" && o.select === "value" && rng.bool(0.5)) {
							node.props.value = rng.pick(["o1", "o2", "o3", "A"]);
						} else {
							const present = rng.bool() ? table.filter(([key]) => key in node.props) : [];
							const [key, g] = rng.pick(present.length ? present : table);
							node.props[key] = g(rng);
							if (key === "class") delete node.props.className;
							if (key === "className") delete node.props.class;
						}
					}
				}
				break;
			case "text":
				if (node.t === "text") node.v = rng.bool(0.8) ? rng.pick(TEXTS) : rng.pick(NUMS);
				break;
			case "lookalike":
				if (node.t === "text") node.v = lookalike(rng, node.v) as string | number;
				else if (node.t === "el") {
					const mine = FREE.filter((x) => typeof node.props[x] === "string" || typeof node.props[x] === "number");
					const key = mine.length ? rng.pick(mine) : loc.ctx === "select" ? null : "data-x";
					if (key) node.props[key] = lookalike(rng, node.props[key] ?? rng.pick<unknown>([...STR, 0, 1, 7]));
				}
				break;
			case "append":
				if ("kids" in node && canHaveKids(node)) node.kids.push(genNode(rng, o, loc.depth + 1, kidCtx(node, loc.ctx)));
				break;
			case "insert":
				if ("kids" in node && canHaveKids(node)) node.kids.splice(rng.int(node.kids.length + 1), 0, genNode(rng, o, loc.depth + 1, kidCtx(node, loc.ctx)));
				break;
			case "remove":
				if ("kids" in node && node.kids.length) node.kids.splice(rng.int(node.kids.length), 1);
				break;
			case "swap":
				if ("kids" in node && node.kids.length > 1) {
					const a = rng.int(node.kids.length);
					const b = rng.int(node.kids.length);
					[node.kids[a], node.kids[b]] = [node.kids[b], node.kids[a]];
				}
				break;
			case "reverse":
				if ("kids" in node) node.kids.reverse();
				break;
			case "toggle":
				if (loc.depth > 0 && loc.ctx !== "select")
					loc.list[loc.i] = node.t === "empty" ? genNode(rng, o, loc.depth, loc.ctx) : { t: "empty", v: rng.pick(EMPTIES) };
				break;
			case "retag":
				if (node.t === "el" && loc.ctx === "html" && BLOCK.includes(node.tag)) {
					const tag = rng.pick(BLOCK);
					loc.list[loc.i] = { t: "el", tag, props: genProps(rng, tag, false, o), kids: node.kids };
				}
				break;
			case "replace":
				loc.list[loc.i] = genNode(rng, o, loc.depth, loc.ctx);
				break;
			case "wrap":
				if (loc.depth > 0 && loc.ctx !== "select")
					loc.list[loc.i] = rng.bool() ? { t: "frag", kids: [node] } : { t: "comp", as: "single", kids: [node] };
				break;
			case "truncate":
				if ("kids" in node) node.kids.length = Math.min(node.kids.length, rng.int(node.kids.length + 1));
				break;
			case "dup":
				if (loc.depth > 0) loc.list.splice(loc.i, 0, duplicateSpec(rng, node));
				break;
			case "clearprops":
				if (node.t === "el") {
					const keep = node.tag === "select" ? ["value", "multiple"] : node.props.type === "radio" ? ["type", "name"] : ["type"];
					node.props = Object.fromEntries(keep.filter((x) => x in node.props).map((x) => [x, (node.props as Record<string, unknown>)[x]]));
				}
				break;
			case "burst":
				if ("kids" in node && canHaveKids(node) && kidCtx(node, loc.ctx) === "html") {
					const tag = rng.pick(["li", "b", "p"]);
					for (let j = 0, many = rng.range(30, 260); j < many; j++) node.kids.push({ t: "el", tag, props: {}, kids: [{ t: "text", v: `${j}` }] });
				}
				break;
			case "grow":
				if ("kids" in node && canHaveKids(node))
					for (let j = rng.range(2, 8); j > 0; j--) node.kids.push(genNode(rng, o, loc.depth + 1, kidCtx(node, loc.ctx)));
				break;
		}
	}
	return wrapper.kids.length === 1 ? wrapper.kids[0] : wrapper;
}

export function canHaveKids(n: Spec): boolean {
	return n.t !== "el" || !["input", "br", "img", "hr", "textarea", "slot", "vp-child", "progress", "meter", "option"].includes(n.tag);
}
export function kidCtx(n: Spec, ctx: "html" | "svg" | "select" | "table"): "html" | "svg" | "select" | "table" {
	if (n.t !== "el") return ctx;
	if (n.tag === "select") return "select";
	if (n.tag === "svg") return "svg";
	if (n.tag === "foreignObject") return "html";
	return ctx;
}

// ---------------------------------------------------------------------- JSX

type Jsx = ReturnType<typeof jsx> | string | number | boolean | null | undefined | Jsx[];

/** Hoisting: equal parts of successive views are the very same JSX object (memoised or constant views). */
let hoisted: Map<string, Jsx> | null = null;
export function hoistJsx(on: boolean): void {
	hoisted = on ? new Map() : null;
	interned.clear();
}
const identities = new WeakMap<object, number>();
let identity = 0;
function identityKey(v: unknown): string {
	if ((typeof v !== "object" || v === null) && typeof v !== "function") return `${typeof v}:${Object.is(v, -0) ? "-0" : String(v)}`;
	if (!identities.has(v as object)) identities.set(v as object, identity++);
	return `#${identities.get(v as object)}`;
}
const interned = new Map<string, number>();
function intern(key: string): number {
	const known = interned.get(key);
	if (known !== undefined) return known;
	interned.set(key, interned.size);
	return interned.size - 1;
}
function hoistKey(s: Spec): string {
	if (s.t === "text" || s.t === "empty") return `${s.t}/${identityKey(s.v)}`;
	if (s.t === "comp" && s.as === "live") return `live/${s.id}`;
	const kids = s.kids.map((k) => intern(hoistKey(k)));
	if (s.t === "el") return JSON.stringify([s.tag, s.key ?? null, Object.entries(s.props).map(([k, v]) => [k, identityKey(v)]), kids]);
	return JSON.stringify([s.t, s.t === "comp" ? s.as : 0, kids]);
}

/** What live components currently show. */
const liveContent = new Map<number, Jsx>();
function Live(p: Record<string, unknown>): never {
	return liveContent.get(p.id as number) as never;
}
function refreshLive(s: Spec): void {
	if (s.t === "comp" && s.as === "live") liveContent.set(s.id as number, s.kids.map(toJsxInner));
	if ("kids" in s) for (const k of s.kids) refreshLive(k);
}

/** The JSX of a view; valid until the JSX of another view is made (live components read the latest). */
export function toJsx(s: Spec): Jsx {
	if (!hoisted) liveContent.clear();
	refreshLive(s);
	return toJsxInner(s);
}
function toJsxInner(s: Spec): Jsx {
	if (!hoisted || s.t === "text" || s.t === "empty") return makeJsx(s);
	const key = hoistKey(s);
	const known = hoisted.get(key);
	if (known) return known;
	const made = makeJsx(s);
	hoisted.set(key, made);
	return made;
}

function makeJsx(s: Spec): Jsx {
	switch (s.t) {
		case "text":
			return s.v;
		case "empty":
			return s.v;
		case "arr":
			return s.kids.map(toJsxInner);
		case "frag":
			return jsxs(Fragment as never, { children: s.kids.map(toJsxInner) as never });
		case "comp": {
			if (s.as === "live") return jsx(Live as never, { id: s.id });
			const kids = s.kids.map(toJsxInner);
			const C =
				s.as === "frag"
					? (p: Record<string, unknown>) => jsxs(Fragment as never, { children: p.children as never })
					: (p: Record<string, unknown>) => p.children as never;
			return jsx(C as never, { children: kids as never, extra: 1 });
		}
		case "el": {
			const kids = s.kids.map(toJsxInner);
			if (kids.length === 0) return jsx(s.tag, { ...s.props }, s.key);
			if (kids.length === 1) return jsx(s.tag, { ...s.props, children: kids[0] as never }, s.key);
			return jsxs(s.tag, { ...s.props, children: kids as never }, s.key);
		}
	}
}

// ---------------------------------------------------------- reference render

const SVG_CAMEL = new Set(SVG_CAMEL_NAMES);
function kebab(s: string): string {
	if (s.startsWith("--")) return s;
	return s.replace(/[A-Z]/g, (m, i: number) => (i > 0 ? "-" : "-") + m.toLowerCase());
}
function svgName(k: string): string {
	if (k.includes("-") || k.includes(":") || SVG_CAMEL.has(k)) return k;
	return k.replace(/([a-z0-9])([A-Z])/g, "$1-$2").replace(/_/g, "-").toLowerCase();
}

export type Bound = Map<Element, Map<string, Handler>>;

/** Flatten a view to the list of DOM-producing specs it stands for. */
function flat(s: Spec): Spec[] {
	if (s.t === "el" || s.t === "text") return [s];
	if (s.t === "empty") return [];
	return s.kids.flatMap(flat);
}

export function referenceRender(parent: Node, s: Spec, inSvg = false, bound?: Bound): void {
	for (const n of flat(s)) {
		if (n.t === "text") {
			parent.appendChild(document.createTextNode(String(n.v)));
			continue;
		}
		if (n.t !== "el") continue;
		const svg = inSvg || n.tag === "svg";
		const el = svg ? document.createElementNS(SVG_NS, n.tag) : document.createElement(n.tag);
		const handlers = new Map<string, Handler>();
		let selectValue: unknown;
		for (const [k, v] of Object.entries(n.props)) {
			if (k === "children" || k === "ref" || k === "key") continue;
			if (isHandlerProp(k)) {
				if (typeof v === "function") handlers.set(eventNameOf(k), v as Handler);
				continue;
			}
			if (v === null || v === undefined || v === false) continue;
			if (k === "class" || k === "className") {
				if (String(v)) el.setAttribute("class", String(v));
				continue;
			}
			if (k === "style") {
				const st = (el as HTMLElement).style;
				if (typeof v === "object") {
					for (const [p, pv] of Object.entries(v as Record<string, unknown>))
						if (pv !== null && pv !== undefined) st.setProperty(kebab(p), String(pv));
				} else st.cssText = String(v);
				continue;
			}
			if (n.tag === "select" && k === "value" && !svg) {
				selectValue = v;
				continue;
			}
			if (svg) {
				el.setAttribute(svgName(k), String(v));
				continue;
			}
			if (typeof v === "string" && ["draggable", "translate", "spellcheck"].includes(k)) el.setAttribute(k, v);
			else if (k in el && k !== "list" && k !== "form") (el as unknown as Record<string, unknown>)[k] = v;
			else el.setAttribute(k, String(v));
		}
		if (bound) bound.set(el, handlers);
		if (n.tag !== "slot") for (const c of n.kids) referenceRender(el, c, svg && n.tag !== "foreignObject", bound);
		if (selectValue !== undefined) (el as HTMLSelectElement).value = selectValue as string;
		parent.appendChild(el);
	}
}

// ------------------------------------------------------------ canonical form

export type Canon = string | { tag: string; ns: string; a: Record<string, string>; st: Record<string, string>; p: Record<string, unknown>; k: Canon[] };

/** What an uncontrolled <select> has picked is the user's (or browser's) choice, not the view's. */
let selectState = true;
export function compareSelectState(on: boolean): void {
	selectState = on;
}

export function canon(node: Node): Canon[] {
	const out: Canon[] = [];
	for (const c of Array.from(node.childNodes)) {
		if (c.nodeType === 3) {
			const v = c.nodeValue ?? "";
			if (v === "") continue;
			if (out.length && typeof out[out.length - 1] === "string") out[out.length - 1] = (out[out.length - 1] as string) + v;
			else out.push(v);
		} else if (c.nodeType === 1) out.push(canonElement(c as Element));
	}
	return out;
}

export function canonElement(e: Element): Canon {
	const a: Record<string, string> = {};
	for (const at of Array.from(e.attributes).sort((x, y) => (x.name < y.name ? -1 : 1))) {
		if (at.name === "style") continue;
		a[at.name] = at.value;
	}
	const st: Record<string, string> = {};
	const style = (e as HTMLElement).style;
	if (style && e.hasAttribute("style")) {
		const names: string[] = [];
		for (let i = 0; i < style.length; i++) names.push(style[i]);
		for (const n of names.sort()) st[n] = style.getPropertyValue(n);
	}
	const p: Record<string, unknown> = {};
	const any = e as unknown as Record<string, unknown>;
	const html = e.namespaceURI !== SVG_NS;
	if (html) {
		switch (e.localName) {
			case "input":
				p.value = any.value;
				p.checked = any.checked;
				p.type = any.type;
				break;
			case "textarea":
				p.value = any.value;
				break;
			case "select":
				if (!selectState) break;
				p.value = any.value;
				p.index = any.selectedIndex;
				break;
			case "option":
				p.value = any.value;
				if (selectState) p.selected = any.selected;
				break;
			case "progress":
			case "meter":
				p.value = any.value;
				break;
			case "vp-child":
				for (const key of ["payload", "value", "checked"]) p[key] = any[key] === undefined ? "[unset]" : any[key];
				break;
		}
	}
	return { tag: e.localName, ns: e.namespaceURI ?? "", a, st, p, k: canon(e) };
}

/** First difference between two canonical forms, as a readable path. */
export function firstDiff(got: unknown, want: unknown, path = ""): string | null {
	if (Object.is(got, want)) return null;
	if (typeof got !== typeof want || got === null || want === null || typeof got !== "object")
		return `${path || "/"}: got ${short(got)}, expected ${short(want)}`;
	if (Array.isArray(got) && Array.isArray(want)) {
		for (let i = 0; i < Math.max(got.length, want.length); i++) {
			if (i >= got.length) return `${path}[${i}]: missing, expected ${short(want[i])}`;
			if (i >= want.length) return `${path}[${i}]: unexpected ${short(got[i])}`;
			const d = firstDiff(got[i], want[i], `${path}[${i}]`);
			if (d) return d;
		}
		return null;
	}
	const g = got as Record<string, unknown>;
	const w = want as Record<string, unknown>;
	const tag = typeof g.tag === "string" && "k" in g ? `<${g.tag}>` : "";
	for (const k of new Set([...Object.keys(g), ...Object.keys(w)])) {
		if (!(k in g)) return `${path}${tag}.${k}: missing, expected ${short(w[k])}`;
		if (!(k in w)) return `${path}${tag}.${k}: unexpected ${short(g[k])}`;
		const d = firstDiff(g[k], w[k], `${path}${tag}.${k}`);
		if (d) return d;
	}
	return null;
}
function short(x: unknown): string {
	const s = typeof x === "string" ? JSON.stringify(x) : (safeJson(x) ?? String(x));
	return s.length > 160 ? `${s.slice(0, 160)}…` : s;
}
function safeJson(x: unknown): string | undefined {
	try {
		return JSON.stringify(x);
	} catch {
		return String(x);
	}
}

export function describeSpec(s: Spec): unknown {
	switch (s.t) {
		case "text":
			return s.v;
		case "empty":
			return `∅${String(s.v)}`;
		case "el":
			return { [s.tag]: Object.fromEntries(Object.entries(s.props).map(([k, v]) => [k, typeof v === "function" ? `fn#${(v as Handler).id}` : v === undefined ? "undefined" : v])), kids: s.kids.map(describeSpec) };
		default:
			return { [s.t]: s.kids.map(describeSpec) };
	}
}

export function specSignature(s: Spec): string {
	switch (s.t) {
		case "text":
			return "t";
		case "empty":
			return "e";
		case "el":
			return `${s.tag}{${Object.keys(s.props).sort().join(",")}}(${s.kids.map(specSignature).join(" ")})`;
		default:
			return `${s.t}(${s.kids.map(specSignature).join(" ")})`;
	}
}

/** A plain custom element with a non-reflected property, used inside views. */
export function defineChild(): void {
	if (customElements.get("vp-child")) return;
	class Child extends HTMLElement {
		value: unknown;
		checked: unknown;
		#p: unknown;
		get payload(): unknown {
			return this.#p;
		}
		set payload(v: unknown) {
			this.#p = v;
		}
	}
	customElements.define("vp-child", Child);
}
