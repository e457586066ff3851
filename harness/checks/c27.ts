// C27: JSX source text, compiled by the standard compilers against any of the
// package's JSX runtimes, renders what the JSX says; components receive the props
// written on them. The text is printed from a view in random syntactic variants.
import * as jsxIndex from "@repo/src/jsx/index";
import * as devRuntime from "@repo/src/jsx/jsx-dev-runtime";
import * as prodRuntime from "@repo/src/jsx/jsx-runtime";
import * as innerDev from "@repo/src/renderers/jsx/jsx-dev-runtime";
import * as innerIndex from "@repo/src/renderers/jsx/index";
import * as innerProd from "@repo/src/renderers/jsx/jsx-runtime";
import { type Rng, suite, violate } from "../lib/core";
import { newRoot } from "../lib/root";
import { canon, compareSelectState, defineChild, describeSpec, editView, firstDiff, genOptions, genView, referenceRender, type Spec, specSignature } from "../lib/view";

type Any = any;
declare const require: Any;
const load = (name: string) => require(name);
const esbuild = load("./node_modules/.pnpm/node_modules/esbuild");
const ts = load("typescript");

// ------------------------------------------------------------------ printing
type Out = { values: unknown[]; expected: Array<Record<string, unknown>>; optional: Set<number>; slots: number };
const SAFE_TEXT = /^[^\s{}<>&](?:[^{}<>&\n\r\t]*[^\s{}<>&])?$/u;
const SAFE_ATTR = /^[^"&\n\\{}<>]*$/u;

function literal(rng: Rng, v: unknown, out: Out): string {
	if (v === undefined) return rng.bool() ? "undefined" : "void 0";
	if (v === null || typeof v === "boolean") return String(v);
	if (typeof v === "string" && rng.bool(0.6)) return JSON.stringify(v);
	if (typeof v === "number" && Number.isFinite(v) && !Object.is(v, -0) && rng.bool(0.6)) return String(v);
	out.values.push(v);
	return `$[${out.values.length - 1}]`;
}
function attr(rng: Rng, k: string, v: unknown, out: Out): string {
	if (rng.bool(0.15)) return `{...{${JSON.stringify(k)}: ${literal(rng, v, out)}}}`;
	if (v === true && rng.bool(0.6)) return k;
	if (typeof v === "string" && SAFE_ATTR.test(v) && rng.bool(0.7)) return rng.bool(0.8) || v.includes("'") ? `${k}="${v}"` : `${k}='${v}'`;
	return `${k}={${literal(rng, v, out)}}`;
}
function attrs(rng: Rng, props: Record<string, unknown>, key: string | undefined, out: Out): string {
	const list = Object.entries(props).map(([k, v]) => attr(rng, k, v, out));
	// A key goes ahead of any spread: after one, compilers use createElement instead.
	if (key !== undefined) list.unshift(rng.bool() ? `key="${key}"` : `key={${JSON.stringify(key)}}`);
	else if (rng.bool(0.06)) list.unshift(`key={${rng.pick(["0", "1", "null", '"k"'])}}`);
	return list.map((x) => `${rng.pick([" ", "\n\t", "  "])}${x}`).join("");
}
const entities = (s: string) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/\{/g, "&#123;").replace(/\}/g, "&#x7d;");

/** A child between two tags. `after` tells whether the previous child was literal text. */
function child(rng: Rng, s: Spec, out: Out, afterText: boolean): { src: string; text: boolean } {
	const pad = () => rng.pick(["", "", "\n", "\n\t\t", "\n  \n"]);
	if (s.t === "text" && typeof s.v === "string" && !afterText && rng.bool(0.7)) {
		const escaped = SAFE_TEXT.test(s.v) ? s.v : entities(s.v);
		if (SAFE_TEXT.test(s.v) || (/^\S(?:[^\n\r\t]*\S)?$/u.test(s.v) && rng.bool())) {
			// Interior single spaces may be line breaks with indentation.
			const broken = /[^ ] [^ ]/.test(escaped) && rng.bool(0.4) ? escaped.replace(/([^ ]) ([^ ])/, "$1\n\t\t  $2") : escaped;
			return { src: pad() + broken + pad(), text: true };
		}
	}
	return { src: (afterText ? "" : pad()) + inBraces(rng, s, out) + pad(), text: false };
}
function inBraces(rng: Rng, s: Spec, out: Out): string {
	if (s.t !== "text" && s.t !== "empty" && s.t !== "arr" && rng.bool(0.8)) return tag(rng, s, out);
	return `{${rng.bool(0.2) ? "/* note */ " : ""}${expr(rng, s, out)}}`;
}
/** A JavaScript expression. */
function expr(rng: Rng, s: Spec, out: Out): string {
	switch (s.t) {
		case "text":
			return rng.bool(0.15) && typeof s.v === "string" ? `\`${s.v.replace(/[`\\$]/g, "\\$&")}\`` : literal(rng, s.v, out);
		case "empty":
			return s.v === false && rng.bool() ? "(1 > 2 && <b>never</b>)" : s.v === null && rng.bool(0.3) ? "(1 > 2 ? <i/> : null)" : literal(rng, s.v, out);
		case "arr":
			return rng.bool(0.7)
				? `[${s.kids.map((k) => expr(rng, k, out)).join(", ")}]`
				: `[${s.kids.map((k) => `() => (${expr(rng, k, out)})`).join(", ")}].map((make) => make())`;
		default: {
			const t = tag(rng, s, out);
			return rng.weighted([
				[6, t],
				[1, `(${t})`],
				[1, `(2 > 1 && ${t})`],
				[1, `(2 > 1 ? ${t} : null)`],
				[1, `(() => ${t})()`],
			]);
		}
	}
}
function kids(rng: Rng, list: Spec[], out: Out): string {
	let src = "";
	let text = false;
	for (const k of list) {
		const c = child(rng, k, out, text);
		src += c.src;
		text = c.text;
		if (rng.bool(0.08)) {
			src += "{/* nothing */}";
			text = false;
		}
	}
	return src;
}
function element(rng: Rng, s: Extract<Spec, { t: "el" }>, out: Out): string {
	const a = attrs(rng, s.props, s.key, out);
	if (!s.kids.length && rng.bool(0.8)) return `<${s.tag}${a} />`;
	if (s.kids.length && rng.bool(0.08)) {
		// children given as a prop
		return `<${s.tag}${a} children={${s.kids.length === 1 ? expr(rng, s.kids[0], out) : `[${s.kids.map((k) => expr(rng, k, out)).join(", ")}]`}} />`;
	}
	return `<${s.tag}${a}>${kids(rng, s.kids, out)}</${s.tag}>`;
}
function tag(rng: Rng, s: Spec, out: Out): string {
	switch (s.t) {
		case "el": {
			// Children of a <slot> are not rendered.
			if (s.tag !== "slot") return element(rng, s, out);
			out.slots += 1;
			const src = element(rng, s, out);
			out.slots -= 1;
			return src;
		}
		case "frag": {
			const k = kids(rng, s.kids, out);
			return rng.weighted([
				[4, `<>${k}</>`],
				[1, `<Fragment>${k}</Fragment>`],
				[1, `<Fragment key="f">${k}</Fragment>`],
			]);
		}
		case "comp": {
			const name = s.as === "frag" ? "Wrap" : rng.pick(["Pass", "kit.Pass"]);
			const props: Record<string, unknown> = {};
			for (const [k, v] of rng.sample<[string, unknown]>(
				[["a", 1], ["b", "text"], ["c", false], ["d", undefined], ["e", null], ["f", { x: 1 }], ["g", 0], ["h", ""], ["data-q", true], ["onDone", () => {}], ["style", { color: "red" }], ["class", "k"], ["ref", { current: 1 }]],
				rng.int(5),
			))
				props[k] = v;
			out.expected.push(props);
			props.n = out.expected.length - 1;
			if (out.slots) out.optional.add(out.expected.length - 1);
			return `<${name}${attrs(rng, props, rng.bool(0.2) ? "ck" : undefined, out)}>${kids(rng, s.kids, out)}</${name}>`;
		}
		default:
			return `<>${kids(rng, [s], out)}</>`;
	}
}

// ---------------------------------------------------------------- compilation
const SOURCES: Record<string, Record<string, Any>> = {
	"ignite-element/jsx": { "": jsxIndex, "/jsx-runtime": prodRuntime, "/jsx-dev-runtime": devRuntime },
	"../../renderers/jsx": { "": innerIndex, "/jsx-runtime": innerProd, "/jsx-dev-runtime": innerDev },
};
type Mode = { compiler: "esbuild" | "typescript"; dev: boolean; source: string; pragma: boolean; ts: boolean };
function compile(text: string, m: Mode): string {
	const pragma = m.pragma ? `/** @jsxImportSource ${m.source} */\n` : "";
	if (m.compiler === "esbuild")
		return esbuild.transformSync(pragma + text, { loader: m.ts ? "tsx" : "jsx", jsx: "automatic", jsxDev: m.dev, ...(m.pragma ? {} : { jsxImportSource: m.source }), format: "cjs", logLevel: "silent" }).code;
	const r = ts.transpileModule(pragma + text, {
		fileName: "/app/view.tsx",
		reportDiagnostics: true,
		compilerOptions: { jsx: m.dev ? ts.JsxEmit.ReactJSXDev : ts.JsxEmit.ReactJSX, ...(m.pragma ? {} : { jsxImportSource: m.source }), module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true },
	});
	return r.outputText;
}

export default suite(async (t) => {
	defineChild();
	await t.cases("program", t.scale(220, 5000), (rng, _i, c) => {
		const o = genOptions(rng, { maxDepth: rng.range(1, 4), maxKids: rng.range(1, 5) });
		compareSelectState(o.select !== "free");
		const live = newRoot();
		let view: Spec = genView(rng, o);
		const modes: string[] = [];
		for (let s = 0, n = rng.range(1, 4); s < n; s++) {
			c.log.length = 0;
			if (s > 0 && rng.bool(0.7)) view = editView(rng, view, o);
			const out: Out = { values: [], expected: [], optional: new Set(), slots: 0 };
			const mode: Mode = { compiler: rng.pick(["esbuild", "typescript"]), dev: rng.bool(), source: rng.pick(Object.keys(SOURCES)), pragma: rng.bool(0.4), ts: rng.bool() };
			const e = expr(rng, view, out);
			const text = `import { Fragment } from "${mode.source}";\nimport { Pass, Wrap, kit, $ } from "parts";\nvoid [Fragment, Pass, Wrap, kit, $];\nexport const view = ${e};\n`;
			c.note({ mode, text });
			const code = compile(text, mode);
			const received: Array<Record<string, unknown>> = [];
			const see = (p: Any) => {
				received.push(p);
				return p.children;
			};
			const { Fragment, jsx } = SOURCES[mode.source][mode.source.startsWith("ignite") || "jsx" in SOURCES[mode.source][""] ? "" : "/jsx-runtime"];
			const parts = { Pass: see, Wrap: (p: Any) => jsx(Fragment, { children: see(p) }), kit: { Pass: see }, $: out.values };
			const mod = { exports: {} as Any };
			new Function("require", "module", "exports", code)((id: string) => {
				if (id === "parts") return parts;
				for (const [src, paths] of Object.entries(SOURCES)) if (id.startsWith(src) && id.slice(src.length) in paths) return paths[id.slice(src.length)];
				throw new Error(`compiled JSX imports ${id}`);
			}, mod, mod.exports);
			live.strategy.render(mod.exports.view);
			const ref = document.createElement("div");
			referenceRender(ref, view);
			const d = firstDiff(canon(live.content()), canon(ref));
			if (d) violate(`JSX compiled by ${mode.compiler} (${mode.dev ? "development" : "production"}, ${mode.source}) renders something else at ${d}`, { text });
			t.observe("programs");
			t.observe("nodes", live.content().querySelectorAll("*").length);
			// What the components were given. (They may be called more than once.)
			const seen = new Set<number>();
			for (const p of received) {
				const id = p.n as number;
				seen.add(id);
				const want = out.expected[id];
				const got = { ...p };
				delete got.children;
				const keys = [...new Set([...Object.keys(got), ...Object.keys(want)])];
				for (const k of keys) if (!(k in got) || !(k in want) || !Object.is(got[k], want[k])) violate(`a component written with ${JSON.stringify(Object.keys(want))} received ${k}=${String(got[k])}`, { text });
				t.observe("component-props");
			}
			const missing = out.expected.filter((_, k) => !seen.has(k) && !out.optional.has(k));
			if (missing.length) violate(`of ${out.expected.length} components in the JSX ${missing.length} were not rendered`, { text });
			modes.push(`${mode.compiler}${mode.dev}${mode.source}`);
			t.distinct(`${modes.join()}/${specSignature(view)}/${text.length}`);
		}
		t.sample({ modes, view: describeSpec(view) });
		live.host.remove();
	});
});
