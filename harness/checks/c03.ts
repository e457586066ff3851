// C03: updating a view in place keeps the nodes it does not have to touch, and
// with them focus, caret, what the user typed or picked, and child components.
import { defineIgniteConfig } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import { type Rng, suite, uniqueName, violate } from "../lib/core";
import { clearNoDiffDenylistForTests, registerNoDiffDenylistTag } from "@repo/src/renderers/jsx/noDiffDenylist";
import { newRoot } from "../lib/root";

type N = { kind: "el"; tag: string; props: Record<string, unknown>; kids: N[] } | { kind: "text"; v: string } | { kind: "none" };

let serial = 0;
const fresh = () => `u${serial++}`;
const WORDS = ["", "", "0", "1", "9", "10", "100", "-1", "3.5", "on", "off", "On", "Off", "yes", "item 1", "item 2", "item 10", "Save", "save ", " ", "a", "b", "ab"];
const word = (rng: Rng) => (rng.bool(0.4) ? rng.pick(WORDS) : fresh());
/** A different text that resembles the given one. */
function resembling(rng: Rng, v: string): string {
	const c = rng.pick([
		v.toUpperCase(),
		v.toLowerCase(),
		`${v}!`,
		`${v} `,
		` ${v}`,
		`x${v}`,
		v.slice(0, -1),
		v.slice(1),
		[...v].reverse().join(""),
		v.replace(/./g, (ch) => (ch === "z" ? "y" : "z")),
		`${v.slice(0, 3)}${fresh()}`,
		`${v}${v}`,
	]);
	return c === v || c === "" ? `${v}~` : c;
}
/** Text and structure of a node, without its attributes. */
const content = (n: N): string => (n.kind === "el" ? JSON.stringify([n.tag, n.kids.map(content)]) : n.kind === "text" ? JSON.stringify(n.v) : "none");
/** Whether the children of a container were exchanged: the same ones in another order. */
function exchanged(a: N, b: N): boolean {
	if (a.kind !== "el" || b.kind !== "el" || a.kids.length !== b.kids.length || a.kids.length < 2) return false;
	const x = a.kids.map(content);
	const y = b.kids.map(content);
	return x.join("\n") !== y.join("\n") && [...x].sort().join("\n") === [...y].sort().join("\n");
}
/** An element of a tag that opted out: it is rebuilt whenever it is rendered, alone. */
const DENIED = "vp-rebuilt";
const LEAF = ["input", "textarea", "checkbox", "select", "child"];
const BOX = ["div", "p", "ul", "section", "span", "label", "details", "form", "svg"];

const child = uniqueName("kid");
const lifecycle: string[] = [];
customElements.define(
	child,
	class extends HTMLElement {
		uid = fresh();
		constructor() {
			super();
			lifecycle.push(`new ${this.uid}`);
		}
		connectedCallback() {
			lifecycle.push(`in ${this.uid}`);
		}
		disconnectedCallback() {
			lifecycle.push(`out ${this.uid}`);
		}
	},
);

function gen(rng: Rng, depth: number): N {
	const r = rng.f();
	if (depth > 0 && r < 0.22) return { kind: "text", v: word(rng) };
	if (depth > 0 && r < 0.3) return { kind: "none" };
	if (depth > 3 || r < 0.55) {
		const t = rng.pick(LEAF);
		return { kind: "el", tag: t, props: props(rng, t), kids: t === "select" ? ["o1", "o2", "o3"].map((v) => ({ kind: "el", tag: "option", props: { value: v }, kids: [{ kind: "text", v: fresh() }] }) as N) : [] };
	}
	const tag = rng.pick(BOX);
	return { kind: "el", tag, props: props(rng, tag), kids: Array.from({ length: rng.int(5) }, () => (tag === "svg" ? ({ kind: "el", tag: "g", props: {}, kids: [] } as N) : gen(rng, depth + 1))) };
}
function props(rng: Rng, tag: string): Record<string, unknown> {
	const p: Record<string, unknown> = {};
	if (rng.bool(0.5)) p["data-p"] = rng.int(5);
	if (rng.bool(0.3)) p.id = rng.pick(["i1", "i2", "i3"]);
	if (rng.bool(0.3)) p.class = rng.pick(["a", "b c", ""]);
	if (rng.bool(0.25)) p.style = rng.pick([{ color: "red" }, { color: "blue", opacity: 0.5 }, "color: red;"]);
	if (rng.bool(0.25)) p.onClick = () => {};
	if (tag !== "svg" && rng.bool(0.3)) p.title = rng.pick(["x", "y", null]);
	if ((tag === "input" || tag === "textarea") && rng.bool(0.5)) p.value = rng.pick(["v1", "v2"]);
	if (tag === "checkbox" && rng.bool(0.4)) p.checked = rng.bool();
	if (tag === "select" && rng.bool(0.4)) p.value = rng.pick(["o1", "o2"]);
	if (tag === "input" && rng.bool(0.3)) p.placeholder = rng.pick(["p1", "p2"]);
	if (tag === "child" && rng.bool(0.5)) p.payload = { n: rng.int(3) };
	return p;
}
function view(n: N): unknown {
	if (n.kind === "text") return n.v;
	if (n.kind === "none") return null;
	const tag = n.tag === "child" ? child : n.tag === "checkbox" ? "input" : n.tag;
	const p = n.tag === "checkbox" ? { type: "checkbox", ...n.props } : n.props;
	return jsxs(tag, { ...p, children: n.kids.map(view) as never });
}
const clone = (n: N): N => (n.kind === "el" ? { ...n, props: { ...n.props }, kids: n.kids.map(clone) } : { ...n });
function all(n: N, path: number[] = [0], out: Array<{ n: N; path: number[]; parent: N | null }> = [], parent: N | null = null) {
	out.push({ n, path, parent });
	if (n.kind === "el") n.kids.forEach((k, i) => all(k, [...path, i], out, n));
	return out;
}
const at = (root: Node, path: number[]): Node | undefined => {
	let x: Node | undefined = root;
	for (const i of path) x = x?.childNodes[i];
	return x;
};
const under = (path: number[], prefix: number[]) => prefix.every((v, i) => path[i] === v);

export default suite(async (t) => {
	defineIgniteConfig({ renderer: "ignite-jsx", strategy: "diff", logging: "off" });
	await t.cases("updates", t.scale(500, 8000), (rng, _i, c) => {
		const live = newRoot();
		const denying = rng.bool(0.25);
		clearNoDiffDenylistForTests();
		if (denying) registerNoDiffDenylistTag(DENIED);
		// neighbours that opted out of updating in place are nobody else's business
		if (rng.bool(0.3)) {
			const host = document.createElement("div");
			host.setAttribute(rng.pick(["data-ignite-nodiff", "data-ignite-hydrated"]), "");
			newRoot(host).strategy.render(view(gen(rng, 2)) as never);
			host.remove();
		}
		let tree: N = { kind: "el", tag: "div", props: {}, kids: Array.from({ length: rng.range(1, 6) }, () => gen(rng, 1)) };
		if (denying) {
			for (const x of all(tree)) {
				if (x.n.kind !== "el" || !BOX.includes(x.n.tag) || x.n.tag === "svg" || !rng.bool(0.5)) continue;
				x.n.kids.splice(rng.int(x.n.kids.length + 1), 0, { kind: "el", tag: DENIED, props: {}, kids: [] });
				t.observe("opted-out-neighbours");
			}
		}
		live.strategy.render(view(tree) as never);
		for (let s = rng.range(1, 10); s > 0; s--) {
			c.log.length = 0;
			const root = live.content();
			const before = all(tree).map((x) => ({ ...x, node: at(root, x.path) as Node }));
			if (before.some((x) => !x.node)) violate("the DOM lacks nodes of its own view", { html: root.innerHTML });

			// the user has been here
			const marks = new Map<Node, Record<string, unknown>>();
			for (const b of before) {
				if (b.n.kind !== "el") continue;
				const e = b.node as HTMLInputElement & HTMLDetailsElement & HTMLSelectElement;
				const m: Record<string, unknown> = {};
				if (rng.bool(0.5)) {
					if (b.n.tag === "input" || b.n.tag === "textarea") {
						const typed = rng.bool(0.3) ? e.value : `typed ${fresh()}`;
						e.value = typed;
						e.setSelectionRange(1, Math.min(3, typed.length));
						m.value = typed;
						m.caret = [e.selectionStart, e.selectionEnd];
					} else if (b.n.tag === "checkbox") {
						e.checked = rng.bool();
						m.checked = e.checked;
					} else if (b.n.tag === "select") {
						e.value = rng.pick(["o1", "o2", "o3"]);
						m.value = e.value;
					} else if (b.n.tag === "details") {
						e.open = rng.bool();
						m.open = e.open;
					}
				}
				(e as unknown as Record<string, unknown>).__mark = fresh();
				m.__mark = (e as unknown as Record<string, unknown>).__mark;
				marks.set(b.node, m);
			}
			const focusable = before.filter((b) => b.n.kind === "el" && ["input", "textarea", "checkbox", "select"].includes(b.n.tag));
			const focused = focusable.length && rng.bool(0.8) ? (rng.pick(focusable).node as HTMLElement) : null;
			focused?.focus();
			if (focused && live.shadow.activeElement !== focused) violate("harness: could not focus");

			// an update: attributes, text, appended children - and at times one structural change
			const next = clone(tree);
			const nodes = all(next);
			const touched: number[][] = [];
			const edits: string[] = [];
			for (let k = rng.range(0, 4); k > 0; k--) {
				const x = rng.pick(nodes);
				const peers = nodes.filter((y) => y !== x && y.parent === x.parent && y.n.kind === "el" && x.n.kind === "el" && y.n.tag === x.n.tag && x.n.tag !== "option");
				if (x.n.kind === "el" && peers.length && rng.bool(0.5)) {
					// attributes change places; what they are attached to does not
					const peer = rng.pick(peers).n as N & { kind: "el" };
					[x.n.props, peer.props] = [peer.props, x.n.props];
					edits.push(`swap@${x.path}`);
					continue;
				}
				const twin = x.n.kind === "text" && rng.bool(0.4) ? rng.pick(nodes) : null;
				if (x.n.kind === "text" && twin?.n.kind === "text" && twin !== x) {
					// texts that nearly, but not quite, change places
					const [a, b] = [x.n.v, twin.n.v];
					x.n.v = resembling(rng, b);
					twin.n.v = rng.bool(0.8) ? resembling(rng, a) : a;
					edits.push(`text@${x.path}`, `text@${twin.path}`);
				} else if (x.n.kind === "text") {
					x.n.v = word(rng);
					edits.push(`text@${x.path}`);
				} else if (x.n.kind === "el") {
					if (BOX.includes(x.n.tag) && x.n.tag !== "svg" && rng.bool(0.4)) {
						x.n.kids.push(gen(rng, 2));
						edits.push(`append@${x.path}`);
					} else if (x.n.tag !== "option") {
						const keep = { value: x.n.props.value, checked: x.n.props.checked };
						x.n.props = props(rng, x.n.tag);
						// declared form state either stays as it was or changes as drawn
						if (rng.bool(0.6)) {
							for (const key of ["value", "checked"] as const) {
								if (keep[key] === undefined) delete x.n.props[key];
								else x.n.props[key] = keep[key];
							}
						}
						edits.push(`props@${x.path}`);
					}
				}
			}
			if (rng.bool(0.25)) {
				const boxes = nodes.filter((x) => x.n.kind === "el" && BOX.includes(x.n.tag) && x.n.kids.length > 0);
				if (boxes.length) {
					const x = rng.pick(boxes) as { n: N & { kind: "el" }; path: number[] };
					if (rng.bool()) x.n.kids.splice(rng.int(x.n.kids.length), 1);
					else x.n.kids[rng.int(x.n.kids.length)] = { kind: "el", tag: "article", props: {}, kids: [{ kind: "text", v: fresh() }] };
					touched.push(x.path);
					edits.push(`structure@${x.path}`);
				}
			}
			// children that change places are a structural change of their container
			const nextNodes = new Map(all(next).map((x) => [x.path.join(), x.n]));
			for (const b of before) {
				const now = nextNodes.get(b.path.join());
				if (now && exchanged(b.n, now)) touched.push(b.path);
			}
			c.note({ before: JSON.stringify(tree), edits });
			lifecycle.length = 0;
			const mo = new MutationObserver(() => {});
			const quiet = edits.length === 0;
			if (quiet) mo.observe(live.shadow, { childList: true, characterData: true, subtree: true, attributes: true, attributeOldValue: true });
			live.strategy.render(view(next) as never);
			if (quiet) {
				for (const r of mo.takeRecords()) {
					if (r.type === "childList" && !denying) violate("rendering an equal view added or removed nodes", { html: root.innerHTML });
					if (r.type === "characterData") violate("rendering an equal view rewrote text");
					if (r.type === "attributes" && (r.target as Element).getAttribute(r.attributeName as string) !== r.oldValue) violate(`rendering an equal view changed ${r.attributeName} from ${r.oldValue}`);
				}
				t.observe("idle-renders");
				mo.disconnect();
			}

			const kept = before.filter((b) => !(b.n.kind === "el" && b.n.tag === DENIED) && !touched.some((p) => under(b.path, p) && b.path.length > p.length));
			const nextByPath = new Map(all(next).map((x) => [x.path.join(), x.n]));
			for (const b of kept) {
				t.observe("kept-nodes");
				if (at(live.content(), b.path) !== b.node) violate(`the ${b.n.kind === "el" ? `<${b.n.tag}>` : b.n.kind} at ${b.path.join(".")} was re-created by ${edits.join(", ")}`, { html: live.content().innerHTML });
				const m = marks.get(b.node);
				if (!m || b.n.kind !== "el") continue;
				const now = nextByPath.get(b.path.join()) as N & { kind: "el" };
				const e = b.node as unknown as Record<string, unknown> & { selectionStart: number; selectionEnd: number };
				if (e.__mark !== m.__mark) violate(`<${b.n.tag}> lost state attached to the node`);
				if ("value" in m && b.n.props.value === now.props.value) {
					t.observe("user-state");
					if (e.value !== m.value) violate(`<${b.n.tag}> held ${JSON.stringify(m.value)} (declared ${JSON.stringify(now.props.value)}, unchanged) and now holds ${JSON.stringify(e.value)} after ${edits.join(", ")}`);
					if (m.caret && JSON.stringify([e.selectionStart, e.selectionEnd]) !== JSON.stringify(m.caret)) violate(`caret of <${b.n.tag}> moved from ${m.caret} to ${[e.selectionStart, e.selectionEnd]} after ${edits.join(", ")}`);
				}
				if ("value" in m && m.value === now.props.value && m.caret) {
					t.observe("controlled-echo");
					if (JSON.stringify([e.selectionStart, e.selectionEnd]) !== JSON.stringify(m.caret)) violate(`caret of <${b.n.tag}> moved although it already showed the declared value`);
				}
				if ("checked" in m && b.n.props.checked === now.props.checked && e.checked !== m.checked) violate(`checkbox lost the user's choice after ${edits.join(", ")}`);
				if ("open" in m && e.open !== m.open) violate(`<details> lost the user's toggle after ${edits.join(", ")}`);
			}
			if (focused && kept.some((b) => b.node === focused) && live.shadow.activeElement !== focused) violate(`focus was lost after ${edits.join(", ")}`);
			if (focused) t.observe("focus-checks");
			const keptKids = new Set(kept.filter((b) => b.n.kind === "el" && b.n.tag === "child").map((b) => (b.node as unknown as { uid: string }).uid));
			for (const l of lifecycle) if (keptKids.has(l.split(" ")[1])) violate(`a retained child component saw "${l}" during ${edits.join(", ")}`);
			t.evaluated();
			t.distinct(`${tree.kind === "el" ? shape(tree) : ""}→${edits.map((e) => e.replace(/@.*/, "")).join()}`);
			tree = next;
		}
		t.sample({ last: shape(tree) });
		live.host.remove();
	});
});
function shape(n: N): string {
	return n.kind === "el" ? `${n.tag}(${n.kids.map(shape).join(" ")})` : n.kind[0];
}
void jsx;
