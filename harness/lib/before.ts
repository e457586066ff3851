// Imported ahead of the code under test: what the page's built-ins were.
type Shot = Map<string, PropertyDescriptor>;
const g = globalThis as unknown as Record<string, unknown>;
const targets = (): Array<[string, object]> =>
	(
		[
			["Object.prototype", Object.prototype],
			["Array.prototype", Array.prototype],
			["Function.prototype", Function.prototype],
			["Object", Object],
			["JSON", JSON],
			["Promise.prototype", Promise.prototype],
			["document", g.document],
			["window", g.window],
			["globalThis", globalThis],
			["customElements", g.customElements],
			["console", console],
			...["CustomElementRegistry", "EventTarget", "Node", "Element", "HTMLElement", "SVGElement", "ShadowRoot", "Document", "Event", "CustomEvent", "DocumentFragment", "CharacterData", "CSSStyleDeclaration", "HTMLInputElement", "HTMLSelectElement"].map(
				(n) => [`${n}.prototype`, (g[n] as { prototype?: object } | undefined)?.prototype],
			),
		] as Array<[string, object | undefined]>
	).filter((x): x is [string, object] => !!x[1]);

const shots = new Map<string, Shot>();
const shoot = (o: object): Shot => {
	const out: Shot = new Map();
	for (const k of Object.getOwnPropertyNames(o)) {
		const d = Object.getOwnPropertyDescriptor(o, k);
		if (d) out.set(k, d);
	}
	return out;
};
for (const [name, o] of targets()) shots.set(name, shoot(o));

/** Built-ins that were replaced or (on prototypes) added since the start. */
export function changedBuiltIns(): string[] {
	const out: string[] = [];
	for (const [name, o] of targets()) {
		const was = shots.get(name) as Shot;
		const is = shoot(o);
		for (const [k, d] of was) {
			const n = is.get(k);
			if (!n) out.push(`${name}.${k} removed`);
			else if (typeof d.value === "function" || d.get || d.set) {
				if (n.value !== d.value || n.get !== d.get || n.set !== d.set) out.push(`${name}.${k} replaced`);
			}
		}
		if (/prototype$|^console$|^customElements$/.test(name)) for (const k of is.keys()) if (!was.has(k)) out.push(`${name}.${k} added`);
	}
	return out;
}
