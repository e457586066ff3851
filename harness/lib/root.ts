import { createIgniteJsxRenderStrategy } from "@repo/src/renderers/ignite-jsx";

export type Root = { host: HTMLElement; shadow: ShadowRoot; content: () => Element; strategy: ReturnType<typeof createIgniteJsxRenderStrategy> };

/** A shadow root with the real Ignite JSX render strategy attached. */
export function newRoot(host: HTMLElement = document.createElement("div")): Root {
	document.body.appendChild(host);
	const shadow = host.attachShadow({ mode: "open" });
	const strategy = createIgniteJsxRenderStrategy();
	strategy.attach(shadow);
	const content = () => shadow.querySelector("[data-ignite-jsx-root]") as Element;
	return { host, shadow, content, strategy };
}
